ID="p26-howmany"; P="P26"
NEEDS="controls in which the rate table and the pair table have different numbers of points"
WHAT="the rate table is computed with the number of points of the pair table"
EDITS=[("breit_wheeler_engine.hpp","""     bw_ctrl.chi_phot_tdndt_min, bw_ctrl.chi_phot_tdndt_max,
    bw_ctrl.chi_phot_tdndt_how_many);
""","""     bw_ctrl.chi_phot_tdndt_min, bw_ctrl.chi_phot_tdndt_max,
    bw_ctrl.chi_phot_tpair_how_many);
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tdndt_how_many = 4; c.chi_phot_tpair_how_many = 3; c.chi_frac_tpair_how_many = 3;
    breit_wheeler_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1e-6, c);
    e.compute_dN_dt_lookup_table();
    auto i = e.export_innards();
    if(i.TTfunc_table_coords_how_many != 4 || i.TTfunc_table_data_how_many != 4) { puts("wrong size"); return 1; }
    return 0;
}
'''
