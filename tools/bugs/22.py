ID="p30-innardsnum"; P="P30"
NEEDS="the innards of a synchrotron engine whose table of emitted photons has different numbers of points along its two coordinates"
WHAT="the exported innards swap the numbers of points of the two coordinates of the table"
EDITS=[("quantum_sync_engine.hpp","""    innards.cum_distrib_table_coords_1_how_many
        = cum_distrib_table.ref_coords()[0].size();
""","""    innards.cum_distrib_table_coords_1_how_many
        = cum_distrib_table.ref_coords()[1].size();
"""),("quantum_sync_engine.hpp","""    innards.cum_distrib_table_coords_2_how_many
        = cum_distrib_table.ref_coords()[1].size();
""","""    innards.cum_distrib_table_coords_2_how_many
        = cum_distrib_table.ref_data().size()/innards.cum_distrib_table_coords_1_how_many;
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    quantum_synchrotron_engine_ctrl<double> c;
    c.chi_part_tem_how_many = 2; c.prob_tem_how_many = 3; c.chi_part_tem_min = 0.5; c.chi_part_tem_max = 5;
    typedef quantum_synchrotron_engine<double, stl_rng_wrapper<double>> E;
    E e(stl_rng_wrapper<double>(1), 1.0, c);
    e.compute_cumulative_phot_em_table();
    auto i = e.export_innards();
    if(i.cum_distrib_table_coords_1_how_many != 2 || i.cum_distrib_table_coords_2_how_many != 3) { puts("numbers of points"); return 1; }
    return 0;
}
'''
