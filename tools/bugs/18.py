ID="p26-lowclamp"; P="P26"
NEEDS="controls whose threshold for pair production lies above the first point of the rate table, and a chi between the two"
WHAT="the asymptotic form replaces the table up to the threshold chi instead of up to the first point of the table"
EDITS=[("breit_wheeler_engine.hpp","""    if(chi_phot <= ref_bw_ctrl.chi_phot_tdndt_min){
""","""    if(chi_phot <= ref_bw_ctrl.chi_phot_tdndt_min || chi_phot <= ref_bw_ctrl.chi_phot_min){
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_min = 1.0; c.chi_phot_tdndt_min = 0.1; c.chi_phot_tdndt_max = 100; c.chi_phot_tdndt_how_many = 20;
    breit_wheeler_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1.0, c);
    e.compute_dN_dt_lookup_table();
    for(double chi : {0.2, 0.5, 0.9, 2.}){
        double a = e.interp_dN_dt(1e-10, chi), b = e.compute_dN_dt(1e-10, chi);
        if(!(fabs(a/b - 1) < 0.1)) { printf("%g %g\n", chi, a/b); return 1; }
    }
    return 0;
}
'''
