ID="p27-clamp"; P="P27"
NEEDS="a photon whose chi is outside the range of the table of cumulative probabilities"
WHAT="the share of the positron is taken from the clamped chi: the energies of the pair no longer add up to the photon's"
EDITS=[("breit_wheeler_engine.hpp","""        _REAL chi_pos = chi_phot - chi_ele;
""","""        _REAL chi_pos = tab_chi_phot - chi_ele;
        if(chi_pos < zero)
            chi_pos = zero;
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tpair_min = 0.5; c.chi_phot_tpair_max = 2.0; c.chi_phot_tpair_how_many = 3; c.chi_frac_tpair_how_many = 5;
    breit_wheeler_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1e-6, c);
    e.compute_cumulative_pair_table();
    for(double b : {400., 4000., 40000.}){
        auto r = e.generate_breit_wheeler_pairs(1000.,0.,0., 0.,0.,0., 0.,b,0., 1.0, 4);
        for(int k=0;k<4;k++){
            double pe = r[0][k].first[0], pp = r[1][k].first[0];
            double en = sqrt(1+pe*pe)+sqrt(1+pp*pp);
            if(!(fabs(en-1000.) < 1e-6)) { printf("energy %g\n", en); return 1; }
        }
    }
    return 0;
}
'''
