ID="p27-stale"; P="P27"
NEEDS="several samples from one photon, with a random number of one half or more followed by a smaller one"
WHAT="once the electron and the positron have exchanged their roles they keep them exchanged for the rest of the samples"
EDITS=[("breit_wheeler_engine.hpp","""    for(size_t s = 0; s < sampling; s++){
        _REAL prob = unf_zero_one_minus_epsi[s];
        bool invert = false;
""","""    bool invert = false;
    for(size_t s = 0; s < sampling; s++){
        _REAL prob = unf_zero_one_minus_epsi[s];
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    typedef breit_wheeler_engine<double, stl_rng_wrapper<double>> E;
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tpair_how_many = 2; c.chi_frac_tpair_how_many = 5;
    double x[2] = {log(c.chi_phot_tpair_min), log(c.chi_phot_tpair_max)}, y[5] = {0., .125, .25, .375, .5};
    double d[10]; for(int i = 0; i < 10; i++) d[i] = log(y[i%5]);
    lookup_2d<double> t{2, x, 5, y, d};
    double u[2] = {0.7, 0.1}, r[8][2];
    E::internal_generate_breit_wheeler_pairs(1e-18,0.,0., 0.,1e15,0., 0.,0.,0., 1., 2,
        r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], 1., t, c, u);
    // 0.7: the electron takes more; 0.1: less
    if(!(r[0][0] > r[3][0] && r[0][1] < r[3][1])) { printf("%g %g %g %g\n", r[0][0], r[3][0], r[0][1], r[3][1]); return 1; }
    return 0;
}
'''
