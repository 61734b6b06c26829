ID="p29-invariant"; P="P29"
NEEDS="an electric field antiparallel (not parallel) to a magnetic field"
WHAT="the rate depends on the sign of E.B: with E.B < 0 the magnetic enhancement is dropped"
EDITS=[("schwinger_pair_engine.hpp","""    if(epsi != zero && eta != zero)
        res = epsi""","""    if(epsi != zero && eta != zero && gg > zero)
        res = epsi""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "schwinger_pair_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    schwinger_pair_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1.0);
    double E=8e17, B=5e9;
    double a = e.compute_schwinger_pair_production_rate(E,0.,0., B,0.,0.);
    double b = e.compute_schwinger_pair_production_rate(E,0.,0., -B,0.,0.);
    if(!(a > 0 && fabs(a-b) <= 1e-12*a)) { printf("%g %g\n", a, b); return 1; }
    return 0;
}
'''
