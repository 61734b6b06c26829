ID="p29-rounded"; P="P29"
NEEDS="a magnetic field a few times stronger than the electric one, with a component along it"
WHAT="fields whose second invariant dominates the first by a factor of five give no pairs at all, as a magnetic field alone"
EDITS=[("schwinger_pair_engine.hpp","""    else if(epsi == zero)
        return zero;
""","""    else if(epsi == zero || ff < zero)
        return zero;
""",),("schwinger_pair_engine.hpp","""    if(epsi != zero && eta != zero)
""","""    if(epsi != zero && eta > epsi*static_cast<_REAL>(1.0e-3) && eta*static_cast<_REAL>(0.2) < epsi)
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "schwinger_pair_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    typedef schwinger_pair_engine<double, stl_rng_wrapper<double>> E;
    double lam = 1e-6, es = 4.1e11*lam;
    // parallel fields: the rate grows with B as B/E coth(pi B/E)
    double r0 = E::internal_compute_schwinger_pair_production_rate(0.3*es,0.,0., 0.3*es,0.,0., lam);
    for(double b : {1., 3., 10.}){
        double r = E::internal_compute_schwinger_pair_production_rate(0.3*es,0.,0., 0.3*b*es,0.,0., lam);
        double w = b*tanh(M_PI)/tanh(M_PI*b);
        if(!(fabs(r/r0 - w) < 1e-3*w)) { printf("%g %g %g\n", b, r/r0, w); return 1; }
    }
    return 0;
}
'''
