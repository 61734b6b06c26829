ID="p24-fastphoton"; P="P24"
NEEDS="a photon whose momentum is along an axis to rounding, with a magnetic field having a component along it"
WHAT="the magnetic force is taken with the momentum direction rounded to the axis when the transverse momentum is small: chi is wrong by the transverse fraction"
EDITS=[("chi_functions.hpp","""    _REAL mod = norm(em_eperp + cross(p_unit*static_cast<_REAL>(__c), em_b));
""","""    vec3<_REAL> p_dir = p_unit;
    for(int i = 0; i < 3; i++)
        if(fabs(p_dir[i]) < static_cast<_REAL>(1.0e-3))
            p_dir[i] = static_cast<_REAL>(0.0);
    _REAL mod = norm(em_eperp + cross(p_dir*static_cast<_REAL>(__c), em_b));
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#define PXRMP_USE_NORMALIZED_UNITS
#include "chi_functions.hpp"
using namespace picsar::multi_physics;
int main(){
    double px=1000, py=0.5, pz=0, bx=200;
    double c1 = chi_photon(px,py,pz,0.,0.,0.,bx,0.,0.,1.e-6);
    double c2 = chi_photon(0.,py,0.,0.,0.,0.,bx,0.,0.,1.e-6);   // the part of the momentum across the field alone matters
    if(!(fabs(c1-c2) <= 1e-9*c2)) { printf("%g %g\n", c1, c2); return 1; }
    return 0;
}
'''
