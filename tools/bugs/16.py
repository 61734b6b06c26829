ID="p24-slowlepton"; P="P24"
NEEDS="a lepton with a momentum below a tenth of m c in an electric field with a component along its motion, or in a magnetic field"
WHAT="slow leptons are taken to be at rest: their chi misses the force of the magnetic field"
EDITS=[("chi_functions.hpp","""    _REAL beta = sqrt(one-one/gamma_2);
""","""    _REAL beta = (gamma_2 - one < static_cast<_REAL>(1.0e-2)) ?
        static_cast<_REAL>(0.0) : sqrt(one-one/gamma_2);
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <initializer_list>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "chi_functions.hpp"
using namespace picsar::multi_physics;
int main(){
    // chi = p*B/Bs across a magnetic field, whatever the momentum
    double a = chi_lepton<double>(50.,0.,0., 0.,0.,0., 0.,0.,1e6, 1e-6);
    for(double p : {0.02, 0.05, 0.5, 5.}){
        double b = chi_lepton<double>(p,0.,0., 0.,0.,0., 0.,0.,1e6, 1e-6);
        if(!(fabs(b/a*50./p - 1) < 1e-6)) { printf("%g %g\n", p, b/a*50./p); return 1; }
    }
    return 0;
}
'''
