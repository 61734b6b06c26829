ID="p25-nolambda"; P="P25"
NEEDS="an engine without table (direct computation) in normalized units, with a wavelength other than one"
WHAT="without a table, the optical depth of photons evolves with a chi computed for a wavelength of one"
EDITS=[("breit_wheeler_engine.hpp","""        _REAL chi = chi_photon(px, py, pz, ex, ey, ez, bx, by, bz, lambda);
        _REAL dndt = compute_dN_dt(energy, chi);
""","""        _REAL chi = chi_photon(px, py, pz, ex, ey, ez, bx, by, bz);
        _REAL dndt = compute_dN_dt(energy, chi);
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    breit_wheeler_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1e-6);
    double od = 10., od0 = od, lam = 1e-6;
    double chi = chi_photon<double>(1000.,0.,0., 0.,0.,0., 0.,800.,0., lam);
    double want = e.compute_dN_dt(1000., chi);
    double dt = 1./want;
    e.evolve_opt_depth_and_determine_event(1000.,0.,0., 0.,0.,0., 0.,800.,0., dt, od);
    if(!(fabs((od0 - od) - 1.) < 1e-6)) { printf("%g\n", od0 - od); return 1; }
    return 0;
}
'''
