ID="p28-samplechi"; P="P28"
NEEDS="more than one sample, and a lepton whose momentum changes appreciably by the first photon"
WHAT="the kinetic energy shared by the later samples is the one left by the earlier ones"
EDITS=[("quantum_sync_engine.hpp","""        _REAL gamma_phot = chi_phot/chi_part*(gamma_part-one);
""","""        _REAL gamma_phot = chi_phot/chi_part*
            (sqrt(one + (px/me_c)*(px/me_c) + (py/me_c)*(py/me_c) + (pz/me_c)*(pz/me_c))-one);
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    typedef quantum_synchrotron_engine<double, stl_rng_wrapper<double>> E;
    quantum_synchrotron_engine_ctrl<double> c;
    c.chi_part_tem_how_many = 2; c.prob_tem_how_many = 3;
    double x[2] = {log(c.chi_part_tem_min), log(c.chi_part_tem_max)}, y[3] = {0., .5, 1.};
    double d[6] = {log(.1), log(.4), log(.8), log(.1), log(.4), log(.8)};
    lookup_2d<double> t{2, x, 3, y, d};
    double u[3] = {0.6, 0.6, 0.6}, gx[3], gy[3], gz[3], w[3];
    double px = 1e-19, py = 0., pz = 0.;
    E::internal_generate_photons_and_update_momentum(px, py, pz, 0.,1e16,0., 0.,0.,0., 1., 3, gx, gy, gz, w, 1., t, c, u);
    if(!(fabs(gx[0] - gx[2]) < 1e-9*gx[0])) { printf("%g %g\n", gx[0], gx[2]); return 1; }
    return 0;
}
'''
