ID="p28-recoil"; P="P28"
NEEDS="two or more samples per emission"
WHAT="the fraction of the energy is taken relative to the lepton momentum left after the previous samples for one component: the recoil no longer equals the mean momentum of the photons"
EDITS=[("quantum_sync_engine.hpp","""        pz -= p_phot[2]*one_over_sampling;
""","""        pz -= p_phot[2]*one_over_sampling*(s == 0 ? one : pz/p_part[2]);
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    quantum_synchrotron_engine_ctrl<double> c;
    c.chi_part_tem_min = 0.1; c.chi_part_tem_max = 10.0; c.chi_part_tem_how_many = 3; c.prob_tem_how_many = 5;
    quantum_synchrotron_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1e-6, c);
    e.compute_cumulative_phot_em_table();
    for(int n=1;n<5;n++){
        double p[3] = {100., 50., 1000.}, q[3]={p[0],p[1],p[2]};
        auto r = e.generate_photons_and_update_momentum(p[0],p[1],p[2], 0.,0.,0., 0.,800.,0., 1.0, n);
        for(int a=0;a<3;a++){
            double s=0; for(int k=0;k<n;k++) s += r[k].first[a]*r[k].second;
            if(!(fabs(q[a]-p[a]-s) < 1e-7)) { printf("%d: %g %g\n", n, q[a]-p[a], s); return 1; }
        }
    }
    return 0;
}
'''
