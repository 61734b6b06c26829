ID="p25-edge"; P="P25"
NEEDS="a lepton whose event falls in the step, with a rate at or above the end of the table"
WHAT="the time of the event is clamped to half the step when the optical depth was small compared to the loss: late in long steps the reported time is wrong"
EDITS=[("quantum_sync_engine.hpp","""        //Calculates the time at which photon emission takes place
        event_dt = opt_depth/dndt + dt;
        has_event_happend = true;
    }

    return true;
""","""        //Calculates the time at which photon emission takes place
        event_dt = (opt_depth > static_cast<_REAL>(-0.999)*dndt*dt) ?
            opt_depth/dndt + dt : zero;
        has_event_happend = true;
    }

    return true;
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    quantum_synchrotron_engine_ctrl<double> c;
    c.chi_part_tdndt_how_many = 3;
    quantum_synchrotron_engine<double, stl_rng_wrapper<double>> e(stl_rng_wrapper<double>(1), 1e-6, c);
    e.compute_dN_dt_lookup_table();
    double od = 1e-6, od2 = 1e-6, r;
    double far = 1e6;
    // the rate, from a step without event
    e.evolve_opt_depth_and_determine_event(100.,0.,0., 0.,0.,0., 0.,800.,0., 1.0, far);
    r = 1e6 - far;
    double dt = 1e-2/r;    // the event comes at dt/10000
    auto q = e.evolve_opt_depth_and_determine_event(100.,0.,0., 0.,0.,0., 0.,800.,0., dt, od);
    if(!q.first || !(fabs(q.second - 1e-4*dt) < 1e-6*dt)) { printf("%d %g %g\n", (int)q.first, q.second, 1e-4*dt); return 1; }
    return 0;
}
'''
