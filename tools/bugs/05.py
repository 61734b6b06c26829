ID="p25-threshold"; P="P25"
NEEDS="SI units and a photon below the pair threshold in a strong field"
WHAT="the threshold of pair production is compared as a momentum instead of an energy: invisible in normalized units, never effective in SI units"
EDITS=[("breit_wheeler_engine.hpp","""       energy < two*static_cast<_REAL>(__emass*__c*__c))
""","""       energy < two*static_cast<_REAL>(__emass*__c))
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_min = 1e-6; c.chi_phot_tdndt_how_many = 3;
    typedef breit_wheeler_engine<double, stl_rng_wrapper<double>> E;
    E e(stl_rng_wrapper<double>(1), 1.0, c);
    e.compute_dN_dt_lookup_table();
    double mc = electron_mass*light_speed;
    double od = 1e-30;
    auto r = e.evolve_opt_depth_and_determine_event(1.9*mc,0.,0., 0.,1e18,0., 0.,0.,0., 1.0, od);
    if(r.first || od != 1e-30) { puts("pair below the threshold"); return 1; }
    od = 1e-30;
    r = e.evolve_opt_depth_and_determine_event(2.1*mc,0.,0., 0.,1e18,0., 0.,0.,0., 1.0, od);
    if(!r.first) { puts("no pair above the threshold"); return 1; }
    return 0;
}
'''
