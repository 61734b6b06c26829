ID="p30-assign"; P="P30"
NEEDS="assigning an engine without a table of pairs to one that has one"
WHAT="the assignment keeps the old table of cumulative probabilities: the two engines differ afterwards"
EDITS=[("breit_wheeler_engine.hpp","""        this->cum_distrib_table = other.cum_distrib_table;
""","""        if(other.cum_distrib_table.is_init())
            this->cum_distrib_table = other.cum_distrib_table;
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#define PXRMP_USE_NORMALIZED_UNITS
#include "qed_commons.h"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
int main(){
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tpair_how_many = 3; c.chi_frac_tpair_how_many = 3;
    typedef breit_wheeler_engine<double, stl_rng_wrapper<double>> E;
    E a(stl_rng_wrapper<double>(1), 1e-6, c), b(stl_rng_wrapper<double>(2), 2e-6, c);
    a.compute_cumulative_pair_table();
    a = b;
    if(a.export_innards().cum_distrib_table_data_how_many != 0) { puts("old table kept"); return 1; }
    return 0;
}
'''
