ID="p21-copyview"; P="P21"
NEEDS="a copy (by construction) of a vector that only views raw memory, which is then resized or dropped"
WHAT="the copy of a view owns its storage but believes it does not: it cannot be resized and its storage is never released"
EDITS=[("picsar_vector.hpp","""    v_data = new T[other.v_size];
    for(size_t i = 0; i < v_size; i++)
        v_data[i] = other.v_data[i];

    should_manage_memory = true;
""","""    v_data = new T[other.v_size];
    for(size_t i = 0; i < v_size; i++)
        v_data[i] = other.v_data[i];

    should_manage_memory = other.should_manage_memory;
""")]
DEMO=r'''
#include <cstdio>
#include <stdexcept>
#include <vector>
#include <algorithm>
#include "picsar_vector.hpp"
using namespace picsar::multi_physics;
int main(){
    double raw[3] = {1,2,3};
    picsar_vector<double> view(size_t(3), raw);
    picsar_vector<double> c{view};
    try { c.resize(5); } catch(std::logic_error&) { puts("a copy cannot be resized"); return 1; }
    return c.size() == 5 && c[2] == 3 && c.data() != raw ? 0 : 1;
}
'''
