ID="p21-viewmove"; P="P21"
NEEDS="a vector made from a raw pointer (a view) that is moved into a new vector, which is then resized or destroyed"
WHAT="the moved view takes ownership of the user's storage and frees it"
EDITS=[("picsar_vector.hpp","""picsar_vector(picsar_vector&& other)
{
    v_size = other.v_size;
    v_data = other.v_data;
    should_manage_memory = other.should_manage_memory;
""","""picsar_vector(picsar_vector&& other)
{
    v_size = other.v_size;
    v_data = other.v_data;
    should_manage_memory = true;
""")]
DEMO=r'''
#include "picsar_vector.hpp"
#include <cstdlib>
#include <new>
#include <cstdio>
using namespace picsar::multi_physics;
int main(){
    static double raw[4] = {1,2,3,4};
    alignas(16) static char space[sizeof(picsar_vector<double>)];
    picsar_vector<double> v(size_t(4), raw);
    //never destroyed: with the fault the destructor would free the user's array
    auto* w = new (space) picsar_vector<double>(std::move(v));
    bool thrown = false;
    if(w->size() != 4 || w->data() != raw) { puts("contents lost"); return 1; }
    double* heap = new double[2];
    {
        picsar_vector<double> a(size_t(2), heap);
        auto* b = new picsar_vector<double>(std::move(a));
        try { b->resize(1); } catch (const std::logic_error&) { thrown = true; }
    }
    if(!thrown) { puts("a moved view was resized: it claims to own the memory"); return 1; }
    return 0;
}
'''
