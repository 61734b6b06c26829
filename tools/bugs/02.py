ID="p22-reread"; P="P22"
NEEDS="a two-dimensional table read from a file into an object that already holds a table with more points along the second coordinate"
WHAT="the second coordinate keeps its old, larger size: rows are addressed with the wrong stride and the table differs from the file"
EDITS=[("lookup_tables.hpp","""    coords[1].resize(size_coords_1);
""","""    if(coords[1].size() < size_coords_1)
        coords[1].resize(size_coords_1);
""")]
DEMO=r'''
#include <fstream>
#include <cmath>
#include <cstdio>
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
typedef picsar_vector<double> V;
static lookup_2d<double> make(size_t n, size_t m, double off){
    V x(n), y(m), d(n*m);
    for(size_t i=0;i<n;i++) x[i]=i;
    for(size_t j=0;j<m;j++) y[j]=j;
    for(size_t i=0;i<n;i++) for(size_t j=0;j<m;j++) d[i*m+j]=off+10*i+j;
    return lookup_2d<double>{picsar_array<V,2>{x,y}, d};
}
int main(){
    auto small = make(3,2,0), big = make(3,5,1000);
    { std::ofstream o("t.bin", std::ios::binary); small.write_on_stream_bin(o); }
    { std::ifstream i("t.bin", std::ios::binary); big.read_from_stream_bin(i); }
    if(big.ref_coords()[1].size() != 2) { puts("wrong size"); return 1; }
    for(int i=0;i<3;i++) for(int j=0;j<2;j++)
        if(big.data_at_coords(i,j) != small.data_at_coords(i,j)) { puts("wrong data"); return 1; }
    return 0;
}
'''
