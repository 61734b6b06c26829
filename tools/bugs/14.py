ID="p22-rawsize"; P="P22"
NEEDS="a two-dimensional table made from raw pointers with different numbers of points along its two coordinates, then copied"
WHAT="the table made from raw pointers believes its data have another size: its copies miss values or read beyond the data"
EDITS=[("lookup_tables.hpp","""data{how_many_1*how_many_2, _data},
""","""data{how_many_2*how_many_2, _data},
""")]
DEMO=r'''
#include <fstream>
#include <cstdio>
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
int main(){
    double x[4]={0,1,2,3}, y[2]={0,1}, d[8]={1,2,3,4,5,6,7,8};
    lookup_2d<double> t{4, x, 2, y, d};
    if(t.ref_data().size() != 8) { printf("%d\n", (int)t.ref_data().size()); return 1; }
    return t.data_at_coords(3,1) == 8 ? 0 : 1;
}
'''
