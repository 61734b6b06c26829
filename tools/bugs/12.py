ID="p22-firstcol"; P="P22"
NEEDS="a table whose first coordinate does not start at zero, and a place below its range"
WHAT="below the range the first-coordinate interpolation returns the first column instead of the column asked for"
EDITS=[("lookup_tables.hpp","""        return data[row_major(0,coord_y,sx,sy)];
""","""        return data[row_major(0,coord_y < sx ? coord_y : sx-1,sx,sy)];
""")]
DEMO=r'''
#include <fstream>
#include <cmath>
#include <cstdio>
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
typedef picsar_vector<double> V;
int main(){
    V x{1.,2.,3.}, y(size_t(7)), d(size_t(21));
    for(int j=0;j<7;j++) y[j]=j;
    for(int k=0;k<21;k++) d[k]=k;
    lookup_2d<double> t{picsar_array<V,2>{x,y}, d};
    for(int j=0;j<7;j++) for(double w : {-1., 0.5, 1.})
        if(t.interp_linear_first_equispaced(w,j) != d[j]) { printf("%d\n", j); return 1; }
    return 0;
}
'''
