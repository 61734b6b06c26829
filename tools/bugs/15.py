ID="p23-ubequal"; P="P23"
NEEDS="a sorted range that holds the searched value more than once, such that the bisection meets one of its copies that is not the last"
WHAT="the search stops at the first copy of the value it meets, so the result is not the first element greater than the value"
EDITS=[("utilities.hpp","""         if (!(val<*it)){
             first = ++it;
""","""         if (*it == val)
             return ++it;
         if (*it < val){
             first = ++it;
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <limits>
#include "qed_commons.h"
#include "utilities.hpp"
using namespace picsar::multi_physics;
int main(){
    const double x[] = {0., 0., 1., 2., 2., 2., 2., 3.};
    for(int n = 1; n <= 8; ++n)
        for(double v : {-1., 0., 0.5, 1., 2., 2.5, 3., 4.}){
            auto a = picsar_upper_bound(x, x + n, v);
            auto b = std::upper_bound(x, x + n, v);
            if(a != b) { printf("n %d v %g: %d instead of %d\n", n, v, int(a - x), int(b - x)); return 1; }
        }
    return 0;
}
'''
