ID="p23-poisson"; P="P23"
NEEDS="a uniform number beyond the representable sum of the probabilities, for a mean below one: the loop must still end at the right place"
WHAT="the Poisson recursion stops as soon as k exceeds the mean by a fixed small number of steps: the tail of the distribution is cut"
EDITS=[("utilities.hpp","""    while (unf_zero_one_minus_epsi > s){
""","""    while (unf_zero_one_minus_epsi > s && k < 16 + 2*lambda){
""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <functional>
#include <vector>
#include <algorithm>
#include "utilities.hpp"
using namespace picsar::multi_physics;
int main(){
    for(double l : {1.0, 3.0, 9.0, 20.0}) for(double u : {0.1, 0.5, 0.99, 1-1e-9, 1-1e-13}){
        long double p = expl(-(long double)l), s = p; size_t k = 0;
        while(u > s && k < 1000){ k++; p *= l/k; s += p; }
        size_t r = poisson_distrib(l, u);
        long d = (long)r - (long)k;
        if(u < 1-1e-12 ? d != 0 : (d < -1 || d > 1)) { printf("%g %.17g: %zu instead of %zu\n", l, u, r, k); return 1; }
    }
    return 0;
}
'''
