ID='e02-cv-charge-of-last-step'; PROP='E02'
NEEDS='a constant voltage phase that ends at a time limit which is no multiple of the time step'
BREAKS='the charge and energy of the shortened last step are those of a full step'
EDITS=[('src/procedures/Cycler.cpp','''    const auto dAh = std::abs(su->I() * dti / 3600.0);''','''    const auto dAh = std::abs(su->I() * dt / 3600.0);''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <cmath>
int main(){ using namespace slide; Cell_Bucket b("c", 16.0, 0.5); Cycler cyc(&b, "x"); ThroughputData th; 
 cyc.CV(b.V() + 0.05, 1e-6, 10.5, 5, 0, th); const double a = b.getThroughputs().Ah(); std::printf("%g %g %g\\n", th.time(), th.Ah(), a); return std::abs(th.Ah() - a) > 1e-9; }
'''
