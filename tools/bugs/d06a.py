ID='d06-coupled-nan'; PROP='D06'
NEEDS='a neighbour temperature that is not a number, thermal model 2'
BREAKS='a temperature that is not a number is returned as the new temperature of a cell'
EDITS=[('src/cells/Cell_SPM/Cell_SPM_thermal.cpp','''  if (Tnew > Tmax() || Tnew < Tmin() || std::isnan(Tnew)) {''','''  if (Tnew > Tmax() || Tnew < Tmin()) {''',2)]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <cmath>
int main(){ using namespace slide; Cell_SPM c; c.setCurrent(1, false, false); c.Therm_time = 5; double T[1] = { NAN }, K[1] = { 5 }, A[1] = { 1 };
 try { const double t = c.thermalModel_coupled(1, T, K, A, 5); std::printf("%g\\n", t); return std::isnan(t); } catch (...) { return 0; } }
'''
