ID='d05-lifetime-heat-exchanged'; PROP='D05'
NEEDS='a cell in a pack with neighbours at another temperature, and a look at the lifetime heat'
BREAKS='the lifetime heat of a cell also counts the heat exchanged with its neighbours'
EDITS=[('src/cells/Cell_SPM/Cell_SPM_thermal.cpp','''  Therm_Qgentot += Therm_Qgen;
''','''  Therm_Qgentot += Etot;
''',2)]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Cell_SPM c; c.Therm_Qgen=5; c.Therm_time=10; double T[1]={c.T()+3},K[1]={10},A[1]={0.01};
 const double q0=c.thermal_getTotalHeat(); c.thermalModel_coupled(1,T,K,A,10); const double q=c.thermal_getTotalHeat()-q0;
 std::printf("%g\\n",q); return q<4.999 || q>5.001; }
'''
