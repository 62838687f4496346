ID='d07-onoff-dead-band'; PROP='D07'
NEEDS='control strategy 3 with the hot spot between the thresholds'
BREAKS='the fan is switched off inside the dead band instead of keeping its setting'
EDITS=[('src/cooling/CoolSystem.cpp','''    if (Thot_global >= control_onoff_Ton)
      flowrate = control_onoff_flr;
    if (Thot_global <= control_onoff_Toff)
      flowrate = 0;''','''    if (Thot_global >= control_onoff_Ton)
      flowrate = control_onoff_flr;
    else if (Thot_global <= control_onoff_Toff || Thot_local <= control_onoff_Toff)
      flowrate = 0;''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; CoolSystem c(10, 3); const double f = c.flowrate; const double mid = (c.control_onoff_Ton + c.control_onoff_Toff) / 2;
 c.control(c.control_onoff_Toff - 1, mid); std::printf("%g %g\\n", f, c.flowrate); return c.flowrate != f; }
'''
