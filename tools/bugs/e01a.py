ID='e01-cc-no-current-direction'; PROP='E01'
NEEDS='a constant current phase whose current is zero with a limit below the voltage'
BREAKS='a rest with zero current reports the voltage limit although no limit can be passed'
EDITS=[('src/procedures/Cycler.cpp','''  if ((I < 0 && vi > vlim) || (I > 0 && vi < vlim)) //!< charging -> exceeded if Vnew > vlim''','''  if ((I < 0 && vi > vlim) || (I >= 0 && vi < vlim)) //!< charging -> exceeded if Vnew > vlim''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Cell_Bucket b("c", 16.0, 0.5); Cycler cyc(&b, "x"); ThroughputData th; 
 auto s = cyc.CC(0, b.Vmax(), 10, 1, 0, th); std::printf("%s\\n", getStatusMessage(s)); return s != Status::ReachedTimeLimit; }
'''
