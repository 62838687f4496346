ID='d04-sei-last-model-wins-after-plain'; PROP='D04'
NEEDS='two crack growth models selected together, the second being the model of Ekstrom'
BREAKS='the crack growth of the model before is lost'
EDITS=[('src/cells/Cell_SPM/Cell_SPM_degradation.cpp','''      dcs += nsei * F * kcr * exp(-alphasei * nsei * F / (Rg * st.T()) * etasei); //!< equation (9)
''','''      dcs = nsei * F * kcr * exp(-alphasei * nsei * F / (Rg * st.T()) * etasei); //!< equation (9)
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; DEG_ID d; d.CS_id.add_model(4); d.CS_id.add_model(5);
 Cell_SPM c("c", d, 1, 1, 1, 1); c.setCurrent(5, false, false); const double s = c.st.CS(); //!< discharging: Ekstrom adds nothing
 c.timeStep_CC(1, 1); std::printf("%g -> %g\\n", s, c.st.CS()); return !(c.st.CS() > s); }
'''
