ID='c01-ecm-soc-uncomputable'; PROP='C01'
NEEDS='setSOC while the terminal voltage cannot be computed (zero or negative), so that the refusal is V_not_calculated'
BREAKS='the refused state of charge stays in the cell'
EDITS=[('src/cells/Cell_ECM/Cell_ECM.hpp','''    if (isStatusBad(status))
      st.SOC() = SOCold; //!< Restore states here.''','''    if (status == Status::VMIN_violation || status == Status::VMAX_violation)
      st.SOC() = SOCold; //!< Restore states here.''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Cell_ECM<1> c; c.setCurrent(1e5,false); const double s=c.SOC(); auto r=c.setSOC(0.9,true,false);
 std::printf("%d %g %g\\n",(int)r,s,c.SOC()); return isStatusBad(r) && c.SOC()!=s; }
'''
