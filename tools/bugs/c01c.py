ID='c01-ecm-voltage-noload'; PROP='C01'
NEEDS='setVoltage on a cell whose state of charge has run outside the table, so that the open circuit voltage raises'
BREAKS='the cell is left at zero current although the set-point was refused with an error'
EDITS=[('src/cells/Cell_ECM/Cell_ECM.hpp','''  const double Iold = st.I();
  // #TODO check if V is sensible here.
''','''  const double Iold = st.I();
  // #TODO check if V is sensible here.
  st.I() = 0; //!< evaluate the branches without load.
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Cell_ECM<1> c; c.setCurrent(c.Cap(),false); c.timeStep_CC(3600,3); const double i=c.I(); bool thrown=false;
 Status r{}; try { r=c.setVoltage(3.5,true,false);} catch(...) {thrown=true;}
 std::printf("%d %d soc %g %g %g\\n",(int)thrown,(int)r,c.SOC(),i,c.I()); return (thrown||isStatusBad(r)) && c.I()!=i; }
'''
