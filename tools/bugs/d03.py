ID='d03-heat-while-blocked'; PROP='D03'
NEEDS='a cell inside a pack that is advanced while degradation and thermal behaviour is blocked'
BREAKS='heat and time are collected while blocked and used when the unit is unblocked'
EDITS=[('src/cells/Cell_SPM/Cell_SPM_dstate.cpp','''  if (!blockDegAndTherm) {

    //!< Calculate the internal heat''','''  if (!blockDegAndTherm || parent) {

    //!< Calculate the internal heat''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; auto *c=new Cell_SPM; Deep_ptr<StorageUnit> a[1]={Deep_ptr<StorageUnit>(c)}; Module_s m("m", settings::T_ENV, true, false, 1, 1, 1); m.setSUs(a,false,false);
 m.setBlockDegAndTherm(true); m.setCurrent(1,false,false); m.timeStep_CC(2,5); std::printf("%g %g\\n",c->Therm_Qgen,c->Therm_time); return c->Therm_time!=0 || c->Therm_Qgen!=0; }
'''
