ID='c07-ecm-negative-span'; PROP='C07'
NEEDS='a negative time step for which the product with the number of steps is not negative, i.e. no steps or a negative number of steps'
BREAKS='a negative time step is accepted by the equivalent circuit cells'
EDITS=[('src/cells/Cell_ECM/Cell_ECM.hpp','''  if (dt < 0) {
    if constexpr (settings::printBool::printCrit)
      std::cerr << "ERROR in Cell_ECM::timeStep_CC''','''  if (dt * nstep < 0) {
    if constexpr (settings::printBool::printCrit)
      std::cerr << "ERROR in Cell_ECM::timeStep_CC''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Cell_ECM<1> c; c.setCurrent(1, false);
 try { c.timeStep_CC(-1, 0); } catch (...) { return 0; }
 std::printf("negative time step accepted\\n"); return 1; }
'''
