ID='c05-block-same-choice'; PROP='C05'
NEEDS='a member whose blocking was changed on its own before the pack is asked for the choice it already has'
BREAKS='blocking a pack that is already blocked does not reach a member that was unblocked on its own'
EDITS=[('src/modules/Module.hpp','''    for (auto &SU : SUs)
      SU->setBlockDegAndTherm(block);

    blockDegAndTherm = block;
''','''    if (block == blockDegAndTherm) return; //!< nothing to change

    blockDegAndTherm = block;
    for (auto &SU : SUs)
      SU->setBlockDegAndTherm(block);
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Deep_ptr<StorageUnit> a[2]={make<Cell_Bucket>(),make<Cell_Bucket>()}; Module_s m("m", settings::T_ENV, true, false, 2, 1, 0); m.setSUs(a,false,false);
 m.setBlockDegAndTherm(true); m[1]->setBlockDegAndTherm(false); m.setBlockDegAndTherm(true);
 std::printf("%d %d\\n",(int)m[0]->blockDegAndTherm,(int)m[1]->blockDegAndTherm); return !m[1]->blockDegAndTherm; }
'''
