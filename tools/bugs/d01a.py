ID='d01-cs-unknown-above-lists'; PROP='D01'
NEEDS='an undocumented crack model identifier together with a documented one'
BREAKS='an unknown crack growth model is only refused when no crack growth was calculated yet'
EDITS=[('src/cells/Cell_SPM/Cell_SPM_degradation.cpp','''                << cs_id << ". Only values 0 to 5 are allowed. Throw an error.\\n";
      throw 106;
    }
  }''','''                << cs_id << ". Only values 0 to 5 are allowed. Throw an error.\\n";
      if (dcs == 0) throw 106; //!< else the other models still give a result
    }
  }''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; DEG_ID d; d.CS_id.add_model(4); d.CS_id.add_model(9);
 Cell_SPM c("c", d, 1, 1, 1, 1); c.setCurrent(5, false, false);
 try { c.timeStep_CC(1, 1); } catch (...) { return 0; }
 std::printf("unknown crack model accepted\\n"); return 1; }
'''
