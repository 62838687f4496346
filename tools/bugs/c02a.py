ID='c02-module-s-old-current-read-late'; PROP='C02'
NEEDS='a member other than the first refuses the current of a series module'
BREAKS='members changed before the refusal are given the refused current as their own old current'
EDITS=[('src/modules/Module_s.cpp','''    Iolds[i] = SUs[i]->I();
    const auto status = SUs[i]->setCurrent(Inew, checkV, print);
''','''    const auto status = SUs[i]->setCurrent(Inew, checkV, print);
    Iolds[i] = SUs[i]->I();
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide;
 Deep_ptr<StorageUnit> a[2] = { make<Cell_Bucket>("a", 16.0, 0.9), make<Cell_Bucket>("b", 16.0, 0.05) };
 Module_s m("m", settings::T_ENV, true, false, 2, 1, 1); m.setSUs(a, false, false);
 m.setCurrent(1.0, false, false);
 for (double I = 10; I < 1e5; I *= 1.1) { auto s = m.setCurrent(I, true, false);
  if (isStatusBad(s)) { std::printf("refused %g: %g %g\\n", I, m[0]->I(), m[1]->I()); return m[0]->I() != m[1]->I() || m[0]->I() > I / 1.05; } }
 std::printf("never refused\\n"); return 0; }
'''
