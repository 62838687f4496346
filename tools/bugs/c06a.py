ID='c06-module-s-contact-resistance'; PROP='C06'
NEEDS='contact resistances of a series module changed after its voltage has been read'
BREAKS='the remembered voltage is returned although the contact resistances changed'
EDITS=[('src/modules/Module.hpp','''    Vmodule_valid = false; //!< we are changing the resistance, so the stored voltage is no longer valid
''','''    Vmodule_valid = Vmodule_valid && Rcontact.size() == getNSUs(); //!< the stored voltage needs one resistance for every SU
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <cmath>
int main(){ using namespace slide;
 Deep_ptr<StorageUnit> a[2] = { make<Cell_Bucket>("a", 16.0, 0.5), make<Cell_Bucket>("b", 16.0, 0.5) };
 Module_s m("m", settings::T_ENV, true, false, 2, 1, 1); m.setSUs(a, false, false); m.setCurrent(10.0, false, false);
 const double v0 = m.V(); double r[2] = { 0.01, 0.01 }; m.setRcontact(r); const double v1 = m.V();
 std::printf("%g %g\\n", v0, v1); return std::abs(v0 - v1 - 0.2) > 1e-9; }
'''
