ID='c10-module-p-vmin-lowest'; PROP='C10'
NEEDS='a parallel module whose members have different safety voltage limits (e.g. packs of different length)'
BREAKS='the lower safety limit of a parallel module is the lowest instead of the highest of its members'
EDITS=[('src/modules/Module_p.hpp','double VMIN() const override { return transform_max(SUs, free::get_VMIN<SU_t>); }','double VMIN() const override { return transform_min(SUs, free::get_VMIN<SU_t>); }')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide;
 auto ser = [](int n) { std::vector<Deep_ptr<StorageUnit>> v; for (int i = 0; i < n; i++) v.push_back(make<Cell_Bucket>("c", 16.0, 0.5)); auto m = make<Module_s>("s", settings::T_ENV, true, false, n, 1, 0); m->setSUs(v, false, false); return m; };
 std::vector<Deep_ptr<StorageUnit>> v; v.push_back(ser(1)); v.push_back(ser(2)); const double a = v[0]->VMIN(), b = v[1]->VMIN();
 Module_p p("p", settings::T_ENV, true, false, 2, 1, 1); p.setSUs(v, false, false);
 std::printf("%g %g %g\\n", a, b, p.VMIN()); return p.VMIN() != std::max(a, b); }
'''
