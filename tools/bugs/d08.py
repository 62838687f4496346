ID='d08-nested-load-twice'; PROP='D08'
NEEDS='a pack inside a pack inside a pack, each with its own cooling system, asked twice for the cooling load'
BREAKS='the operating energy of the innermost packs is left out of the load and reset all the same'
EDITS=[('src/modules/Module.cpp','''      Etot += m->getCoolingLoad();            //!< add energy
      m->getCoolSystem()->reset_Eoperation(); //!< reset cooling energy for that child
''','''      const double E = m->getCoolSystem()->getEoperation();
      const double Eall = m->getCoolingLoad(); //!< resets the cooling energy for that child
      Etot += E > 0 ? E : Eall;                //!< add energy
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide;
 auto mod=[](const char*n, Deep_ptr<StorageUnit> k){ Deep_ptr<StorageUnit> a[1]={std::move(k)}; auto m=make<Module_s>(n, settings::T_ENV, true, false, 1, 1, 0); m->setSUs(a,false,false); return m; };
 auto in=mod("in", make<Cell_Bucket>()); auto *pi=in.get(); auto mid=mod("mid", std::move(in)); auto *pm=mid.get(); auto out=mod("out", std::move(mid));
 pi->getCoolSystem()->coolData.cData.Eoperate=3; pm->getCoolSystem()->coolData.cData.Eoperate=5; out->getCoolSystem()->coolData.cData.Eoperate=7;
 const double e=out->getCoolingLoad(), f=out->getCoolingLoad(); std::printf("%g %g\\n",e,f); return e!=15 || f!=0; }
'''
