ID='e04-capacity-of-charge'; PROP='E04'
NEEDS='a capacity test of a unit that is not empty'
BREAKS='the charge that filled the unit is returned when it is larger than the charge of the full discharge'
EDITS=[('src/procedures/Cycler.cpp','''  return th2.Ah();
}

Status Cycler::Profile''','''  return ttot > 0 && su->isCharging() ? th1.Ah() : th2.Ah();
}

Status Cycler::Profile''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <cmath>
int main(){ using namespace slide; Cell_Bucket *b=new Cell_Bucket("b",16.0,0.5); Deep_ptr<StorageUnit> p(b); Cycler c(p,"x"); double Ah,t=0; 
 p->setCurrent(-1,false,false); const double q=c.testCapacity(Ah,t); std::printf("%g\\n",q); return q<9.5; }
'''
