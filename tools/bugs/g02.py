ID='g02-diffusion-memo'; PROP='G02'
NEEDS='two kinds of cells at the same temperature in one pack (or two workers inside the function at the same time)'
BREAKS='the diffusion constants of the cell that was advanced last are used for the next one: members share a remembered result'
EDITS=[('src/cells/Cell_SPM/Cell_SPM_diffusion.cpp','''  const auto ArrheniusCoeff = calcArrheniusCoeff();
  //!< Calculate the diffusion constant at the battery temperature using an Arrhenius relation
  const double Dpt = st.Dp() * std::exp(Dp_T * ArrheniusCoeff); //!< diffusion constant of the positive particle [m s-1]
  const double Dnt = st.Dn() * std::exp(Dn_T * ArrheniusCoeff); //!< diffusion constant of the negative particle [m s-1]

  return { Dpt, Dnt };
''','''  //!< the factors are the same as long as the temperature is
  static double Told{ 0 }, fp{ 0 }, fn{ 0 };
  if (st.T() != Told) {
    const auto ArrheniusCoeff = calcArrheniusCoeff();
    fp = std::exp(Dp_T * ArrheniusCoeff);
    fn = std::exp(Dn_T * ArrheniusCoeff);
    Told = st.T();
  }
  //!< Calculate the diffusion constant at the battery temperature using an Arrhenius relation
  const double Dpt = st.Dp() * fp; //!< diffusion constant of the positive particle [m s-1]
  const double Dnt = st.Dn() * fn; //!< diffusion constant of the negative particle [m s-1]

  return { Dpt, Dnt };
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <vector>
int main(){ using namespace slide; std::vector<double> alone, after;
 auto mk=[](bool other){ auto c=std::make_unique<Cell_SPM>(); if(other) c->Dp_T*=3, c->Dn_T*=3; c->setT(c->T()+5); c->setCurrent(1.0,false,false); return c; };
 Cell_SPM cold; cold.setT(cold.T()+1); cold.setCurrent(1.0,false,false);
 auto b=mk(true); cold.timeStep_CC(1,1); b->timeStep_CC(10,3); b->getStates(alone);
 auto a=mk(false), c=mk(true); cold.timeStep_CC(1,1); a->timeStep_CC(10,3); c->timeStep_CC(10,3); c->getStates(after);
 int d=0; for(size_t i=0;i<alone.size();i++) d += alone[i]!=after[i]; std::printf("%d states differ\\n", d); return d!=0; }
'''
