ID='c08-ecm-energy-discharge-voltage'; PROP='C08'
NEEDS='several sub-steps in one call while the voltage changes'
BREAKS='the energy throughput of every sub-step after the first uses the voltage before the call'
EDITS=[('src/cells/Cell_ECM/Cell_ECM.hpp','''  const auto dth = dt / 3600.0;
  //!< take the specified number of time steps''','''  const auto dth = dt / 3600.0;
  double v{};
  //!< take the specified number of time steps'''),('src/cells/Cell_ECM/Cell_ECM.hpp','''      st.Wh() += std::abs(dAh * V());
''','''      if (t % 2 == 0) v = V(); //!< the voltage hardly changes from one step to the next
      st.Wh() += std::abs(dAh * v);
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <cmath>
int main(){ using namespace slide; Cell_ECM<1> a, b; a.setCurrent(16, false); b.setCurrent(16, false);
 a.timeStep_CC(60, 10); for (int i = 0; i < 10; i++) b.timeStep_CC(60, 1);
 const double x = a.getThroughputs().Wh(), y = b.getThroughputs().Wh(); std::printf("%.12g %.12g\\n", x, y); return std::abs(x - y) > 1e-9; }
'''
