ID='f04-last-interval'; PROP='F04'
NEEDS='a table with uneven steps and a look-up in its last interval'
BREAKS='the last interval is looked up with the entry one after the end of the table'
EDITS=[('src/utility/interpolation.hpp','''      const auto it = std::lower_bound(xdat.begin(), xdat.begin() + nin, x);
      i_low = static_cast<int>(it - xdat.begin());
''','''      const auto it = std::lower_bound(xdat.begin(), xdat.begin() + (nin - 1), x);
      i_low = static_cast<int>(it - xdat.begin());
      if (i_low == nin - 1 && x - xdat[i_low - 1] > xdat[i_low] - x) i_low++; //!< the point is nearer to the right end
''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
#include <vector>
int main(){ using namespace slide; std::vector<double> x{0,1,3,4,9}, y{0,1,2,3,4}; 
 const double v=linInt(false,true,x,y,4,3.9,false); std::printf("%g\\n",v); return !(v>2.85 && v<2.95); }
'''
