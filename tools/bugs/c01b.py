ID='c01-spm-states-counters'; PROP='C01'
NEEDS='a refused state vector whose cumulative counters differ from those of the cell'
BREAKS='time and throughput of the refused state vector stay in the cell'
EDITS=[('src/cells/Cell_SPM/Cell_SPM.cpp','''    st = st_old; //!< Restore states here.
    Vcell_valid''','''    std::copy_n(st_old.begin(), st.size() - 3, st.begin()); //!< Restore states here.
    Vcell_valid''')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; Cell_SPM c; std::vector<double> s0, s, s1; c.getStates(s0); s=s0; for(auto&x:s) x+=1e6;
 std::span<double> sp{s}; auto r=c.setStates(sp,true,false); c.getStates(s1);
 std::printf("%d\\n",(int)r); return isStatusBad(r) && s1!=s0; }
'''
