ID='g04-warning-safety'; PROP='G04'
NEEDS='a status that stands for a violated safety limit'
BREAKS='a voltage beyond the safety limit counts as safe'
EDITS=[('src/types/Status.hpp','bool inline isStatusSafe(Status status) { return status < Status::NotSafe; }','bool inline isStatusSafe(Status status) { return status <= Status::NotSafe; }')]
DEMO='''
#include "slide.hpp"
#include <cstdio>
int main(){ using namespace slide; return isStatusSafe(Status::VMINsafety_violation) || isStatusSafe(Status::VMAXsafety_violation); }
'''
