// Bounded native runs of eidastar, eidbest_first (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void eidastar_(int w) { explore<eidastar, ID | OPT | OPT_OCT>(w); }
static void eidbest_first_(int w) { explore<eidbest_first, ID>(w); }
VCB(S02, bounded_eidastar) { eidastar_(ROUTE); }
VCB(S02, bounded_eidbest_first) { eidbest_first_(ROUTE); }
VCB(S03, bounded_eidastar) { eidastar_(COMPLETE); }
VCB(S03, bounded_eidbest_first) { eidbest_first_(COMPLETE); }
VCB(S04, bounded_eidastar) { eidastar_(SHORTEST); }
VCB(S05, bounded_eidastar) { eidastar_(MEMORY); }
VCB(S05, bounded_eidbest_first) { eidbest_first_(MEMORY); }
#endif
