// Bounded native runs of idastar, idbest_first (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void idastar_(int w) { explore<idastar, ID | GRAPH | OPT | OPT_OCT>(w); }
static void idbest_first_(int w) { explore<idbest_first, ID | GRAPH>(w); }
VCB(S02, bounded_idastar) { idastar_(ROUTE); }
VCB(S02, bounded_idbest_first) { idbest_first_(ROUTE); }
VCB(S03, bounded_idastar) { idastar_(COMPLETE); }
VCB(S03, bounded_idbest_first) { idbest_first_(COMPLETE); }
VCB(S04, bounded_idastar) { idastar_(SHORTEST); }
VCB(S05, bounded_idastar) { idastar_(MEMORY); }
VCB(S05, bounded_idbest_first) { idbest_first_(MEMORY); }
#endif
