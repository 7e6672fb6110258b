// Bounded native runs of mgstar (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void mgstar_(int w) { explore<mgstar, GRAPH | OPT>(w); }
VCB(S02, bounded_mgstar) { mgstar_(ROUTE); }
VCB(S03, bounded_mgstar) { mgstar_(COMPLETE); }
VCB(S04, bounded_mgstar) { mgstar_(SHORTEST); }
VCB(S05, bounded_mgstar) { mgstar_(MEMORY); }
#endif
