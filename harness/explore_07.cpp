// Bounded native runs of gbest_first, gbfs (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void gbest_first_(int w) { explore<gbest_first, COUNTED | GRAPH>(w); }
static void gbfs_(int w) { explore<gbfs, COUNTED | GRAPH | OPT | OPT_OCT>(w); }
VCB(S02, bounded_gbest_first) { gbest_first_(ROUTE); }
VCB(S02, bounded_gbfs) { gbfs_(ROUTE); }
VCB(S03, bounded_gbest_first) { gbest_first_(COMPLETE); }
VCB(S03, bounded_gbfs) { gbfs_(COMPLETE); }
VCB(S04, bounded_gbfs) { gbfs_(SHORTEST); }
VCB(S05, bounded_gbest_first) { gbest_first_(MEMORY); }
VCB(S05, bounded_gbfs) { gbfs_(MEMORY); }
VCB(N01, bounded_gbfs) { gbfs_(NODES); }
VCB(N01, bounded_gbest_first) { gbest_first_(NODES); }
#endif
