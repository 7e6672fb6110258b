// Bounded native runs of astar, best_first (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void astar_(int w) { explore<astar, GRAPH | OPT_SORTED>(w); }
static void best_first_(int w) { explore<best_first, GRAPH>(w); }
VCB(S02, bounded_astar) { astar_(ROUTE); }
VCB(S02, bounded_best_first) { best_first_(ROUTE); }
VCB(S03, bounded_astar) { astar_(COMPLETE); }
VCB(S03, bounded_best_first) { best_first_(COMPLETE); }
VCB(S04, bounded_astar) { astar_(SHORTEST); }
VCB(S05, bounded_astar) { astar_(MEMORY); }
VCB(S05, bounded_best_first) { best_first_(MEMORY); }
#endif
