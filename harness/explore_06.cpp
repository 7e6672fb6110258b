// Bounded native runs of fringe, jps (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void fringe_(int w) { explore<fringe, GRAPH | OPT>(w); }
static void jps_(int w) { explore<jps, JUMP>(w); }
VCB(S02, bounded_fringe) { fringe_(ROUTE); }
VCB(S02, bounded_jps) { jps_(ROUTE); }
VCB(S03, bounded_fringe) { fringe_(COMPLETE); }
VCB(S03, bounded_jps) { jps_(COMPLETE); }
VCB(S04, bounded_fringe) { fringe_(SHORTEST); }
VCB(S05, bounded_fringe) { fringe_(MEMORY); }
VCB(S05, bounded_jps) { jps_(MEMORY); }
#endif
