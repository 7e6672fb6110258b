// Bounded native runs of bfs, dfs (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void bfs_(int w) { explore<bfs, GRAPH | OPT | OPT_OCT>(w); }
static void dfs_(int w) { explore<dfs, GRAPH>(w); }
VCB(S02, bounded_bfs) { bfs_(ROUTE); }
VCB(S02, bounded_dfs) { dfs_(ROUTE); }
VCB(S03, bounded_bfs) { bfs_(COMPLETE); }
VCB(S03, bounded_dfs) { dfs_(COMPLETE); }
VCB(S04, bounded_bfs) { bfs_(SHORTEST); }
VCB(S05, bounded_bfs) { bfs_(MEMORY); }
VCB(S05, bounded_dfs) { dfs_(MEMORY); }
#endif
