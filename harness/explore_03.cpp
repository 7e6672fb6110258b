// Bounded native runs of dijkstra, flood, gjps (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void dijkstra_(int w) { explore<dijkstra, GRAPH | OPT | OPT_OCT | OPT_GRAPH | SLOW>(w); }
static void flood_(int w) { explore<flood, GRAPH | FLOOD>(w); }
static void gjps_(int w) { explore<gjps, COUNTED | JUMP>(w); }
VCB(S02, bounded_dijkstra) { dijkstra_(ROUTE); }
VCB(S02, bounded_flood) { flood_(ROUTE); }
VCB(S02, bounded_gjps) { gjps_(ROUTE); }
VCB(S03, bounded_dijkstra) { dijkstra_(COMPLETE); }
VCB(S03, bounded_flood) { flood_(COMPLETE); }
VCB(S03, bounded_gjps) { gjps_(COMPLETE); }
VCB(S04, bounded_dijkstra) { dijkstra_(SHORTEST); }
VCB(S05, bounded_dijkstra) { dijkstra_(MEMORY); }
VCB(S05, bounded_flood) { flood_(MEMORY); }
VCB(S05, bounded_gjps) { gjps_(MEMORY); }
VCB(N01, bounded_gjps) { gjps_(NODES); }
#endif
