// Bounded native runs of gdfs, gstar (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void gdfs_(int w) { explore<gdfs, COUNTED | GRAPH>(w); }
static void gstar_(int w) { explore<gstar, COUNTED | GRAPH | OPT_SORTED>(w); }
VCB(S02, bounded_gdfs) { gdfs_(ROUTE); }
VCB(S02, bounded_gstar) { gstar_(ROUTE); }
VCB(S03, bounded_gdfs) { gdfs_(COMPLETE); }
VCB(S03, bounded_gstar) { gstar_(COMPLETE); }
VCB(S04, bounded_gstar) { gstar_(SHORTEST); }
VCB(S05, bounded_gdfs) { gdfs_(MEMORY); }
VCB(S05, bounded_gstar) { gstar_(MEMORY); }
VCB(N01, bounded_gdfs) { gdfs_(NODES); }
VCB(N01, bounded_gstar) { gstar_(NODES); }
#endif
