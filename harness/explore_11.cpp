// Bounded native runs of osmastar, smastar (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void osmastar_(int w) { explore<osmastar, OPT | GRAPH>(w); }
static void smastar_(int w) { explore<smastar, OPT | GRAPH>(w); }
VCB(S02, bounded_osmastar) { osmastar_(ROUTE); }
VCB(S02, bounded_smastar) { smastar_(ROUTE); }
VCB(S03, bounded_osmastar) { osmastar_(COMPLETE); }
VCB(S03, bounded_smastar) { smastar_(COMPLETE); }
VCB(S04, bounded_osmastar) { osmastar_(SHORTEST); }
VCB(S04, bounded_smastar) { smastar_(SHORTEST); }
VCB(S05, bounded_osmastar) { osmastar_(MEMORY); }
VCB(S05, bounded_smastar) { smastar_(MEMORY); }
#endif
