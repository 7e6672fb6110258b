// Bounded native runs of eiddfs, iddfs (see explore.hpp).
#include "explore.hpp"
#ifdef VC_NATIVE
using namespace ex; using namespace chdr::solvers;
static void eiddfs_(int w) { explore<eiddfs, ID | OPT | OPT_OCT>(w); }
static void iddfs_(int w) { explore<iddfs, ID | OPT | OPT_OCT>(w); }
VCB(S02, bounded_eiddfs) { eiddfs_(ROUTE); }
VCB(S02, bounded_iddfs) { iddfs_(ROUTE); }
VCB(S03, bounded_eiddfs) { eiddfs_(COMPLETE); }
VCB(S03, bounded_iddfs) { iddfs_(COMPLETE); }
VCB(S04, bounded_eiddfs) { eiddfs_(SHORTEST); }
VCB(S04, bounded_iddfs) { iddfs_(SHORTEST); }
VCB(S05, bounded_eiddfs) { eiddfs_(MEMORY); }
VCB(S05, bounded_iddfs) { iddfs_(MEMORY); }
#endif
