// Proofs of the searches by iterative deepening against the contracts in id_stub.hpp.
// vc-opts (S0\d)__prove_\w+ {"replace": {"solver_utils::ibacktrack(_noreverse)?<": "vch_iroute"}}
#include "id_stub.hpp"
#ifndef VC_NATIVE
using namespace ids; using namespace chdr::solvers;
VC(S02, prove_iddfs) { search<iddfs, true, false>(ROUTE); }
VC(S02, prove_eiddfs) { search<eiddfs, true, false>(ROUTE); }
VC(S02, prove_idastar) { search<idastar, true, false>(ROUTE); }
VC(S02, prove_eidastar) { search<eidastar, true, true>(ROUTE); }
VC(S02, prove_eidastar_forward) { search<eidastar, false, true>(ROUTE); }
VC(S02, prove_idbest_first) { search<idbest_first, true, false>(ROUTE); }
VC(S02, prove_eidbest_first) { search<eidbest_first, true, true>(ROUTE); }
VC(S03, prove_iddfs) { search<iddfs, true, false>(COMPLETE); }
VC(S03, prove_eiddfs) { search<eiddfs, true, false>(COMPLETE); }
VC(S03, prove_idastar) { search<idastar, true, false>(COMPLETE); }
VC(S03, prove_eidastar) { search<eidastar, true, true>(COMPLETE); }
VC(S03, prove_eidastar_forward) { search<eidastar, false, true>(COMPLETE); }
VC(S03, prove_idbest_first) { search<idbest_first, true, false>(COMPLETE); }
VC(S03, prove_eidbest_first) { search<eidbest_first, true, true>(COMPLETE); }
VC(S04, prove_iddfs) { search<iddfs, true, false>(SHORTEST); }
VC(S04, prove_eiddfs) { search<eiddfs, true, false>(SHORTEST); }
VC(S04, prove_idastar) { search<idastar, true, false>(SHORTEST); }
#endif
