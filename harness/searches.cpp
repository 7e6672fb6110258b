// Proofs of the searches against the contracts in search_stub.hpp.
// vc-opts (S0\d|N01)__prove_\w+ {"replace": {"solver_utils::rbacktrack(_noreverse)?<": "vch_route", "managed_node<.*>::expunge<": "vch_expunge"}}
#include "search_stub.hpp"
#ifndef VC_NATIVE
using namespace ss; using namespace chdr::solvers;
VC(S02, prove_bfs) { search<bfs, true, true, false>(ROUTE); }
VC(S02, prove_bfs_forward) { search<bfs, false, true, false>(ROUTE); }
VC(S02, prove_gbfs) { search<gbfs, true, true, true>(ROUTE); }
VC(S02, prove_gbfs_forward) { search<gbfs, false, true, true>(ROUTE); }
VC(S02, prove_dfs) { search<dfs, true, true, false>(ROUTE); }
VC(S02, prove_gdfs) { search<gdfs, true, true, true>(ROUTE); }
VC(S02, prove_best_first) { search<best_first, true, true, false>(ROUTE); }
VC(S02, prove_best_first_sorted) { search<best_first, true, false, false>(ROUTE); }
VC(S02, prove_gbest_first) { search<gbest_first, true, true, true>(ROUTE); }
VC(S02, prove_gbest_first_sorted) { search<gbest_first, true, false, true>(ROUTE); }
VC(S02, prove_astar) { search<astar, true, true, false>(ROUTE); }
VC(S02, prove_astar_sorted) { search<astar, true, false, false>(ROUTE); }
VC(S02, prove_astar_forward) { search<astar, false, true, false>(ROUTE); }
VC(S02, prove_astar_forward_sorted) { search<astar, false, false, false>(ROUTE); }
VC(S02, prove_gstar) { search<gstar, true, true, true>(ROUTE); }
VC(S02, prove_gstar_sorted) { search<gstar, true, false, true>(ROUTE); }
VC(S02, prove_gstar_forward) { search<gstar, false, true, true>(ROUTE); }
VC(S02, prove_gstar_forward_sorted) { search<gstar, false, false, true>(ROUTE); }
VC(S03, prove_bfs) { search<bfs, true, true, false>(COMPLETE); }
VC(S03, prove_bfs_forward) { search<bfs, false, true, false>(COMPLETE); }
VC(S03, prove_gbfs) { search<gbfs, true, true, true>(COMPLETE); }
VC(S03, prove_gbfs_forward) { search<gbfs, false, true, true>(COMPLETE); }
VC(S03, prove_dfs) { search<dfs, true, true, false>(COMPLETE); }
VC(S03, prove_gdfs) { search<gdfs, true, true, true>(COMPLETE); }
VC(S03, prove_best_first) { search<best_first, true, true, false>(COMPLETE); }
VC(S03, prove_best_first_sorted) { search<best_first, true, false, false>(COMPLETE); }
VC(S03, prove_gbest_first) { search<gbest_first, true, true, true>(COMPLETE); }
VC(S03, prove_gbest_first_sorted) { search<gbest_first, true, false, true>(COMPLETE); }
VC(S03, prove_astar) { search<astar, true, true, false>(COMPLETE); }
VC(S03, prove_astar_sorted) { search<astar, true, false, false>(COMPLETE); }
VC(S03, prove_astar_forward) { search<astar, false, true, false>(COMPLETE); }
VC(S03, prove_astar_forward_sorted) { search<astar, false, false, false>(COMPLETE); }
VC(S03, prove_gstar) { search<gstar, true, true, true>(COMPLETE); }
VC(S03, prove_gstar_sorted) { search<gstar, true, false, true>(COMPLETE); }
VC(S03, prove_gstar_forward) { search<gstar, false, true, true>(COMPLETE); }
VC(S03, prove_gstar_forward_sorted) { search<gstar, false, false, true>(COMPLETE); }
VC(S04, prove_bfs) { search<bfs, true, true, false>(SHORTEST); }
VC(S04, prove_bfs_forward) { search<bfs, false, true, false>(SHORTEST); }
VC(S04, prove_gbfs) { search<gbfs, true, true, true>(SHORTEST); }
VC(S04, prove_gbfs_forward) { search<gbfs, false, true, true>(SHORTEST); }
VC(S04, prove_astar_sorted) { search<astar, true, false, false, true>(SHORTEST); }
VC(S04, prove_astar_forward_sorted) { search<astar, false, false, false, true>(SHORTEST); }
VC(S04, prove_gstar_sorted) { search<gstar, true, false, true, true>(SHORTEST); }
VC(S04, prove_gstar_forward_sorted) { search<gstar, false, false, true, true>(SHORTEST); }
// One step along a shortest route root = q0, q1, ..., p, used by open_set::order.  Claim for q: either every node up to q
// was expanded, or a node z is pending with g(z) <= dist(q) and g(z) + est(z) <= dist(q) + est(q).  It holds for the root, and
// passes from q to the next node r of the route: what was expanded has its successors closed (the invariant), what is
// closed is pending or was expanded, and a pending node has g = dist (the invariant).
VC(S04, lemma_pending) {
  u32 dq = vc_u32(), eq = vc_u32(), er = vc_u32(); vc_assume(dq < (1u << 30) && eq < (1u << 30) && er < (1u << 30) && near(eq, er));
  u32 dr = dq + 1;
  bool first = vc_bool();                                         // q is the root: it is closed, and pending or expanded
  bool all_q = vc_bool(), z_q = vc_bool(); u32 g = vc_u32(), h = vc_u32(); vc_assume(h < (1u << 30));
  bool pending_q = vc_bool(), expanded_q = vc_bool();
  if (first) { vc_assume(dq == 0 && (pending_q | expanded_q)); all_q = expanded_q; z_q = !expanded_q; if (z_q) { g = dq; h = eq; } }
  else vc_assume((all_q | z_q) & (!z_q | ((g <= dq) & (g + h <= dq + eq))));
  vc_check((all_q | z_q) & (!z_q | ((g <= dq) & (g + h <= dq + eq))), "the claim holds for q");
  bool closed_r = vc_bool(), pending_r = vc_bool(), expanded_r = vc_bool();
  vc_assume(!all_q | closed_r);
  vc_assume(!closed_r | pending_r | expanded_r);
  bool all_r, z_r; u32 g2 = 0, h2 = 0;
  if (z_q) { all_r = false; z_r = true; g2 = g; h2 = h; }
  else { all_r = expanded_r; z_r = !expanded_r & pending_r; g2 = dr; h2 = er; }
  vc_check((all_r | z_r) & (!z_r | ((g2 <= dr) & (g2 + h2 <= dr + er))), "the claim holds for the next node");
  vc_cover("the lemma");
}
// The same on graphs: neighbours come with weights, and are never blocked.
VC(S02, prove_bfs_graph) { search<bfs, true, true, false, false, true>(ROUTE); }
VC(S02, prove_gbfs_graph) { search<gbfs, true, true, true, false, true>(ROUTE); }
VC(S02, prove_dfs_graph) { search<dfs, true, true, false, false, true>(ROUTE); }
VC(S02, prove_gdfs_graph) { search<gdfs, true, true, true, false, true>(ROUTE); }
VC(S02, prove_best_first_graph) { search<best_first, true, true, false, false, true>(ROUTE); }
VC(S02, prove_gbest_first_graph) { search<gbest_first, true, false, true, false, true>(ROUTE); }
VC(S02, prove_astar_graph) { search<astar, true, true, false, false, true>(ROUTE); }
VC(S02, prove_astar_sorted_graph) { search<astar, true, false, false, false, true>(ROUTE); }
VC(S02, prove_gstar_graph) { search<gstar, true, true, true, false, true>(ROUTE); }
VC(S02, prove_gstar_sorted_graph) { search<gstar, true, false, true, false, true>(ROUTE); }
VC(S03, prove_bfs_graph) { search<bfs, true, true, false, false, true>(COMPLETE); }
VC(S03, prove_gbfs_graph) { search<gbfs, true, true, true, false, true>(COMPLETE); }
VC(S03, prove_dfs_graph) { search<dfs, true, true, false, false, true>(COMPLETE); }
VC(S03, prove_gdfs_graph) { search<gdfs, true, true, true, false, true>(COMPLETE); }
VC(S03, prove_best_first_graph) { search<best_first, true, true, false, false, true>(COMPLETE); }
VC(S03, prove_gbest_first_graph) { search<gbest_first, true, false, true, false, true>(COMPLETE); }
VC(S03, prove_astar_graph) { search<astar, true, true, false, false, true>(COMPLETE); }
VC(S03, prove_astar_sorted_graph) { search<astar, true, false, false, false, true>(COMPLETE); }
VC(S03, prove_gstar_graph) { search<gstar, true, true, true, false, true>(COMPLETE); }
VC(S03, prove_gstar_sorted_graph) { search<gstar, true, false, true, false, true>(COMPLETE); }
VC(N01, prove_gbfs) { search<gbfs, true, true, true>(COUNTS); }
VC(N01, prove_gbfs_forward) { search<gbfs, false, true, true>(COUNTS); }
VC(N01, prove_gdfs) { search<gdfs, true, true, true>(COUNTS); }
VC(N01, prove_gbest_first) { search<gbest_first, true, true, true>(COUNTS); }
VC(N01, prove_gbest_first_sorted) { search<gbest_first, true, false, true>(COUNTS); }
VC(N01, prove_gstar) { search<gstar, true, true, true>(COUNTS); }
VC(N01, prove_gstar_sorted) { search<gstar, true, false, true>(COUNTS); }
VC(N01, prove_gstar_forward) { search<gstar, false, true, true>(COUNTS); }
VC(N01, prove_gstar_forward_sorted) { search<gstar, false, false, true>(COUNTS); }
VC(S02, prove_flood) { reachable<flood>(ROUTE); }
VC(S03, prove_flood) { reachable<flood>(COMPLETE); }
#endif
