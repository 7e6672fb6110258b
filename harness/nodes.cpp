// N01: the nodes that searches share (managed_node).
#include "vc.hpp"
#include "mem.hpp"
#include <chdr.hpp>
#include <set>
namespace nd {
using u32 = uint32_t;
template <class I, class D = void> using N = chdr::solvers::managed_node<I, D>;
struct derived final : N<u32, derived> { uint64_t extra[3]; derived(u32 i, derived* p) : N<u32, derived>(i, p) {} };
// ---- construction, copies and forget_one: no loops, so no cuts
template <class I> void make() {
  N<I> root(vcn<I>()); vc_check(root.m_parent == nullptr && root.count() == 0, "a node without a parent has no successors");
  const I ri = root.m_index; u32 c = vc_u32(); vc_assume(c != ~0u); root.count(c);
  vc_check(root.count() == c, "the counter is set");
  const I i = vcn<I>(); N<I> kid(i, &root);
  vc_check(kid.m_index == i && kid.m_parent == &root && kid.count() == 0, "a new node has its index, its parent and no successors");
  vc_check(root.count() == c + 1u && root.m_index == ri && root.m_parent == nullptr, "the parent counts one successor more and is not changed otherwise");
  N<I> moved(std::move(kid));
  vc_check(moved.m_index == i && moved.m_parent == &root && moved.count() == 0 && root.count() == c + 1u, "a node that is moved keeps its place");
  moved.count(vc_u32()); const u32 mc = moved.count();
  auto* f = moved.forget_one();
  vc_check(root.count() == c && (c == 0 ? f == &root : f == nullptr), "a node forgets its parent, and reports it when no other node points to it");
  vc_check(moved.m_parent == &root && moved.count() == mc && moved.m_index == i && root.m_index == ri, "nothing else is changed");
  vc_check(root.forget_one() == nullptr && root.count() == c, "a root has no parent to forget");
  N<I> none; vc_check(none.m_parent == nullptr && none.count() == 0, "a node that is not set has neither");
  vc_cover("made");
}
#ifndef VC_NATIVE
// ---- expunge: the loop is cut at the call that gives a node back; the chain above it has any length
template <class NODE, class BASE> struct chain {
  struct ghost { BASE* x; u32 xi, xc; BASE* head; u32 hc, hi; BASE* up; u32 freed; };
  static inline ghost G;
  static void next() {        // an arbitrary rest of the chain: nothing, or a node with one or more successors
    if (vc_case(vc_bool())) { G.head = nullptr; G.up = nullptr; return; }
    BASE* h = (BASE*)::operator new(sizeof(NODE)); new (h) BASE(vc_u32());
    G.head = h; G.hi = h->m_index; G.hc = vc_u32(); vc_assume(G.hc >= 1); h->count(G.hc);
    G.up = vc_case(vc_bool()) ? (BASE*)::operator new(sizeof(NODE)) : nullptr; h->m_parent = G.up;
  }
  struct pool {
    void deallocate(void* p, size_t n, size_t a) {
      vc_check(p == G.head && G.head != nullptr, "the parent of the node is given back, once");
      vc_check(n == sizeof(NODE) && a == alignof(NODE), "a node is given back with its size and alignment");
      int r = vc_cut(1, &G, G.x, G.head);
      if (r == 1 || r == 0) {
        vc_check(G.hc == 1, "only a node that nothing else points to is given back");
        vc_check(G.x->m_parent == G.up && G.x->m_index == G.xi && G.x->count() == G.xc, "the node continues with the parent of the one given back");
        if (r == 1) { vc_cover("a further node"); vc_end(); }
        next(); G.x->m_parent = G.head; vc_cover("a node");
      } else vc_check(false, "expunge gives nodes back in one loop");
    }
  };
  static void run() {
    BASE x(vc_u32()); u32 c = vc_u32(); x.count(c);
    G = ghost{}; G.x = &x; G.xi = x.m_index; G.xc = c; next(); x.m_parent = G.head;
    pool p; x.expunge(&p);
    if (G.head == nullptr) { vc_cover("up to the root"); vc_check(x.m_parent == nullptr, "the chain ends at the root"); }
    else {
      vc_cover("up to a node in use");
      vc_check(G.hc > 1, "a node that nothing else points to is given back");
      vc_check(x.m_parent == G.head && G.head->count() == G.hc - 1 && G.head->m_parent == G.up && G.head->m_index == G.hi, "a node in use counts one successor less and is not changed otherwise");
    }
    vc_check(x.m_index == G.xi && x.count() == c, "the node itself is not changed otherwise");
  }
};
#else
// random forests
template <class NODE, class BASE> void forest1() {
  struct rpool { std::set<void*> freed; void deallocate(void* p, size_t n, size_t a) { vc_check(n == sizeof(NODE) && a == alignof(NODE), "a node is given back with its size and alignment"); vc_check(freed.insert(p).second, "a node is given back once"); } };
  size_t n = 1 + vcrt::rng() % 7; std::vector<BASE*> all; std::vector<int> par;
  for (size_t i = 0; i < n; ++i) { int q = i == 0 ? -1 : int(vcrt::rng() % (i + 1)) - 1; if (vcrt::rng() % 3) q = int(i) - 1; auto* m = (BASE*)::operator new(sizeof(NODE)); new (m) BASE(u32(i), q < 0 ? nullptr : all[q]); all.push_back(m); par.push_back(q); }
  vc_ran(); BASE x(99, all.back()); BASE* lone = all.back(); rpool p; x.expunge(&p);
  int k = int(n) - 1; std::set<void*> want; std::vector<u32> cnt(n, 0); for (auto q : par) if (q >= 0) ++cnt[q]; ++cnt[n - 1];
  while (k >= 0) { if (--cnt[k]) break; want.insert(all[k]); k = par[k]; }
  vc_check(p.freed == want, "the nodes that nothing points to any more are given back"); (void)lone;
  for (size_t i = 0; i < n; ++i) if (!want.count(all[i])) vc_check(all[i]->count() == cnt[i] && all[i]->m_parent == (par[i] < 0 ? nullptr : all[par[i]]), "the counters of the others are right");
  vc_check(x.m_parent == (k < 0 ? nullptr : all[k]), "the node points to the first ancestor in use");
  for (auto* m : all) ::operator delete(m);
}
#endif
}
using namespace nd;
VC(N01, node_32) { make<u32>(); }
VC(N01, node_64) { make<uint64_t>(); }
#ifndef VC_NATIVE
VC(N01, expunge) { chain<N<u32>, N<u32>>::run(); }
VC(N01, expunge_derived) { chain<derived, N<u32, derived>>::run(); }
#else
VCN(N01, expunge_forest) { while (vc_more()) forest1<N<u32>, N<u32>>(); }
VCN(N01, expunge_forest_derived) { while (vc_more()) forest1<derived, N<u32, derived>>(); }
#endif
