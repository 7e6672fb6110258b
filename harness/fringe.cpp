// Proofs of fringe, which goes through its nodes in rounds.  Its two lists are bags: which nodes they hold matters, and not
// in what order (the positions that its sorted insertion computes are not looked at).
// The cut is where the next element of a list is asked for; a round ends where there is none.
// Bounds of the rounds (see bounds() in search_stub.hpp): let v be a node that was not reached yet, and least(v) the least
// length that an estimate allows of a route through it.
//   * The bound of this round is at most least(v): so a node that is reached within it is reached at its distance.
//   * If a node p before v on a shortest route was expanded in this round, the bound of the next is at most least(v).
//   lemma_round: when all of the list was gone through and no node was reached in this round, the latter holds for every v that
//   was not reached, whether p was expanded or not.  For consider the first node z on a shortest route to v that was not reached:
//   the one before it was reached, hence is pending, and was expanded in this round (invariants).  So the next bound is at most
//   least(z) <= least(v), as an estimate does not drop by more than one in a step.
//   * The search knows whether a node was reached in this round (the bound stays the same then).
// That the rounds end is not proved here (bounded runs).
// vc-opts (S0\d)__prove_fringe\w* {"replace": {"solver_utils::rbacktrack(_noreverse)?<": "vch_route"}}
#include "search_stub.hpp"
#ifndef VC_NATIVE
namespace ss {
template <class node> struct bag : list {
  using value_type = node;
  struct iterator {
    using iterator_category = std::random_access_iterator_tag; using value_type = node; using difference_type = std::ptrdiff_t; using pointer = node*; using reference = node&;
    bag* o;
    node& operator*() const { return o->element(); }
    node* operator->() const { return &o->element(); }
    iterator& operator++() { if (G.list == o) o->leave(); return *this; }
    iterator& operator--() { return *this; }
    iterator& operator+=(std::ptrdiff_t) { return *this; }
    iterator operator+(std::ptrdiff_t) const { return *this; }
    std::ptrdiff_t operator-(const iterator&) const { return 0; }
    bool operator!=(const iterator&) const { return o->more(); }
    bool operator==(const iterator& x) const { return !(*this != x); }
  };
  using const_iterator = iterator;
  bag() {}
  bag(bag&& o) noexcept { take(o); }
  bag& operator=(bag&& o) noexcept { take(o); return *this; }
  void swap(bag& o) { bag t(std::move(o)); o.take(*this); take(t); }
  bool empty() const { return sz == 0; }
  size_t size() const { return sz; }
  size_t capacity() const { return vc_u64(); }
  void reserve(size_t) {}
  void clear() { a = e = p = stale = false; sz = 0; }
  iterator begin() {
    if (this == G.next) return { this };
    ck(~0, !stale & !G.next->stale, "what was gone through is removed from the list"); stale = true;
    G.list = this; G.ra = a; G.re = e; G.rp = p; G.done = G.grown = false; G.cur = nullptr; pending();
    return { this };
  }
  iterator end() { return { this }; }
  template <class... A> node& emplace_back(A&&... x) { auto* s = (node*)::operator new(sizeof(node)); new (s) node(std::forward<A>(x)...); added(*s); return *s; }
  void push_back(node&& x) { added(x); }
  template <class... A> iterator emplace(iterator i, A&&... x) { vc_check(i.o == this, "a node is added where its place was looked up"); emplace_back(std::forward<A>(x)...); return i; }
  iterator insert(iterator i, node&& x) { vc_check(i.o == this, "a node is added where its place was looked up"); added(x); return i; }
  // ---- the next element of the list that is gone through
  bool more() {
    vc_check(G.list == this, "the list that is gone through");
    int r = vc_cut(0, &G, G.stored, this, G.next);
    if (r == 1) { check_invariant(false); check_nodes(false); bounds(2, false, false); vc_cover("end of an iteration"); vc_end(); }
    if (r == 0) {
      check_invariant(false); bounds(0, false, false); vc_assume(G.rooted);
      havoc_sets(); havoc_list(*this); havoc_list(*G.next); stale = true; G.ra = vc_bool(); G.re = vc_bool(); G.rp = vc_bool(); G.done = vc_bool(); G.grown = vc_bool(); pending();
      G.popped = false; G.P = nullptr; G.stored = nullptr; G.kids = G.nclosed = G.nopen = 0; G.cut = true;
      assume_invariant(false); known();
    }
    G.cur = nullptr;
    const bool any = vc_bool();
    if (!any) vc_assume(!G.ra & !G.re & !((G.dist != nullptr) & G.rp));
    if (r == 0) { bounds(1, false, !any); }
    if (any) {
      ss::take(); vc_assume(((G.idx != G.a) | G.ra) & ((G.idx != G.goal) | G.re)); if (G.dist) vc_assume(((G.idx != G.p) | G.rp) & is_closed(G.idx));
      auto* s = (node*)::operator new(sizeof(node)); G.cur = s; G.popped = true;
      auto* w = (view*)s; w->m_index = G.idx; w->m_parent = G.par;
      if (G.best) { s->m_gScore = G.dist[G.idx]; s->m_fScore = G.dist[G.idx] + G.est[G.idx]; } else { s->m_gScore = vc_u32(); s->m_fScore = vc_u32(); }
      G.ra = G.ra & ((G.idx != G.a) | vc_bool()); G.re = G.re & ((G.idx != G.goal) | vc_bool()); G.rp = G.rp & ((G.idx != G.p) | vc_bool()); G.done = G.done | (G.idx == G.p); pending();
      vc_cover("an iteration");
    } else vc_cover("end of a round");
    return any;
  }
  void leave() {}
private:
  node& element() {
    if (G.list == this && G.cur != nullptr) return *(node*)G.cur;
    auto* s = (node*)::operator new(sizeof(node)); auto* w = (view*)s; w->m_index = vc_u32(); w->m_parent = nullptr; s->m_gScore = vc_u32(); s->m_fScore = vc_u32(); return *s;      // some element
  }
  void take(bag& o) { a = o.a; e = o.e; p = o.p; stale = o.stale; sz = o.sz; o.clear(); }
  static void scores(const node& x) {
    u32 i = ((const view&)x).m_index;
    ck(SHORTEST, (x.m_gScore == G.dist[i]) & (x.m_fScore == G.dist[i] + G.est[i]), "a node is stored with its distance from the root, and that plus its estimate");
  }
  void added(const node& x) {
    const auto& w = (const view&)x;
    vc_check(!G.rooted || this == G.next, "nodes are added to the list of the next round");
    ck(ROUTE, w.m_index < G.n, "only nodes of the maze are added"); vc_assume(w.m_index < G.n);
    if (!G.rooted) {
      ck(ROUTE, w.m_parent == nullptr, "the root has no parent");
      G.rooted = true; ck(ROUTE | COMPLETE | SHORTEST, w.m_index == G.start || w.m_index == G.end, "a search begins at an end of the route");
      G.root = w.m_index; G.goal = G.root == G.start ? G.end : G.start; ++G.nopen;
      if (G.best) { vc_assume(G.dist[G.root] == 0 && G.v != G.root); vc_assume((G.est[G.root] < (1u << 30)) & (G.est[G.v] < (1u << 30)) & (G.est[G.root] <= least()) & near(G.est[G.p], G.est[G.v])); scores(x); }
    }
    else if (w.m_index == G.idx && w.m_parent == G.par && G.cur) { if (G.best) scores(x); }      // once more
    else {
      ck(ROUTE, w.m_parent != nullptr && w.m_parent->m_index == G.idx && w.m_parent->m_parent == G.par, "a node is stored as it was taken");
      ck(ROUTE, w.m_index != G.root, "the root is not added again");
      ck(ROUTE, edge(G.idx, w.m_index), "a node is the neighbour of its parent");
      G.stored = (view*)w.m_parent; ++G.kids; ++G.nopen; G.grown = true;
      if (G.best) { if (vc_case(w.m_index == G.v)) { ck(SHORTEST, G.dist[G.v] == G.dist[G.idx] + 1, "a node is reached at its distance from the root"); scores(x); } }
    }
    ++sz; a = a | (w.m_index == G.a); e = e | (w.m_index == G.goal); p = p | (w.m_index == G.p);
    if (this == G.next) pending();
  }
};
template <bool REV, bool LAZY, bool GRAPH = false> void rounds(int what) {
  using namespace chdr::solvers;
  using P = params<REV, LAZY, GRAPH>; using node = typename fringe<P>::node;
  prepare<node>(what, false, what == SHORTEST); G.rounds = true;
  pool m;
  const P par{ {}, C{ G.start }, C{ G.end }, C{ G.n }, any_estimate, &m, &m, &m, what == SHORTEST ? 1u : vc_u32(), vc_u64(), vc_u64() };
  bag<node> open, next; closed_set closed; G.next = &next;
  finish(fringe<P>::solve_internal(open, next, closed, vc_u64(), par));
}
}
using namespace ss;
VC(S02, prove_fringe) { rounds<true, true>(ROUTE); }
VC(S02, prove_fringe_sorted) { rounds<false, false>(ROUTE); }
VC(S02, prove_fringe_graph) { rounds<true, false, true>(ROUTE); }
VC(S03, prove_fringe) { rounds<true, true>(COMPLETE); }
VC(S03, prove_fringe_sorted) { rounds<false, false>(COMPLETE); }
VC(S03, prove_fringe_graph) { rounds<true, false, true>(COMPLETE); }
VC(S04, prove_fringe) { rounds<true, true>(SHORTEST); }
VC(S04, prove_fringe_sorted) { rounds<false, false>(SHORTEST); }
#endif
