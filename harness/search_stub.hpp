// Contracts of everything a search works with, for proving the searches themselves.
//
// The real `solve_internal` of a solver is instantiated with these types for its open set, its closed set, its maze and
// its memory.  Each of them answers as its contract allows and no more: the maze is an arbitrary directed graph of any
// size with any number of neighbours per node, the closed set an arbitrary set, the open set hands out its elements in
// any order (or, where FIFO is set, oldest first).  What the containers and the grid guarantee is proved elsewhere
// (C01-C05, G01, G02).
//
// The search loop is cut at the call that reads the next node, and the loop over its neighbours at the call that asks
// for the next one (vc_cut): there the invariant is checked, everything is havocked to an arbitrary state that
// satisfies it, one iteration is executed, and the invariant is checked again.
// A chain of nodes of any length is represented by its last link: a node that is pending has either no parent, and is
// then the root, or a parent, a stored node that was pending itself once, with an edge of the maze between them.
#pragma once
#include "vc.hpp"
#include "mem.hpp"
#include <chdr.hpp>
#include <array>
#ifndef VC_NATIVE
namespace ss {
using u32 = uint32_t; using u64 = uint64_t;
struct list { bool a = false, e = false, p = false, stale = false; u64 sz = 0; };
using C = chdr::coord<u32, 1>;
using view = chdr::solvers::unmanaged_node<u32>;     // the first fields of every node
using mview = chdr::solvers::managed_node<u32>;
enum { ROUTE = 1, COMPLETE = 2, SHORTEST = 4, COUNTS = 8 };
struct ghost {
  int what; bool managed, fifo; size_t node_size;
  u32 n, start, end, root, goal;
  uint8_t* closed;
  u32 a, b;                          // an arbitrary edge a -> b of the maze
  bool pa, pe;                       // a, the goal: pending in the open set
  uint64_t sz;                       // the number of elements of the open set
  bool rooted, cut, found;
  void* cur; u32 idx; const view* par; bool popped;                       // the node that was taken last
  view* P; u32 p_idx; const view* p_par; u32 p_count;                     // its parent
  view* stored; u32 kids, nclosed, nopen, expunged;                       // this iteration
  u32 of; bool expanding, seen;                                           // the node whose neighbours are asked for
  // breadth-first order: dist is the distance from the root, v an arbitrary node other than the root, p the one before it
  const u32* dist; u32 v, p; bool pp; u32 k;
  // best first: est is the estimate of every node, to the target it is measured to
  bool best, unsorted; const u32* est; u32 to; bool measured;
  const uint8_t* reach;
  // a search that keeps the best node found (mgstar, whose std::optional is specialised there); total: nodes stored so far
  // a search in rounds (fringe.cpp): pending are the rest of the list that is gone through, and another list
  bool rounds, ra, re, rp, done, grown; struct list* list; struct list* next;
  bool keeps, has; void* kept; const view* kept_par; u32 kept_g; u64 total;
};
inline ghost G;
inline void ck(int w, bool c, const char* m) { if (G.what & w) vc_check(c, m); }
inline bool edge(u32 x, u32 y) { return vc_rel(x, y) != 0; }
inline bool is_closed(u32 x) { return G.closed[x] != 0; }
inline bool near(u32 x, u32 y) { return (x <= y + 1) & (y <= x + 1); }
// ---- invariants: of the search (cut = false) and of the loop over neighbours ------------------------------------------
template <class F> inline void invariant(F f, bool inner) {
  f(COMPLETE, is_closed(G.root), "the root stays closed");
  f(COMPLETE, G.has | !is_closed(G.a) | G.pa | is_closed(G.b) | (G.a == G.goal) | (inner & (G.of == G.a)), "a node that was expanded has all its neighbours closed");
  f(COMPLETE, G.has | !is_closed(G.goal) | G.pe, "a closed goal is pending");
  f(COMPLETE, !G.has | is_closed(G.goal), "a goal that was found is closed");
  if (G.keeps) f(COMPLETE | SHORTEST, (!G.pe | is_closed(G.goal)) & !(G.has & G.pe), "a pending goal is closed and was not found");
  f(COMPLETE, G.nopen <= G.nclosed + (G.keeps & (G.idx == G.goal)), "a node is added at most once");
  if (inner & !G.rounds) f(COMPLETE, G.has | !(G.seen & (G.of == G.a)) | is_closed(G.b), "a neighbour that was looked at is closed");
  if (G.fifo) {
    f(SHORTEST, !(G.dist[G.v] <= G.k) | is_closed(G.v), "every node up to the current distance is closed");
    f(SHORTEST, !is_closed(G.v) | (G.dist[G.v] <= G.k + 1), "no node beyond the next distance is closed");
    f(SHORTEST, !is_closed(G.p) | G.pp | is_closed(G.v) | (G.p == G.goal) | (inner & (G.of == G.p)), "the successors of an expanded node are closed");
    if (inner) f(SHORTEST, !(G.seen & (G.of == G.p)) | is_closed(G.v), "a successor that was looked at is closed");
  }
  if (G.rounds & G.best) {
    f(SHORTEST, !G.pp | is_closed(G.p), "what is pending is closed");
    f(SHORTEST, !is_closed(G.p) | is_closed(G.v) | G.rp | G.done | G.grown, "what is pending is gone through in this round, or was reached in it");
  }
  if (G.best) {
    f(SHORTEST, is_closed(G.root), "the root stays closed");
    f(SHORTEST, !G.unsorted, "the open set is kept in order");
    f(SHORTEST, G.has | !is_closed(G.p) | G.pp | is_closed(G.v) | (G.p == G.goal) | (inner & (G.of == G.p)), "the successors of an expanded node are closed");
    f(SHORTEST, !G.has | is_closed(G.goal), "a goal that was found is closed");
    f(SHORTEST, G.has | !is_closed(G.goal) | G.pe, "a closed goal is pending");
    if (inner & !G.rounds) f(SHORTEST, G.has | !(G.seen & (G.of == G.p)) | is_closed(G.v), "a successor that was looked at is closed");
  }
}
inline void check_invariant(bool inner) { invariant([](int w, bool c, const char* m) { ck(w, c, m); }, inner); }
inline void assume_invariant(bool inner) { invariant([](int, bool c, const char*) { vc_assume(c); }, inner); }
inline void check_nodes(bool done) {
  if (G.P) ck(ROUTE | COUNTS, (G.P->m_index == G.p_idx) & (G.P->m_parent == G.p_par), "the parent is not changed");
  if (G.stored) ck(ROUTE, (G.stored->m_index == G.idx) & (G.stored->m_parent == G.par), "a stored node is not changed");
  if (G.managed) {
    if (G.P) ck(COUNTS, ((const mview*)G.P)->count() == G.p_count, "the successor count of the parent is kept");
    if (G.stored) ck(COUNTS, ((const mview*)G.stored)->count() == G.kids, "a stored node counts its successors");
    if (done) {
      if (G.kids > 0) ck(COUNTS, G.expunged == 0, "a node with successors is kept");
      else ck(COUNTS, G.expunged == 1, "a node without successors is given back");
    }
  }
}
inline void havoc_sets() { G.closed = (uint8_t*)vc_array(G.n, 1); G.pa = vc_bool(); G.pe = vc_bool(); G.pp = vc_bool(); G.sz = vc_u64(); vc_assume(G.sz < (1ull << 40)); G.total = vc_u64(); vc_assume(G.total < (1ull << 40)); }
// ---- a search in rounds: what is pending, and what the search's own bounds say ----------------------------------------
inline void pending() { G.pa = G.ra | G.next->a; G.pe = G.re | G.next->e; G.pp = G.rp | G.next->p; }
inline void havoc_list(list& l) { l.a = vc_bool(); l.e = vc_bool(); l.p = vc_bool(); l.sz = vc_u64(); vc_assume((l.sz < (1ull << 40)) & ((l.sz != 0) | !(l.a | l.e | ((G.dist != nullptr) & l.p)))); }
inline u64 least() { return (u64)G.dist[G.v] + G.est[G.v]; }      // of the routes through v
// v was not reached: the bound of this round is no more than least(), and neither is that of the next, once p was expanded.  When the
// whole list was gone through (`all`) and no node was reached in this round, the latter holds even if p was not reached (lemma_round).
inline void bounds(int mode, bool inner, bool all) {
  if (!G.rounds) return;
  if (G.what == SHORTEST) {
    bool c = is_closed(G.v);
    vc_locals(8 + mode, !c, ~0ull, least());
    vc_locals(16 + mode, !c & (all ? !G.grown : G.done & (!inner | (G.of != G.p) | G.seen)), ~0ull, least());
    vc_locals(24 + mode, inner & G.seen & (G.of == G.p) & !c, ~0ull, ~0ull);
    vc_locals(32 + mode, G.grown, ~0ull, ~0ull);
  } else if (G.what == COMPLETE) vc_locals(24 + mode, inner & G.seen & (G.of == G.a) & !is_closed(G.b), ~0ull, ~0ull);
}
inline void nonempty() { vc_assume((G.sz != 0) | !(G.pe | G.pa | ((G.dist != nullptr) & G.pp))); }      // what is pending is in it
inline void known() {        // the same facts hold for every node: also for the one before v
  if (G.has) return;
  if (G.fifo) { vc_assume((G.p != G.goal) | (G.pp == G.pe)); vc_assume(!(G.dist[G.p] <= G.k) | is_closed(G.p)); vc_assume(!is_closed(G.p) | (G.dist[G.p] <= G.k + 1)); }
  if (G.best) vc_assume((G.p != G.goal) | (G.pp == G.pe));
}
inline void take() {         // an arbitrary pending node
  G.idx = vc_u32(); vc_assume(G.idx < G.n);
  vc_assume((G.idx != G.a) | G.pa); vc_assume((G.idx != G.goal) | G.pe);
  if (G.fifo) {              // oldest first: it has the distance of the one taken before or one more, and then none of the former is left
    vc_assume((G.idx != G.p) | G.pp);
    vc_assume((G.dist[G.idx] == G.k) | (G.dist[G.idx] == G.k + 1));
    vc_assume((G.dist[G.idx] == G.k) | !G.pp | (G.dist[G.p] == G.k + 1));
    G.k = G.dist[G.idx];
  }
  if (G.best) {
    vc_assume((G.idx != G.p) | G.pp);
    vc_assume((G.dist[G.idx] < G.n) & (G.est[G.idx] < (1u << 30)));
  }
  if (vc_case(G.idx == G.root)) { G.par = nullptr; G.P = nullptr; }
  else {
    auto* P = (view*)::operator new(G.node_size);
    u32 pi = vc_u32(); vc_assume(pi < G.n); vc_assume(edge(pi, G.idx));
    new (P) view(pi, (const view*)::operator new(G.node_size));
    G.P = P; G.p_idx = pi; G.p_par = P->m_parent; G.par = P;
    if (G.managed) { G.p_count = vc_u32(); vc_assume(G.p_count > 0 && G.p_count < 1000000); ((mview*)P)->count(G.p_count); }
  }
}
// ---- the stubs -----------------------------------------------------------------------------------------------------
template <bool GRAPH> struct neighbours {
  u32 of;
  using entry = std::conditional_t<GRAPH, std::pair<u32, u32>, std::pair<bool, C>>;
  entry arr[2]; bool drawn = false;
  static entry draw(u32 of) {
    bool on = GRAPH || vc_bool(); u32 x = vc_u32();
    vc_assume(!on | ((x < G.n) & edge(of, x)));
    if (G.reach && vc_case(on)) vc_assume((G.reach[of] == 0) | (G.reach[x] != 0));
    if (G.fifo && vc_case(on)) vc_assume(G.dist[x] <= G.dist[of] + 1);       // what a distance is
    if (G.best && vc_case(on)) {            // a step costs one, leads from one side of a two-coloured maze to the other, and changes the estimate by at most one
      vc_assume((G.dist[x] <= G.dist[of] + 1) & ((G.dist[x] != G.dist[of]) | G.rounds) & near(G.est[x], G.est[of]));
    }
    if (G.dist) G.seen = G.seen | ((of == G.p) & (x == G.v) & on); else G.seen = G.seen | ((of == G.a) & (x == G.b) & on);
    if constexpr (GRAPH) return { x, vc_u32() }; else return { on, C{ x } };
  }
  static void complete(u32 of) { if (G.dist) vc_assume((of != G.p) | G.seen); else vc_assume((of != G.a) | G.seen); }
  struct iterator {
    u32 of; bool last;
    entry operator*() const { return draw(of); }
    iterator& operator++() { return *this; }
    iterator operator++(int) { return *this; }
    bool operator!=(const iterator&) const {
      int ph = G.kids > 0 ? 2 : 1;
      int r = vc_cut(ph, &G, G.stored, G.next);
      if (r == 1) { check_invariant(true); check_nodes(false); if (!G.rounds) vc_locals(2, true, G.sz + 1, G.total); bounds(2, true, false); vc_cover("end of a step to a neighbour"); vc_end(); }
      if (r == 0) {
        check_invariant(true); check_nodes(false); if (!G.rounds) vc_locals(0, true, G.sz + 1, G.total); bounds(0, true, false);
        bool cl[6] = { is_closed(G.root), is_closed(G.a), is_closed(G.b), is_closed(G.goal), G.dist && is_closed(G.p), G.dist && is_closed(G.v) };
        bool pa = G.pa, pe = G.pe, pp = G.pp;
        if (ph == 2) {
          havoc_sets(); if (G.rounds) { list o = *G.next; havoc_list(*G.next); vc_assume((!o.a | G.next->a) & (!o.e | G.next->e) & (!o.p | G.next->p)); pending(); } else nonempty();
          vc_assume((!cl[0] | is_closed(G.root)) & (!cl[1] | is_closed(G.a)) & (!cl[2] | is_closed(G.b)) & (!cl[3] | is_closed(G.goal)));
          if (G.dist) vc_assume((!cl[4] | is_closed(G.p)) & (!cl[5] | is_closed(G.v)));
          vc_assume((!pa | G.pa) & (!pe | G.pe) & (!pp | G.pp));
          G.kids = vc_u32(); vc_assume(G.kids > 0 && G.kids < 1000000);
          G.nclosed = vc_u32(); G.nopen = vc_u32(); vc_assume(G.nclosed < 1000000);
          if (G.managed && G.stored) ((mview*)G.stored)->count(G.kids);
          vc_cover("steps to neighbours");
        } else vc_cover("first steps to neighbours");
        G.seen = vc_bool();
        assume_invariant(true); known(); if (!G.rounds) vc_locals(1, true, G.sz + 1, G.total); bounds(1, true, false);
      }
      bool more = vc_bool();
      if (!more) complete(of);
      return more;
    }
    bool operator==(const iterator& o) const { return !(*this != o); }
  };
  iterator begin() const { return { of, false }; }
  iterator end() const { return { of, true }; }
  // by position: two neighbours only
  size_t size() const { return 2; }
  const entry& operator[](size_t i) { if (!drawn) { drawn = true; arr[0] = draw(of); arr[1] = draw(of); complete(of); } return arr[i]; }
};
template <bool GRAPH> struct maze {
  template <bool O = false> neighbours<GRAPH> get_neighbours(u32 i) const {
    ck(ROUTE | COMPLETE, i < G.n, "neighbours are asked of a node of the maze");
    G.of = i; G.seen = false; return { i, {}, false };
  }
  template <bool O = false> neighbours<GRAPH> get_neighbours(const C& c) const { return this->template get_neighbours<O>(c[0]); }
  size_t count() const { return G.n; }
  bool contains(u32 i) const { return i < G.n; }
};
struct closed_set {
  bool contains(size_t i) const { return i < G.n && G.closed[i] != 0; }
  void emplace(size_t i) { vc_check(i < G.n, "only nodes of the maze are closed"); if (G.closed[i] == 0) { ++G.nclosed; G.closed[i] = 1; } }
  void push(size_t i) { emplace(i); }
  void erase(size_t i) { vc_check(!G.keeps, "with memory enough nothing is dropped"); G.closed[i] = 0; }
};
// the best node found so far, where a search keeps one: an arbitrary node for the goal, with a stored parent
template <class N> inline auto keep(int) -> decltype(std::declval<N&>().m_gScore, std::declval<N&>().count(1), void()) {
  G.has = vc_bool(); G.kept = nullptr;
  if (!G.has) return;
  auto* x = (N*)::operator new(sizeof(N)); auto* w = (view*)x; G.kept = x;
  w->m_index = G.goal; w->m_parent = G.kept_par = (const view*)::operator new(G.node_size);
  G.kept_g = vc_u32(); x->m_gScore = G.kept_g; x->m_fScore = vc_u32(); x->count(1);
}
template <class N> inline void keep(long) {}
template <class node> struct open_set {
  static void added(const node& x) {
    const auto& w = (const view&)x;
    ++G.nopen; ++G.sz;
    ck(ROUTE, w.m_index < G.n, "only nodes of the maze are added"); vc_assume(w.m_index < G.n);
    if (w.m_parent == nullptr) {
      if (!G.rooted) {
        G.rooted = true; ck(ROUTE | COMPLETE | SHORTEST, w.m_index == G.start || w.m_index == G.end, "a search begins at an end of the route");
        G.root = w.m_index; G.goal = G.root == G.start ? G.end : G.start;
        if (G.dist) vc_assume(G.dist[G.root] == 0 && G.v != G.root);
        scores(x, 0);
      }
      else ck(ROUTE, w.m_index == G.root, "a node other than the root has a parent");
    }
    else {
      ck(ROUTE, w.m_parent->m_index == G.idx && w.m_parent->m_parent == G.par, "a node is stored as it was taken");
      ck(ROUTE, w.m_index != G.root, "the root is not added again");
      ck(ROUTE, edge(G.idx, w.m_index), "a node is the neighbour of its parent");
      if (G.managed) ck(COUNTS, G.stored == nullptr || G.stored == w.m_parent, "a node is stored once");
      G.stored = (view*)w.m_parent; ++G.kids;
      if (G.fifo) { ck(SHORTEST, (w.m_index != G.v) | (G.dist[G.v] == G.k + 1), "a node is reached at its distance from the root"); }
      if (G.best && !G.has) { if (vc_case(w.m_index == G.v)) ck(SHORTEST, G.dist[G.v] == G.dist[G.idx] + 1, "a node is reached at its distance from the root"); }
      if (G.best && !G.has) { if (vc_case(w.m_index == G.v)) scores(x, 0); }
    }
    G.pa = G.pa | (w.m_index == G.a); G.pe = G.pe | (w.m_index == G.goal); G.pp = G.pp | (w.m_index == G.p);
  }
  template <class... A> void emplace(A&&... a) { const node x(std::forward<A>(a)...); added(x); }
  template <class... A> void emplace_nosort(A&&... a) { if (G.sz != 0) G.unsorted = true; const node x(std::forward<A>(a)...); added(x); }
  void push(node&& x) { added(x); }
  bool empty() const { return G.sz == 0; }
  size_t size() const { return G.sz; }
  node& top() {
    vc_check(!empty(), "a node is taken from a non-empty open set");
    int r = vc_cut(0, &G, G.stored);
    if (r == 1) { check_invariant(false); check_nodes(true); vc_locals(2, true, G.sz, G.total); vc_cover("end of an iteration"); vc_end(); }
    if (r == 0) {
      check_invariant(false); vc_locals(0, true, G.sz, G.total); vc_assume(G.rooted);
      havoc_sets(); vc_assume(G.sz > 0); vc_locals(1, true, G.sz, G.total); G.cur = nullptr; G.popped = false; G.P = nullptr; G.stored = nullptr; G.kids = G.nclosed = G.nopen = G.expunged = 0; G.cut = true;
      if (G.keeps) keep<node>(0);
      if (G.fifo) { G.k = vc_u32(); vc_assume(G.k < G.n); }
      assume_invariant(false); known();
      take();
      vc_cover("an iteration");
    }
    if (G.cur == nullptr) {
      auto* s = (node*)::operator new(sizeof(node)); G.cur = s;
      auto* w = (view*)s; w->m_index = G.idx; w->m_parent = G.par;
      if (!G.best || !order(*s, 0)) rest(*s, 0);
    }
    return *(node*)G.cur;
  }
  node& front() { return top(); }
  void pop() {
    vc_check(G.cur != nullptr, "the node that was read is removed");
    G.cur = nullptr; --G.sz; G.popped = true;
    G.pa = G.pa & ((G.idx != G.a) | vc_bool()); G.pe = G.pe & ((G.idx != G.goal) | (!G.keeps & vc_bool())); G.pp = G.pp & ((G.idx != G.p) | (!G.best & vc_bool()));
    nonempty();
  }
  void wipe() {}
private:
  // what a node of a best-first search is ranked by: its distance from the root, and that plus its estimate
  template <class N> static auto scores(const N& x, int) -> decltype(x.m_gScore + x.m_fScore, void()) {
    if (!G.best) return;
    u32 i = ((const view&)x).m_index;
    vc_assume(G.est[i] < (1u << 30));
    ck(SHORTEST, x.m_gScore == G.dist[i], "a node is stored with its distance from the root");
    if (((const view&)x).m_parent) ck(SHORTEST, x.m_fScore == G.dist[i] + G.est[i], "a node is stored with its distance and estimate");
  }
  template <class N> static void scores(const N&, long) { vc_check(!G.best, "a node is ranked by its distance and estimate"); }
  // The first one under the order of the nodes.  By lemma_pending, as long as p was not expanded some node z is pending that is
  // no farther from the root than p, and neither is its distance plus estimate larger.
  // (The root is alone when it is taken, so what it is ranked by does not matter.)
  template <class N> static auto order(N& x, int) -> decltype(x.m_gScore + x.m_fScore, x < x, bool()) {
    if (G.has) return false;
    x.m_gScore = G.dist[G.idx]; x.m_fScore = G.dist[G.idx] + G.est[G.idx]; cnt(x, 0);
    auto* z = (N*)::operator new(sizeof(N)); auto* w = (view*)z; w->m_index = vc_u32(); w->m_parent = nullptr; cnt(*z, 0);
    u32 g = vc_u32(), h = vc_u32(); vc_assume((G.est[G.p] < (1u << 30)) & near(G.est[G.p], G.est[G.v]) & (h < (1u << 30)));
    vc_assume((g <= G.dist[G.p]) & (g + h <= G.dist[G.p] + G.est[G.p]));
    z->m_gScore = g; z->m_fScore = g + h;
    if (vc_case(!is_closed(G.p) | G.pp)) vc_assume(G.keeps ? !(*z < x) : !(x < *z));        // a heap hands out the last, an ordered set the first
    return true;
  }
  template <class N> static bool order(N&, long) { return false; }
  // the other fields of a node are arbitrary
  template <class N> static auto rest(N& x, int) -> decltype(x.m_gScore, void()) { x.m_gScore = vc_u32(); x.m_fScore = vc_u32(); cnt(x, 0); }
  template <class N> static auto rest(N& x, long) -> decltype(x.m_hScore, void()) { x.m_hScore = vc_u32(); cnt(x, 0); }
  template <class N> static void rest(N& x, ...) { cnt(x, 0); }
  template <class N> static auto cnt(N& x, int) -> decltype(x.count(0), void()) { x.count(0); }
  template <class N> static void cnt(N&, long) {}
};
// the open set of mgstar: an ordered set that hands out its first element
template <class node> struct ordered : open_set<node> {
  struct iterator { using iterator_category = std::bidirectional_iterator_tag; using value_type = node; using difference_type = std::ptrdiff_t; using pointer = node*; using reference = node&;
    ordered* o; node* x; iterator& operator--() { return *this; } iterator& operator++() { return *this; } node& operator*() const { return *x; } node* operator->() const { return x; } };
  struct handle { node x; node& value() { return x; } bool empty() const { return false; } explicit operator bool() const { return true; } };
  iterator begin() { return { this, &this->top() }; }
  iterator end() { return { this, nullptr }; }
  handle extract(iterator i) { vc_check(i.x == G.cur, "the node that was read is removed"); handle h{ node(*i.x) }; this->pop(); return h; }
  void erase(iterator i) { vc_check(i.x == G.cur, "the node that was read is removed"); this->pop(); }
  void clear() { vc_check(false, "with memory enough nothing is dropped"); }
};
// the open set of flood: indices; reach holds what can be reached from the root
struct index_set {
  mutable u32 slot;
  static void added(u32 x) {
    ++G.nopen; ++G.sz;
    ck(ROUTE, x < G.n, "only nodes of the maze are added"); vc_assume(x < G.n);
    if (!G.rooted) {
      G.rooted = true; ck(ROUTE | COMPLETE, x == G.start || x == G.end, "a search begins at an end of the route");
      G.root = x; G.goal = x == G.start ? G.end : G.start; vc_assume(G.reach[x] != 0);
    }
    else ck(ROUTE, G.reach[x] != 0, "only what can be reached is added");
    G.pa = G.pa | (x == G.a); G.pe = G.pe | (x == G.goal); ++G.kids;
  }
  void emplace(u32 x) { added(x); }
  void push(u32 x) { added(x); }
  bool empty() const { return G.sz == 0; }
  size_t size() const { return G.sz; }
  u32& front() {
    vc_check(!empty(), "a node is taken from a non-empty open set");
    int r = vc_cut(0, &G, this);
    if (r == 1) { check_invariant(false); vc_locals(2, true, G.sz, G.total); vc_cover("end of an iteration"); vc_end(); }
    if (r == 0) {
      check_invariant(false); vc_locals(0, true, G.sz, G.total); vc_assume(G.rooted);
      havoc_sets(); vc_assume(G.sz > 0); vc_locals(1, true, G.sz, G.total); G.cur = nullptr; G.popped = false; G.kids = G.nclosed = G.nopen = 0; G.cut = true;
      assume_invariant(false);
      G.idx = vc_u32(); vc_assume(G.idx < G.n); vc_assume((G.idx != G.a) | G.pa); vc_assume((G.idx != G.goal) | G.pe);
      vc_assume(G.reach[G.idx] != 0);
      vc_cover("an iteration");
    }
    if (G.cur == nullptr) { G.cur = &slot; slot = G.idx; }
    return slot;
  }
  u32& top() { return front(); }
  void pop() {
    vc_check(G.cur != nullptr, "the node that was read is removed");
    G.cur = nullptr; --G.sz; G.popped = true;
    G.pa = G.pa & ((G.idx != G.a) | vc_bool()); G.pe = G.pe & ((G.idx != G.goal) | vc_bool());
    nonempty();
  }
};
struct pool {
  void* allocate(size_t n, size_t = 16) { vc_check(n == G.node_size, "a node is stored in memory of its size"); ++G.total; return ::operator new(n); }
  void deallocate(void*, size_t, size_t = 16) {}
};
}
template <> class chdr::mazes::graph<uint32_t, uint32_t> : public ss::maze<true> {};
namespace ss {
inline u32 any_estimate(const C& x, const C& to) noexcept {
  if (!G.best) return vc_u32();
  ck(SHORTEST, !G.measured || to[0] == G.to, "all estimates are measured to the same node");
  G.measured = true; G.to = to[0];
  vc_check(x[0] < G.n, "a node of the maze is estimated"); return G.est[x[0]];
}
template <bool REV, bool LAZY, bool GRAPH = false> struct params {
  using weight_type = bool; using scalar_type = u32; using index_type = u32; using coord_type = C;
  using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::false_type; using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::false_type;
  std::conditional_t<GRAPH, chdr::mazes::graph<u32, u32>, ss::maze<false>> maze; C start, end, size; u32 (*h)(const C&, const C&) noexcept; pool* monotonic_pmr; pool* heterogeneous_pmr; pool* homogeneous_pmr; u32 weight; size_t capacity; size_t memory_limit;
};
template <class node> void prepare(int what, bool managed, bool best) {
  G = ghost{};
  G.what = what; G.managed = managed; G.node_size = sizeof(node); G.fifo = what == SHORTEST && !best; G.best = best;
  G.n = vc_u32(); vc_assume(G.n > 0 && G.n < (1u << 30));
  G.start = vc_u32(); G.end = vc_u32(); vc_assume(G.start < G.n && G.end < G.n && G.start != G.end);
  G.closed = (uint8_t*)vc_array(G.n, 1);
  G.a = vc_u32(); G.b = vc_u32(); vc_assume(G.a < G.n && G.b < G.n);
  vc_assume(edge(G.a, G.b));
  vc_assume(!is_closed(G.a) && !is_closed(G.start) && !is_closed(G.end));        // nothing is closed (as far as it is looked at)
  G.sz = 0; G.root = G.start; G.goal = G.end;
  if (G.fifo || G.best) {
    auto* d = (u32*)vc_array(G.n, 4); G.dist = d;
    G.v = vc_u32(); G.p = vc_u32(); vc_assume(G.v < G.n && G.p < G.n && edge(G.p, G.v) && d[G.p] < G.n && d[G.p] + 1u == d[G.v] && d[G.v] < G.n);
    vc_assume(!is_closed(G.v) && !is_closed(G.p));
    if (G.best) G.est = (const u32*)vc_array(G.n, 4);
  }
}
inline void finish(const std::vector<C>& r) {
  if (r.empty()) {
    vc_cover("no route");
    ck(ROUTE | COMPLETE | SHORTEST, !G.found, "a route that was found is returned");
    ck(COMPLETE, is_closed(G.root) & !is_closed(G.goal), "no route is reported only when the goal was not reached");
    ck(COMPLETE, !is_closed(G.a) | is_closed(G.b), "no route is reported only when all that can be reached was");
  } else { vc_cover("route"); ck(ROUTE, G.found && r.size() == 1, "the route returned is the one found"); }
}
template <template <class> class S, bool REV, bool LAZY, bool MANAGED, bool BEST = false, bool GRAPH = false, bool KEEPS = false> void search(int what) {
  using P = params<REV, LAZY, GRAPH>; using node = typename S<P>::node;
  prepare<node>(what, MANAGED, BEST); G.keeps = KEEPS;
  pool m;
  const P par{ {}, C{ G.start }, C{ G.end }, C{ G.n }, any_estimate, &m, &m, &m, BEST ? 1u : vc_u32(), vc_u64(), KEEPS ? ~0ull : vc_u64() };
  typename std::conditional<KEEPS, ordered<node>, open_set<node>>::type open; closed_set closed;
  finish(S<P>::solve_internal(open, closed, vc_u64(), par));
}
template <template <class> class S> void reachable(int what) {
  using P = params<true, true>;
  G = ghost{}; G.what = what;
  G.n = vc_u32(); vc_assume(G.n > 0 && G.n < (1u << 30));
  G.start = vc_u32(); G.end = vc_u32(); vc_assume(G.start < G.n && G.end < G.n && G.start != G.end);
  G.closed = (uint8_t*)vc_array(G.n, 1); G.reach = (const uint8_t*)vc_array(G.n, 1);
  G.a = vc_u32(); G.b = vc_u32(); vc_assume(G.a < G.n && G.b < G.n);
  vc_assume(edge(G.a, G.b));
  vc_assume(!is_closed(G.a) && !is_closed(G.start) && !is_closed(G.end));
  G.sz = 0; G.root = G.start; G.goal = G.end;
  pool m;
  const P par{ {}, C{ G.start }, C{ G.end }, C{ G.n }, any_estimate, &m, &m, &m, vc_u32(), vc_u64(), vc_u64() };
  index_set open; closed_set closed;
  if (S<P>::solve_internal(open, closed, vc_u64(), par)) { vc_cover("reached"); ck(ROUTE, G.reach[G.goal] != 0 && G.cut, "only a goal that can be reached is reported"); }
  else {
    vc_cover("not reached");
    ck(COMPLETE, is_closed(G.root) & !is_closed(G.goal), "no route is reported only when the goal was not reached");
    ck(COMPLETE, !is_closed(G.a) | is_closed(G.b), "no route is reported only when all that can be reached was");
  }
}
}
// The contract of the functions that turn a chain of nodes into a route: the chain must end at the goal.
extern "C" __attribute__((used, noinline)) void vch_route(std::vector<ss::C>* out, const ss::view* x, const ss::C* size) {
  using namespace ss;
  ck(ROUTE, x->m_index == G.goal, "the route ends at the goal");
  if (G.keeps) ck(ROUTE, G.has && x->m_parent == G.kept_par, "the route is that of the best node found");
  else ck(ROUTE, x->m_index == G.idx && x->m_parent == G.par && G.popped, "the route is that of the node taken");
  ck(ROUTE, (*size)[0] == G.n, "the route is converted with the size of the maze");
  check_nodes(false);
  G.found = true;
  new (out) std::vector<C>(1, C{ x->m_index });
}
// The contract of managed_node::expunge (proved in N01): gives back a node that has no successors.
extern "C" __attribute__((used, noinline)) void vch_expunge(ss::mview* x, ss::pool*) {
  using namespace ss;
  ck(COUNTS, x->m_index == G.idx && (const view*)x->m_parent == G.par && x->count() == 0, "the node given back is the one taken and has no successors");
  ++G.expunged;
}
#endif
