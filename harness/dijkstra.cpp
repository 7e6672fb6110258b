// Proofs of dijkstra: its loops are cut as in search_stub.hpp; the contracts are of the open set, the neighbours and the
// map in which it keeps what it expanded (std::pmr::unordered_map: an arbitrary map whose entries stay where they are).
// Invariants.  Of an entry: the root has no parent and distance zero, any other has a parent that is an entry, joined to it
// by an edge, from which its distance is at least the weight of the edge away.  Of a pending node: the same.  Distances only
// decrease, so both survive what happens to other entries; and as weights are positive a chain of parents ends at the root.
// vc-opts S0\d__prove_dijkstra\w* {"bytewise": "std::array<unsigned int, \\d+ul>", "chain": {"fn": "solvers::dijkstra<", "es": 4}, "replace": {"chdr::utils::to_nd<": "vch_coordinate_dj"}}
#include "vc.hpp"
#include "mem.hpp"
#include <chdr.hpp>
#include <unordered_map>
#ifndef VC_NATIVE
namespace dj {
using u32 = uint32_t; using u64 = uint64_t;
using C = chdr::coord<u32, 1>;
using view = chdr::solvers::unmanaged_node<u32>;
enum { ROUTE = 1, COMPLETE = 2, SHORTEST = 4 };
struct pool { void* allocate(size_t n, size_t = 16) { return ::operator new(n); } void deallocate(void*, size_t, size_t = 16) {} };
struct ghost {
  int what; bool graph;
  u32 n, start, end, root, goal;
  uint8_t* in;                       // what was expanded
  u32 a, b; bool pb;                 // an arbitrary edge; b is pending
  u64 sz; bool rooted, cut, popped, unsorted, done, over;
  void* cur; u32 idx, g; const view* par;          // the node taken last
  void* here; u32 here_g; const view* here_par;    // its entry
  void* child; u32 ck, cg; const view* cpar;       // the entry that was looked up last
  bool expanding, seen, steps;
  const u32* dist; u32 v, p; bool pv;              // distances from the root; an edge p -> v that ends a shortest route; v is pending at its distance
  u64 len; void* first;
};
inline ghost G;
inline void ck(int w, bool c, const char* m) { if (G.what & w) vc_check(c, m); }
inline bool edge(u32 x, u32 y) { return vc_rel(x, y) != 0; }
inline u32 weight(u32 x, u32 y) { if (!G.graph) return 1; u32 w = vc_fn(x + 1, y); vc_assume((w > 0) & (w < (1u << 28))); return w; }
inline bool is_in(u32 x) { return G.in[x] != 0; }
// what is known of distances along an edge
inline void along(u32 x, u32 y) { if (G.dist) vc_assume((G.dist[x] < (1u << 30)) & (G.dist[y] <= G.dist[x] + weight(x, y))); }
template <class F> inline void invariant(F f, bool inner) {
  f(COMPLETE, is_in(G.root), "the root was expanded");
  f(COMPLETE, !is_in(G.a) | is_in(G.b) | G.pb | (inner & (G.idx == G.a)), "a node that was expanded has its neighbours expanded or pending");
  if (inner) f(COMPLETE, !(G.seen & (G.idx == G.a)) | is_in(G.b) | G.pb, "a neighbour that was looked at is expanded or pending");
  if (G.dist) {
    f(SHORTEST, is_in(G.root), "the root was expanded");
    f(SHORTEST, !G.unsorted, "the open set is kept in order");
    f(SHORTEST, !is_in(G.p) | is_in(G.v) | G.pv | (inner & (G.idx == G.p)), "a node that was expanded has its successors expanded or pending");
    if (inner) f(SHORTEST, !(G.seen & (G.idx == G.p)) | is_in(G.v) | G.pv, "a successor that was looked at is expanded or pending");
  }
}
inline void check_invariant(bool inner) { invariant([](int w, bool c, const char* m) { ck(w, c, m); }, inner); }
inline void assume_invariant(bool inner) { invariant([](int, bool c, const char*) { vc_assume(c); }, inner); }
inline void havoc_sets() { G.in = (uint8_t*)vc_array(G.n, 1); G.pb = vc_bool(); G.pv = vc_bool(); G.sz = vc_u64(); vc_assume(G.sz < (1ull << 40)); }
inline void nonempty() { vc_assume((G.sz != 0) | !(G.pb | G.pv)); }
// an arbitrary entry of the map with the key k
template <class V> inline std::pair<const u32, V>* entry(u32 k) {
  using E = std::pair<const u32, V>;
  vc_assume(is_in(k));
  auto* x = (E*)::operator new(sizeof(E));
  u32 g = vc_u32(); vc_assume(g < (1u << 30));
  if (vc_case(k == G.root)) { vc_assume(g == 0); new (x) E(k, V(k, g, nullptr)); }
  else {
    u32 pi = vc_u32(); vc_assume(pi < G.n); vc_assume(edge(pi, k)); vc_assume(is_in(pi));
    E* P;
    if (G.here && vc_case(pi == G.idx)) P = (E*)G.here;
    else { P = (E*)::operator new(sizeof(E)); u32 pg = vc_u32(); vc_assume(pg < (1u << 30)); new (P) E(pi, V(pi, pg, nullptr)); if (G.dist) vc_assume(pg == G.dist[pi]); along(pi, k); }
    vc_assume(P->second.m_gScore + weight(pi, k) <= g);
    new (x) E(k, V(k, g, &P->second));
  }
  if (G.dist) vc_assume(g == G.dist[k]);
  return x;
}
// what is looked up was changed as the invariant allows
template <class V> inline void settle() {
  using E = std::pair<const u32, V>;
  if (G.child) {
    const V& x = ((E*)G.child)->second; const auto& w = (const view&)x; const auto* h = (E*)G.here;
    bool same = (w.m_parent == G.cpar) & (x.m_gScore == G.cg);
    bool relaxed = false;
    if (h) relaxed = (w.m_parent == (const view*)&h->second) & edge(G.idx, G.ck) & (x.m_gScore < G.cg) & (x.m_gScore >= h->second.m_gScore + weight(G.idx, G.ck));
    ck(ROUTE, w.m_index == G.ck, "an entry keeps its index");
    ck(ROUTE, same | relaxed, "an entry changes only to a shorter way through the node expanded");
    if (G.dist) ck(SHORTEST, x.m_gScore == G.dist[G.ck], "an entry keeps its distance");
    G.child = nullptr;
  }
  if (G.here) {
    const V& x = ((E*)G.here)->second; const auto& w = (const view&)x;
    ck(ROUTE | COMPLETE | SHORTEST, (w.m_index == G.idx) & (w.m_parent == G.here_par) & (x.m_gScore == G.here_g), "the entry of the node expanded is not changed");
  }
}
// ---- the map ---------------------------------------------------------------------------------------------------------
template <class V> struct map {
  using E = std::pair<const u32, V>;
  using value_type = E; using key_type = u32; using mapped_type = V; using size_type = size_t; using const_iterator = const E*; using iterator = E*;
  map() {} explicit map(std::pmr::memory_resource*) {} map(size_t, std::pmr::memory_resource*) {}
  map(const map&) = delete;
  void reserve(size_t) {}
  iterator end() { return nullptr; } const_iterator end() const { return nullptr; }
  static E* look(u32 k) {
    ck(ROUTE, k < G.n, "only nodes of the maze are looked up"); vc_assume(k < G.n);
    if (!vc_case(is_in(k))) return nullptr;
    if (G.here && vc_case(k == G.idx)) return (E*)G.here;
    if (G.child) { if (vc_case(k == G.ck)) return (E*)G.child; settle<V>(); }
    if (G.over && vc_case(k == G.goal)) return last(k);
    auto* x = entry<V>(k);
    G.child = x; G.ck = k; G.cg = x->second.m_gScore; G.cpar = ((const view&)x->second).m_parent;
    return x;
  }
  // when the search is over: the entry of the goal begins a chain of parents of any length
  static E* last(u32 k) {
    auto* f = (V*)::operator new(sizeof(V)); auto* w = (view*)f;
    G.len = vc_u64(); vc_assume(G.len < G.n);
    w->m_index = vc_chain_index(0); w->m_parent = vc_case(G.len == 0) ? nullptr : (view*)::operator new(sizeof(V));
    vc_chain(f, G.len, (char*)&w->m_index - (char*)f, (char*)&w->m_parent - (char*)f);
    auto* x = (E*)::operator new(sizeof(E)); u32 g = vc_u32(); if (G.dist) vc_assume(g == G.dist[k]);
    new (x) E(k, V(k, g, w)); G.done = true;
    return x;
  }
  iterator find(u32 k) { return look(k); } const_iterator find(u32 k) const { return read(k); }
  // a map that is only read is read for the route
  static E* read(u32 k) { if (G.over || k != G.goal) return look(k); return vc_case(is_in(k)) ? last(k) : nullptr; }
  bool contains(u32 k) const { return look(k) != nullptr; } size_t count(u32 k) const { return look(k) != nullptr; }
  V& at(u32 k) { auto* x = look(k); vc_check(x, "only what is there is read"); return x->second; }
  const V& at(u32 k) const { auto* x = read(k); vc_check(x, "only what is there is read"); return x->second; }
  template <class... A> std::pair<iterator, bool> emplace(u32 k, A&&... a) {
    if (auto* x = look(k)) { mine(x, k); return { x, false }; }
    auto* x = (E*)::operator new(sizeof(E)); new (x) E(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...));
    const auto& w = (const view&)x->second; const u32 g = x->second.m_gScore;
    ck(ROUTE | COMPLETE | SHORTEST, G.popped & (k == G.idx) & !G.here, "the node taken is expanded");
    ck(ROUTE, (w.m_index == k) & (w.m_parent == G.par) & (g >= G.g), "a node is kept as it was taken");
    if (G.dist) ck(SHORTEST, (k != G.v) | (g == G.dist[k]), "a node is expanded at its distance from the root");
    G.in[k] = 1; mine(x, k);
    if (G.dist) vc_assume(g == G.dist[k]);
    vc_assume(g < (1u << 30));
    return { x, true };
  }
  template <class... A> std::pair<iterator, bool> try_emplace(u32 k, A&&... a) { return emplace(k, std::forward<A>(a)...); }
  std::pair<iterator, bool> insert(E&& x) { return emplace(x.first, std::move(x.second)); }
private:
  static void mine(E* x, u32 k) {
    if (G.popped && !G.here && vc_case(k == G.idx)) {
      if (G.child == x) { settle<V>(); G.child = nullptr; }
      G.here = x; G.here_g = x->second.m_gScore; G.here_par = ((const view&)x->second).m_parent;
    }
  }
};
// ---- the open set ----------------------------------------------------------------------------------------------------
template <class node> struct open_set {
  using E = std::pair<const u32, node>;
  static void added(const node& x) {
    const auto& w = (const view&)x; const u32 k = w.m_index;
    ++G.sz; G.over = false;
    ck(ROUTE, k < G.n, "only nodes of the maze are added"); vc_assume(k < G.n);
    if (!G.rooted) {
      G.rooted = true; ck(ROUTE | COMPLETE | SHORTEST, (k == G.start) | (k == G.end), "a search begins at an end of the route");
      ck(ROUTE | SHORTEST, (w.m_parent == nullptr) & (x.m_gScore == 0), "the root has no parent and no distance");
      G.root = k; G.goal = k == G.start ? G.end : G.start;
      if (G.dist) vc_assume((G.dist[k] == 0) & (G.v != k));
    }
    else {
      ck(ROUTE | COMPLETE, k != G.root, "the root is not added again");
      const auto* h = (E*)G.here;
      ck(ROUTE | COMPLETE | SHORTEST, h != nullptr, "nodes are added while one is expanded");
      if (h == nullptr) return;
      ck(ROUTE, (w.m_parent == (const view*)&h->second) & edge(G.idx, k), "a node is the neighbour of its parent");
      ck(ROUTE | SHORTEST, x.m_gScore >= h->second.m_gScore + weight(G.idx, k), "a node is no nearer than by way of its parent");
      if (G.what & COMPLETE) {
        bool better = false;
        if (G.child) { const node& c = ((E*)G.child)->second; better = (G.ck == k) & (c.m_gScore < G.cg); }
        vc_check(!is_in(k) | better, "a node is added again only when it got nearer");
      }
    }
    G.pb = G.pb | (k == G.b);
    if (G.dist) G.pv = G.pv | ((k == G.v) & (x.m_gScore == G.dist[G.v]));
  }
  template <class... A> void emplace(A&&... a) { const node x(std::forward<A>(a)...); added(x); }
  template <class... A> void emplace_nosort(A&&... a) { if (G.sz != 0) G.unsorted = true; const node x(std::forward<A>(a)...); added(x); }
  void push(const node& x) { added(x); }
  bool empty() const { if (G.sz != 0) return false; settle<node>(); G.here = nullptr; G.over = true; return true; }
  size_t size() const { return G.sz; }
  node& top() {
    vc_check(!empty(), "a node is taken from a non-empty open set");
    if (G.popped) settle<node>();
    int r = vc_cut(0, &G, G.here);
    if (r == 1) { check_invariant(false); vc_locals(2, true, G.sz, ~0ull); vc_cover("end of an iteration"); vc_end(); }
    if (r == 0) {
      vc_locals(0, true, G.sz, ~0ull); vc_assume(G.rooted);
      bool first = vc_bool();        // the first iteration takes the root from an open set with nothing else, and nothing was expanded
      havoc_sets(); vc_assume(G.sz > 0); vc_locals(1, true, G.sz, ~0ull);
      G.cur = G.here = G.child = nullptr; G.popped = false; G.cut = true; G.seen = G.steps = false;
      if (first) { G.idx = G.root; G.sz = 1; G.pb = G.pv = false; vc_assume(!is_in(G.root) & !is_in(G.a) & !is_in(G.b) & !is_in(G.goal)); if (G.dist) vc_assume(!is_in(G.v) & !is_in(G.p)); G.unsorted = false; }
      else {
        assume_invariant(false);
        G.idx = vc_u32(); vc_assume((G.idx < G.n) & (G.idx != G.root)); vc_assume((G.idx != G.b) | G.pb);
      }
      G.g = vc_u32(); vc_assume(G.g < (1u << 30)); G.par = nullptr;
      if (first) vc_assume(G.g == 0);
      else {
        u32 pi = vc_u32(); vc_assume(pi < G.n); vc_assume(edge(pi, G.idx)); vc_assume(is_in(pi));
        auto* P = (E*)::operator new(sizeof(E)); u32 pg = vc_u32(); vc_assume(pg < (1u << 30)); new (P) E(pi, node(pi, pg, nullptr));
        if (G.dist) vc_assume(pg == G.dist[pi]);
        along(pi, G.idx); vc_assume(pg + weight(pi, G.idx) <= G.g); G.par = (const view*)&P->second;
      }
      vc_cover("an iteration");
      if (G.dist && !first) order();
    }
    if (G.cur == nullptr) { auto* s = (node*)::operator new(sizeof(node)); G.cur = s; new (s) node(G.idx, G.g, G.par); }
    return *(node*)G.cur;
  }
  node& front() { return top(); }
  void pop() {
    vc_check(G.cur != nullptr, "the node that was read is removed");
    G.cur = nullptr; --G.sz; G.popped = true;
    G.pb = G.pb & ((G.idx != G.b) | vc_bool()); G.pv = G.pv & ((G.idx != G.v) | vc_bool());
    nonempty();
  }
  // the first under the order of the nodes: no farther than v, where that is pending at its distance, and by lemma_distance no farther
  // than some node that is pending, as long as p was not expanded, and is no farther than p
  static void order() {
    const node x(G.idx, G.g, G.par);
    if (vc_case(G.pv)) { const node z(G.v, G.dist[G.v], nullptr); vc_assume(!(x < z)); }
    if (vc_case(!is_in(G.p))) { u32 g = vc_u32(); vc_assume(g <= G.dist[G.p]); const node z(vc_u32(), g, nullptr); vc_assume(!(x < z)); }
  }
};
// ---- the maze --------------------------------------------------------------------------------------------------------
template <bool GRAPH> struct neighbours {
  u32 of;
  using entry = std::conditional_t<GRAPH, std::pair<u32, u32>, std::pair<bool, C>>;
  static entry draw(u32 of) {
    bool on = GRAPH || vc_bool(); u32 x = vc_u32();
    vc_assume(!on | ((x < G.n) & edge(of, x)));
    if (G.dist) { if (vc_case(on)) along(of, x); G.seen = G.seen | ((of == G.p) & (x == G.v) & on); }
    else G.seen = G.seen | ((of == G.a) & (x == G.b) & on);
    if constexpr (GRAPH) return { x, weight(of, x) }; else return { on, C{ x } };
  }
  struct iterator {
    u32 of; bool last;
    entry operator*() const { return draw(of); }
    iterator& operator++() { return *this; } iterator operator++(int) { return *this; }
    bool operator!=(const iterator&) const {
      S();
      vc_check(of == G.idx, "the neighbours of the node expanded");
      int r = vc_cut(1, &G);
      if (r == 1) { check_invariant(true); vc_locals(2, true, G.sz + 1, ~0ull); vc_cover("end of a step to a neighbour"); vc_end(); }
      if (r == 0) {
        check_invariant(true); vc_locals(0, true, G.sz + 1, ~0ull);
        bool pb = G.pb, pv = G.pv;
        G.pb = vc_bool(); G.pv = vc_bool(); G.sz = vc_u64(); vc_assume(G.sz < (1ull << 40)); nonempty();
        vc_assume((!pb | G.pb) & (!pv | G.pv));
        G.seen = vc_bool(); assume_invariant(true); vc_locals(1, true, G.sz + 1, ~0ull);
        vc_cover("steps to neighbours");
      }
      bool more = vc_bool();
      if (!more) { if (G.dist) vc_assume((of != G.p) | G.seen); else vc_assume((of != G.a) | G.seen); }
      return more;
    }
    bool operator==(const iterator& o) const { return !(*this != o); }
  };
  static inline void (*S)();
  iterator begin() const { return { of, false }; }
  iterator end() const { return { of, true }; }
};
template <bool GRAPH> struct maze {
  template <bool O = false> neighbours<GRAPH> get_neighbours(u32 i) const { ck(ROUTE | COMPLETE, i < G.n, "neighbours are asked of a node of the maze"); G.seen = false; return { i }; }
  template <bool O = false> neighbours<GRAPH> get_neighbours(const C& c) const { return this->template get_neighbours<O>(c[0]); }
  size_t count() const { return G.n; }
  bool contains(u32 i) const { return i < G.n; }
};
}
template <> class chdr::mazes::graph<uint32_t, uint32_t> : public dj::maze<true> {};
template <class V> class std::unordered_map<uint32_t, V, std::hash<uint32_t>, std::equal_to<uint32_t>, std::pmr::polymorphic_allocator<std::pair<const uint32_t, V>>> : public dj::map<V> { public: using dj::map<V>::map; };
namespace dj {
inline u32 no_estimate(const C&, const C&) noexcept { return vc_u32(); }
template <bool LAZY, bool GRAPH> struct params {
  using weight_type = bool; using scalar_type = u32; using index_type = u32; using coord_type = C;
  using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::false_type; using reverse_equivalence = std::true_type; using octile_neighbours = std::false_type;
  std::conditional_t<GRAPH, chdr::mazes::graph<u32, u32>, maze<false>> maze_; const decltype(maze_)& maze; C start, end, size; u32 (*h)(const C&, const C&) noexcept; pool* monotonic_pmr; pool* heterogeneous_pmr; pool* homogeneous_pmr; u32 weight; size_t capacity; size_t memory_limit;
};
inline C coordinate(u32 i) { return C{ vc_fn(0, i) }; }
template <bool LAZY, bool GRAPH> void search(int what) {
  using P = params<LAZY, GRAPH>; using S = chdr::solvers::dijkstra<P>; using node = typename S::node;
  G = ghost{}; G.what = what; G.graph = GRAPH;
  G.n = vc_u32(); vc_assume((G.n > 0) & (G.n < (1u << 30)));
  G.start = vc_u32(); G.end = vc_u32(); vc_assume((G.start < G.n) & (G.end < G.n) & (G.start != G.end));
  G.in = (uint8_t*)vc_array(G.n, 1);
  G.a = vc_u32(); G.b = vc_u32(); vc_assume((G.a < G.n) & (G.b < G.n) & edge(G.a, G.b));
  G.root = G.end; G.goal = G.start;
  if (what == SHORTEST) {
    auto* d = (u32*)vc_array(G.n, 4); G.dist = d;
    G.v = vc_u32(); G.p = vc_u32(); vc_assume((G.v < G.n) & (G.p < G.n) & edge(G.p, G.v)); vc_assume((d[G.p] < (1u << 30)) & (d[G.v] < (1u << 30)));
    vc_assume(d[G.p] + weight(G.p, G.v) == d[G.v]);
  }
  neighbours<GRAPH>::S = settle<node>;
  pool m;
  const typename std::remove_const<decltype(P::maze_)>::type mz{};
  const P par{ {}, mz, C{ G.start }, C{ G.end }, C{ G.n }, no_estimate, &m, &m, &m, 1u, vc_u64(), vc_u64() };
  open_set<node> open;
  auto r = S::solve_internal(open, par);
  if (r.empty()) {
    vc_cover("no route");
    ck(ROUTE | COMPLETE, G.cut & (G.sz == 0) & !is_in(G.goal), "no route is reported only when the goal was not expanded");
    ck(COMPLETE, is_in(G.root), "the root was expanded");
    ck(COMPLETE, !is_in(G.a) | is_in(G.b), "no route is reported only when all that can be reached was");
  } else {
    vc_cover("route");
    ck(ROUTE | SHORTEST, G.done & (r.size() == G.len + 2), "the route has a cell for every node of the chain");
    if (!G.done) return;
    ck(ROUTE, r[0][0] == G.goal, "the route begins at the goal");
    u64 j = vc_u64(); vc_assume(j <= G.len);
    ck(ROUTE, r[j + 1][0] == coordinate(vc_chain_index(j))[0], "the route lists the cells of the chain");
  }
}
}
extern "C" __attribute__((used, noinline)) auto vch_coordinate_dj(const dj::u32* i, const dj::C* size) { vc_check((*size)[0] == dj::G.n, "an index is converted with the size of the maze"); return dj::coordinate(*i); }
using namespace dj;
VC(S02, prove_dijkstra) { search<true, false>(ROUTE); }
VC(S02, prove_dijkstra_sorted) { search<false, false>(ROUTE); }
VC(S02, prove_dijkstra_graph) { search<true, true>(ROUTE); }
VC(S02, prove_dijkstra_graph_sorted) { search<false, true>(ROUTE); }
VC(S03, prove_dijkstra) { search<true, false>(COMPLETE); }
VC(S03, prove_dijkstra_sorted) { search<false, false>(COMPLETE); }
VC(S03, prove_dijkstra_graph) { search<true, true>(COMPLETE); }
VC(S03, prove_dijkstra_graph_sorted) { search<false, true>(COMPLETE); }
VC(S04, prove_dijkstra_sorted) { search<false, false>(SHORTEST); }
VC(S04, prove_dijkstra_graph_sorted) { search<false, true>(SHORTEST); }
// One step along a shortest route root = q0, ..., p, used by open_set::order.  Claim for q: every node up to q was expanded, or
// some node is pending that is no farther than q.
VC(S04, lemma_distance) {
  u32 dq = vc_u32(), w = vc_u32(); vc_assume((dq < (1u << 30)) & (w > 0) & (w < (1u << 28))); u32 dr = dq + w;
  bool all_q = vc_bool(), z_q = vc_bool(); u32 g = vc_u32(); vc_assume((all_q | z_q) & (!z_q | (g <= dq)));
  bool in_r = vc_bool(), pending_r = vc_bool(); vc_assume(!all_q | in_r | pending_r);       // the invariant, r pending at its distance
  bool all_r = all_q & in_r, z_r = z_q | (all_q & !in_r & pending_r); u32 g2 = z_q ? g : dr;
  vc_check((all_r | z_r) & (!z_r | (g2 <= dr)), "the claim holds for the next node");
  vc_cover("the lemma");
}
#endif
