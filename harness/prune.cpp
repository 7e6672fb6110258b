// G05: pruning a graph of undirected edges keeps distances.  One visit of one node, in an arbitrary graph at an arbitrary
// moment of pruning, keeps the invariant below; so does the removal of the nodes found.  The loops of the real function are
// cut at the contracts of the map and of the list of nodes to remove (vc_cut).
// vc-opts . {"bytewise": "std::pair<unsigned int, unsigned int>"}
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
#include <algorithm>
#ifndef VC_NATIVE
#include <unordered_map>
#include <vector>
using u32 = uint32_t; using u64 = uint64_t; using edge = std::pair<u32, u32>; using bucket = std::pmr::vector<edge>;
// Invariant.  The graph without the nodes found in this round (that are still in the map):
//  (m) an edge is there as often as its reverse; every edge leads to a node that is left; weights are positive.
//  For an arbitrary node t, as long as it is left, and D, R: the distances to t of the graph at first, and whether there is a way,
//  (l) for every edge x -> y of weight w: if R(y), then R(x) and D(x) <= w + D(y);
//  (u) for every x other than t with R(x) there is an edge x -> y of weight w with R(y) and D(x) = w + D(y).
// By (l) no way in what is left is shorter than D; by (u) there is one of that length (weights are positive, so following such
// edges ends at t): D and R are the distances in what is left, too.
namespace pr {
struct entry { const u32 first; bucket second; };
struct ghost {
  std::pmr::memory_resource* r; u64 n, was; u32 t;      // nodes in the map, at the begin of the round, the target
  bool any, fresh, listed, full;                     // some node was found in this round; the round begins; the list is looked through; the list may hold something
  entry* cur; bool joins;                                  // the node visited; whether it only joins two others
  u32 key[2], c[2]; entry* e[2]; u64 k[2], j[2], m[2]; edge old[2]; bool have;      // its two neighbours, see visit()
  u64 i, size; edge own; unsigned pushed; u32 dead; bool erased, all;      // all: every node was visited
};
inline ghost G;
// Iterators are addresses in TAGS: 0 the node visited, 1 and 2 its neighbours, 3 the end; 4 and 5 of the list
inline char TAGS[8];

inline u64 D(u32 x) { return vc_fn(0, x); }
inline bool R(u32 x) { return vc_rel(x, 0) != 0; }
inline bool low(u32 x, u32 y, u64 w) { return !R(y) | (R(x) & (D(x) <= w + D(y))); }
inline bool tight(u32 x, u32 y, u64 w) { return R(y) & (D(x) == w + D(y)); }
inline void fill(bucket& b) {
  u64 n = vc_u64(), cap = vc_u64(); vc_assume(n <= cap); vc_assume(cap < VC_HUGE);
  auto* d = (edge*)vc_array(cap, 8); vc_layout(d, 0, 4, 4, 4, -1);
  auto& im = b._M_impl; im._M_start = d; im._M_finish = d + n; im._M_end_of_storage = d + cap;
}
inline entry* fresh(u32 k) { auto* e = (entry*)::operator new(sizeof(entry)); ::new ((void*)e) entry{ k, bucket(G.r) }; fill(e->second); return e; }
// The next node visited: any that was not visited in this round, hence one that is left.
inline void visit() {
  u32 a = vc_u32(); G.cur = fresh(a); bucket& b = G.cur->second; G.size = b.size(); G.i = vc_u64(); G.pushed = 0; G.have = false; G.joins = false; G.e[0] = G.e[1] = nullptr; G.key[0] = G.key[1] = a;
  if (vc_case(G.i < G.size)) G.own = b[G.i];
  if (!vc_case(G.size == 2)) return;
  for (int w = 0; w < 2; ++w) { G.key[w] = b[w].first; G.c[w] = b[w].second; vc_assume(G.c[w] >= 1); vc_assume(low(a, G.key[w], G.c[w])); vc_assume(low(G.key[w], a, G.c[w])); }
  G.joins = vc_case((G.key[0] != G.key[1]) & (G.key[0] != a) & (G.key[1] != a));
  if (!G.joins) { for (int w = 0; w < 2; ++w) G.e[w] = G.key[w] == a ? G.cur : fresh(G.key[w]); for (int w = 0; w < 2; ++w) { G.m[w] = G.e[w]->second.size(); if (G.e[w] != G.cur) if (vc_case(G.i < G.m[w])) G.old[w] = G.e[w]->second[G.i]; } return; }
  vc_assume(G.n >= 3);                                                     // these three
  vc_assume(u64(G.c[0]) + G.c[1] < (1ull << 32));                          // weights whose sums are representable
  for (int w = 0; w < 2; ++w) {
    u32 x = G.key[w]; G.e[w] = fresh(x); bucket& v = G.e[w]->second; u64 m = G.m[w] = v.size();
    u64 k = G.k[w] = vc_u64(); vc_assume(k < m); vc_assume(v[k] == edge(a, G.c[w]));      // (m): the reverse of the edge, once
    if (vc_case(G.i < m)) { const edge o = G.old[w] = v[G.i]; vc_assume((o.first != a) | (G.i == k)); }
    u64 j = G.j[w] = vc_u64(); vc_assume(j < m); const edge o = v[j]; vc_assume((o.first != a) | (j == k)); vc_assume(low(x, o.first, o.second)); vc_assume((x == G.t) | !R(x) | tight(x, o.first, o.second));      // (u)
  }
  vc_assume((a == G.t) | !R(a) | tight(a, G.key[0], G.c[0]) | tight(a, G.key[1], G.c[1]));
  G.have = vc_bool();                                                      // (m): each has the edge to the other, of this weight, or none has
}
// What a visit leaves.
inline void visited() {
  u32 a = G.cur->first; const bucket& b = G.cur->second;
  vc_check(G.pushed <= 1, "a node is removed once");
  vc_check(b.size() == G.size, "the edges of the node visited are left alone"); if (vc_case(G.i < G.size)) vc_check(b[G.i] == G.own, "the edges of the node visited are left alone");
  if (G.pushed == 0) {
    vc_check(!G.joins, "a node that only joins two others is removed");
    for (int w = 0; w < 2; ++w) if (G.e[w] != nullptr && G.e[w] != G.cur) { vc_check(G.e[w]->second.size() == G.m[w], "where no node is removed no edge changes"); if (vc_case(G.i < G.m[w])) vc_check(G.e[w]->second[G.i] == G.old[w], "where no node is removed no edge changes"); }
    vc_cover("a node is kept"); return;
  }
  vc_check(G.joins & (G.dead == a), "only nodes that join two others are removed");
  bool add[2];
  for (int w = 0; w < 2; ++w) {
    const bucket& v = G.e[w]->second; const u64 m = G.m[w], k = G.k[w], j = G.j[w]; const u32 x = G.key[w], y = G.key[1 - w]; const u64 sum = u64(G.c[0]) + G.c[1];
    add[w] = vc_case(v.size() == m);
    vc_check(v.size() == m - !add[w], "one edge is taken away, and at most one is added");
    if (vc_case(G.i < m)) if (vc_case(G.i != k)) { u64 i = G.i; if (vc_case(i > k)) --i; vc_check(v[i] == G.old[w], "the other edges of its neighbours are kept"); }
    vc_check(add[w] | G.have, "an edge takes the place of the way over the node");
    if (add[w]) { const edge o = v[m - 1]; vc_check(o.first == y, "the edge joins the neighbours of the node"); vc_check(o.second == sum, "its weight is that of the way over the node"); }
    vc_check(low(x, y, sum), "no way gets shorter");
    if (vc_case(x != G.t)) if (vc_case(a != G.t)) if (vc_case(R(x))) if (vc_case(j == k)) vc_check(tight(x, y, sum), "no way gets longer");
  }
  vc_check(add[0] == add[1], "an edge and its reverse are added together");
  vc_cover("a node is removed");
}
inline void round_begins() { vc_check(!G.full, "the list is empty when a round begins"); vc_check(!G.listed, "what was found is removed before a round begins"); }
struct map {
  using key_type = u32; using mapped_type = bucket; using value_type = entry; using size_type = size_t;
  struct iterator {
    const char* kind; entry* operator->() const { return &**this; }
    entry& operator*() const { if (kind == TAGS) { vc_check(G.cur != nullptr, "a node of the graph is visited"); return *G.cur; } if (kind == TAGS + 1) return *G.e[0]; vc_check(kind == TAGS + 2, "an entry of the map is read"); return *G.e[1]; }
    iterator& operator++() { vc_check(kind == TAGS, "the nodes are visited in turn"); return *this; } iterator operator++(int) { auto o = *this; ++*this; return o; }
    friend bool operator==(iterator a, iterator b) { return !(a != b); }
    friend bool operator!=(iterator a, iterator b) {
      if (a.kind != TAGS) return a.kind != b.kind;
      vc_check(b.kind == TAGS + 3, "the nodes are visited to the last");
      int r = vc_cut(0, &G);
      if (r == 1) { if (G.fresh) { round_begins(); vc_check(G.n < G.was, "every round but the last removes a node"); vc_cover("another round"); } else { visited(); } vc_locals(2, true, ~0ull, ~0ull); vc_end(); }
      if (r == 0) { round_begins(); vc_locals(0, true, ~0ull, ~0ull); G.n = vc_u64(); vc_assume(G.n < (1ull << 32)); G.any = vc_case(vc_bool()); if (G.any) vc_assume(G.n >= 3); G.full = G.listed = G.any; G.was = G.n; G.cur = nullptr; vc_locals(1, true, ~0ull, ~0ull); }
      G.fresh = false; G.all = false;
      if (!vc_case(vc_bool())) { G.cur = nullptr; G.all = true; return false; }
      vc_assume(G.n > 0); visit(); return true;
    }
  };
  using const_iterator = iterator;
  map() {} explicit map(std::pmr::memory_resource*) {} map(size_t, std::pmr::memory_resource*) {}
  map(const map&) = delete; map(map&&) noexcept {} map& operator=(map&&) noexcept { return *this; }
  static int which(u32 k) { if (vc_case(k == G.key[0])) return 0; vc_check(k == G.key[1], "only the neighbours of the node are looked up"); return 1; }
  iterator begin() { G.fresh = true; return { TAGS }; } const_iterator begin() const { G.fresh = true; return { TAGS }; } const_iterator cbegin() const { return begin(); }
  iterator end() { return { TAGS + 3 }; } const_iterator end() const { return { TAGS + 3 }; } const_iterator cend() const { return { TAGS + 3 }; }
  iterator find(u32 k) { return { which(k) ? TAGS + 2 : TAGS + 1 }; } const_iterator find(u32 k) const { return { which(k) ? TAGS + 2 : TAGS + 1 }; }
  bool contains(u32 k) const { which(k); return true; } size_t count(u32 k) const { which(k); return 1; }
  bucket& at(u32 k) { return G.e[which(k)]->second; } const bucket& at(u32 k) const { return G.e[which(k)]->second; } bucket& operator[](u32 k) { return G.e[which(k)]->second; }
  size_t size() const { return G.n; } bool empty() const { return G.n == 0; }
  size_t erase(u32 k) { vc_check(G.listed && k == G.dead && !G.erased, "only nodes that were found are removed, once"); G.erased = true; return 1; }
  template <class... A> std::pair<iterator, bool> try_emplace(u32, A&&...) { vc_check(false, "no node is added"); return { { TAGS + 3 }, false }; }
  template <class... A> std::pair<iterator, bool> emplace(A&&...) { vc_check(false, "no node is added"); return { { TAGS + 3 }, false }; }
  void clear() noexcept { vc_check(false, "nodes are removed one by one"); }
};
// The list of nodes to remove.
struct list {
  using value_type = u32; using size_type = size_t;
  struct iterator {
    const char* kind; const u32& operator*() const { return G.dead; } iterator& operator++() { return *this; } iterator operator++(int) { return *this; }
    friend bool operator==(iterator a, iterator b) { return !(a != b); }
    friend bool operator!=(iterator a, iterator b) {
      vc_check(a.kind == TAGS + 4 && b.kind == TAGS + 5, "the list is looked through to the last");
      int r = vc_cut(1, &G);
      if (r == 1) { vc_check(G.erased, "a node that was found is removed"); vc_locals(2, true, ~0ull, ~0ull); vc_cover("a node of the list"); vc_end(); }
      if (r == 0) { vc_locals(0, true, ~0ull, ~0ull); vc_locals(1, true, ~0ull, ~0ull); }
      G.erased = false;
      if (vc_case(vc_bool())) { vc_assume(G.full); G.dead = vc_u32(); return true; }
      if (G.full) { u64 gone = vc_u64(); vc_assume(gone >= 1); vc_assume(gone <= G.n); G.n -= gone; }      // all of them: they are different nodes of the map
      G.listed = false; return false;
    }
  };
  using const_iterator = iterator;
  iterator begin() const { return { TAGS + 4 }; } iterator end() const { return { TAGS + 5 }; } iterator cbegin() const { return { TAGS + 4 }; } iterator cend() const { return { TAGS + 5 }; }
  bool empty() const { return !G.full; } size_t size() const { if (!G.full) return 0; u64 s = vc_u64(); vc_assume(s >= 1); return s; }
  void clear() { G.full = false; } void reserve(size_t) {} void shrink_to_fit() {}
  u32& emplace_back(u32 x) { ++G.pushed; G.dead = x; G.full = G.any = G.listed = true; return G.dead; } void push_back(u32 x) { emplace_back(x); }
};
using it = bucket::iterator;
// Contract of std::find: the first element that is equal, or the end.
inline it found(it b, it e, const edge& v) {
  u64 n = u64(e - b); edge* d = b.base(); int w = -1;
  for (int x = 0; x < 2; ++x) if (G.joins && d == G.e[x]->second.data()) w = x;
  if (w >= 0) {
    // (m) of the edge to the other neighbour
    bool other = vc_case((v.first == G.key[1 - w]) & (v.second == u32(G.c[0] + G.c[1])));
    if (other) { if (!vc_case(G.have)) return e; vc_assume(n > 0); u64 r = vc_u64(); vc_assume(r < n); vc_assume(d[r] == v); return b + (long)r; }
    // (m) of the edge to the node visited: there is one
    if (vc_case(n == G.m[w])) { if (vc_case(v == edge(G.cur->first, G.c[w]))) return b + (long)G.k[w]; if (vc_case(v.first == G.cur->first)) return e; }
  }
  if (vc_case(vc_bool())) { if (n != 0 && vc_case(G.i < n)) vc_assume(!(d[G.i] == v)); return e; }
  u64 r = vc_u64(); vc_assume(r < n); vc_assume(d[r] == v); return b + (long)r;
}
}
template <> class std::unordered_map<u32, bucket, std::hash<u32>, std::equal_to<u32>, std::pmr::polymorphic_allocator<std::pair<const u32, bucket>>> : public pr::map { public: using pr::map::map; };
template <> class std::vector<u32, std::allocator<u32>> : public pr::list { public: vector() {} };
template <> pr::it std::find<pr::it, edge>(pr::it b, pr::it e, const edge& x) { return pr::found(b, e, x); }
using graph = chdr::mazes::graph<u32, u32>; using namespace pr;
template <bool CONSOLIDATE> void prune() {
  any_resource r; G = ghost{}; G.r = &r; G.t = vc_u32(); G.n = vc_u64(); vc_assume(G.n < (1ull << 32)); graph g(&r);
  g.prune<CONSOLIDATE>();
  vc_check(!G.listed, "no node that was found is left behind");
  vc_check((!G.any & G.all) | (G.n <= 2), "pruning ends when nothing more can be pruned");
  vc_cover("end");
}
VC(G05, prune) { prune<false>(); }
VC(G05, prune_consolidate) { prune<true>(); }
#endif
