// Contracts for proving the searches by iterative deepening: iddfs, eiddfs, idastar, eidastar, idbest_first, eidbest_first.
//
// They keep the path from the root to the current node in a vector, and beside it a stack with one state per node of
// the path, which holds the neighbours of that node and how many of them were looked at.  The real `solve_internal` is
// instantiated with the types below: an arbitrary maze (a directed graph of any size, any number of neighbours per node),
// a path and a stack of any length of which the last element is present, a closed set or table of seen nodes.
//
// The inner loop is cut at the call that reads the top of the stack (vc_cut).  There the invariant is checked, everything
// is havocked to an arbitrary state that satisfies it, one iteration is executed, and the invariant is checked again.
//   ROUTE     path and stack are of the same length; the path begins at the root and every node of it is a neighbour of
//             the one before; the state on top holds the neighbours of the last node.
//   COMPLETE  for an arbitrary route Q(0) = root, ..., Q(m) = goal without repetitions: the path agrees with Q up to node
//             Q(c), and the state of Q(c) has not looked at Q(c+1) yet; or that state was given up (`dead`).  A search
//             that gave it up goes on (what its own variables say about that is found by vc_locals).
//             With a table of seen nodes: for an arbitrary edge a -> b, where a is in the table, so is b, or a state of a
//             has not looked at b yet, or one was given up.
//   SHORTEST  as COMPLETE, and the bound stays below the length of Q.
#pragma once
#include "vc.hpp"
#include "mem.hpp"
#include <cstdint>
#include <utility>
#include <vector>
#include <iterator>
#include <memory_resource>
#include <unordered_map>
#include <include/types/containers/coord.hpp>
#ifndef VC_NATIVE
namespace ids {
using u32 = uint32_t; using u64 = uint64_t;
enum { ROUTE = 1, COMPLETE = 2, SHORTEST = 4 };
struct ghost {
  int what; bool table, down;
  u32 n, start, end, root, goal;
  bool rooted, found, cut, closes, depth;
  u64 len, states;                   // length of the path and of the stack
  void* last; u32 last_idx;          // the last node of the path
  void* top; bool* asked;            // the state on top of the stack; whether its tracked neighbour was looked at
  // the route Q
  bool has, dead; u32 m; u64 c;
  // an element of the path other than the first
  u64 w; u32 wx;
  // the edge a -> b, at position r of the neighbours of a
  u32 a, b, r; bool ta, tb, tg, tr, pa, cut_a; u64 la; bool fa, fb, fg, fr;
  std::pair<const u32, u32>* slot;
  // this iteration
  bool pushed, popped, closed, erased; u32 x_pushed, x_popped, x_closed, x_erased; u64 l_popped;
  bool measured; u32 to; bool again;
};
inline ghost G;
inline void ck(int w, bool c, const char* m) { if (G.what & w) vc_check(c, m); }
inline bool edge(u32 x, u32 y) { return vc_rel(x, y) != 0; }
inline u32 degree(u32 x) { u32 r = vc_fn(G.n + 2, x); vc_assume(r < (1u << 28)); return r; }
inline u32 Q(u64 j) { return vc_fn(G.n + 3, (u32)j); }
inline u32 R(u64 j) { return vc_fn(G.n + 4, (u32)j); }
inline u32 est(u32 x) { u32 r = vc_fn(G.n + 5, x); vc_assume(r < (1u << 30)); return r; }
inline bool on(u32 x, u32 i) { return vc_fn(x, 2 * i + 1) != 0; }
inline u32 to(u32 x, u32 i) { return vc_fn(x, 2 * i); }
inline bool deep() { return G.what != ROUTE; }
// what is known of Q at position j
inline void route_at(u64 j) {
  if (!deep() || G.table) return;
  if (!vc_case(G.has & (j < G.m))) return;
  u32 x = Q(j), y = Q(j + 1), r = R(j);
  vc_assume((x < G.n) & (y < G.n) & (x != y) & (x != G.goal));
  vc_assume((r < degree(x)) & on(x, r) & (to(x, r) == y) & edge(x, y));
  vc_assume((j != 0) | (x == G.root)); vc_assume((j + 1 != G.m) | (y == G.goal)); vc_assume((j + 1 == G.m) | (y != G.goal));
  vc_assume((est(x) <= G.m - j) | (G.what != SHORTEST));
}
inline void apart(u64 i, u64 j) { if (deep() && !G.table) vc_assume(!G.has | (i > G.m) | (j > G.m) | (i == j) | (Q(i) != Q(j))); }
// is the tracked neighbour of the state at this level (its node) among the first k looked at?
inline bool tracked(u64 level, u32& r) {
  if (!deep()) return false;
  if (G.table) { r = G.r; return G.pa & (level == G.la); }
  r = R(level); return G.has & !G.dead & (level == G.c);
}
inline bool among(u64 k, u32 x, u32 r) { return G.down ? k + r >= degree(x) : k > r; }
using C = chdr::coord<u32, 1>;
struct neighbours {
  u32 of; mutable bool asked;
  using size_type = size_t; using value_type = std::pair<bool, C>;
  size_t size() const { return degree(of); }
  value_type operator[](size_t i) const {
    vc_check(i < degree(of), "a neighbour of the list is asked for");
    u32 k = (u32)i; bool o = on(of, k); u32 x = to(of, k);
    vc_assume(!o | ((x < G.n) & edge(of, x)));
    u32 r; r = 0; if (vc_case(tracked(G.states - 1, r) & (r == k))) { asked = true; if (G.table) G.pa = false; }
    return { o, C{ x } };
  }
};
struct maze {
  template <bool O = false> neighbours get_neighbours(u32 i) const { ck(ROUTE, i < G.n, "neighbours are asked of a node of the maze"); return { i, false }; }
  template <bool O = false> neighbours get_neighbours(const C& c) const { return this->template get_neighbours<O>(c[0]); }
  size_t count() const { return G.n; }
  bool contains(u32 i) const { return i < G.n; }
};
struct pool {};
// ---- nodes: what they are ranked by ------------------------------------------------------------------------------------
template <class N> auto rank(N& x, u64 level, int) -> decltype(x.m_depth, void()) { if (deep()) x.m_depth = level; else x.m_depth = vc_u64(); }
template <class N> auto rank(N& x, u64 level, long) -> decltype(x.m_gScore, void()) {
  if (deep()) { x.m_gScore = (u32)level; x.m_fScore = (u32)level + est(x.m_index); } else { x.m_gScore = vc_u32(); x.m_fScore = vc_u32(); }
}
template <class N> auto rank(N& x, u64, ...) -> decltype(x.m_hScore, void()) { if (deep()) x.m_hScore = est(x.m_index); else x.m_hScore = vc_u32(); }
template <class N> auto ranked(const N& x, u64 level, int) -> decltype(x.m_depth, bool()) { return x.m_depth == level; }
template <class N> auto ranked(const N& x, u64 level, long) -> decltype(x.m_gScore, bool()) { return (x.m_gScore == level) & (x.m_fScore == level + est(x.m_index)); }
template <class N> auto ranked(const N& x, u64, ...) -> decltype(x.m_hScore, bool()) { return x.m_hScore == est(x.m_index); }
template <class N> auto score(const N*, u32 x, u64 level, int) -> decltype(N().m_gScore, u64()) { return level + est(x); }
template <class N> u64 score(const N*, u32 x, u64, long) { return est(x); }
template <class N> N* node(u32 i, u64 level) { auto* x = (N*)::operator new(sizeof(N)); new (x) N(); x->m_index = i; rank(*x, level, 0); return x; }
template <class T> auto copied(const T& t, u32 i, u64 level, int) -> decltype(t.curr, bool()) { return (t.curr.m_index == i) & ranked(t.curr, level, 0); }
template <class T> bool copied(const T&, u32, u64, long) { return true; }
// ---- the path -----------------------------------------------------------------------------------------------------------
template <class N> struct path {
  using value_type = N; using size_type = size_t;
  static void place(u32 i) { G.last = node<N>(i, G.len - 1); G.last_idx = i; }
  static void drop() { if (G.last) { ::operator delete(G.last); G.last = nullptr; } }
  template <class... A> N& emplace_back(A&&... a) {
    auto* x = (N*)::operator new(sizeof(N)); new (x) N(std::forward<A>(a)...);
    u32 i = x->m_index;
    ck(ROUTE, i < G.n, "only nodes of the maze are added to the path"); vc_assume(i < G.n);
    if (G.len == 0) {
      ck(ROUTE, G.rooted ? i == G.root : i == G.start || i == G.end, "a search begins at an end of the route");
      if (!G.rooted) { G.rooted = true; G.root = i; G.goal = i == G.start ? G.end : G.start; }
    } else {
      ck(ROUTE, edge(G.last_idx, i), "a node of the path is a neighbour of the one before");
      if (deep()) ck(~ROUTE, !((G.w >= 1) & (G.w < G.len)) | (i != G.wx), "no node is twice on the path");
    }
    if (deep()) ck(~ROUTE, ranked(*x, G.len, 0), "a node is added with its distance and estimate");
    G.pushed = true; G.x_pushed = i;
    if (deep() && !G.table && G.len > 0) { route_at(G.c); if (vc_case(G.has & !G.dead & (G.len == G.c + 1) & (i == Q(G.c + 1)))) ++G.c; }
    ++G.len; drop(); G.last = x; G.last_idx = i;
    if (deep() && vc_case(G.w == G.len - 1)) G.wx = i;
    return *x;
  }
  void push_back(const N& x) { const N y = x; emplace_back(y); }
  void pop_back() {
    vc_check(G.len > 0, "a node is removed from a path that has one");
    ck(ROUTE, G.len > 1, "the root stays on the path");
    G.popped = true; G.x_popped = G.last_idx; G.l_popped = G.len - 1;
    if (G.table) G.pushed = false;
    shrink(G.len - 1);
  }
  void resize(size_t k) { ck(ROUTE, k > 0, "the root stays on the path"); vc_check(k <= G.len, "the path is cut"); if (k < G.len) shrink(k); }
  void resize(size_t k, const N&) { resize(k); }
  N& back() { vc_check(G.len > 0, "the last node of a path that has one"); return *(N*)G.last; }
  const N& back() const { vc_check(G.len > 0, "the last node of a path that has one"); return *(N*)G.last; }
  size_t size() const { return G.len; }
  bool empty() const { return G.len == 0; }
  void reserve(size_t) {}
  // a search among all elements looks at the tracked one, and at an arbitrary one
  struct iterator {
    using iterator_category = std::input_iterator_tag; using value_type = N; using difference_type = ptrdiff_t; using pointer = const N*; using reference = const N&;
    int k;
    reference operator*() const {
      u64 l; u32 i;
      if (k == 0) { l = G.w; i = G.wx; vc_assume(l < G.len); }
      else { l = vc_u64(); i = vc_u32(); vc_assume((l < G.len) & (i < G.n)); vc_assume((l != G.len - 1) | (i == G.last_idx)); vc_assume((l != 0) | (i == G.root)); vc_assume((l != G.w) | (i == G.wx)); }
      if (deep() && !G.table) { vc_assume(!G.has | G.dead | (l > G.c) | (i == Q(l))); apart(l, G.c + 1); }
      return *node<N>(i, l);
    }
    pointer operator->() const { return &**this; }
    iterator& operator++() { ++k; return *this; }
    iterator operator++(int) { auto o = *this; ++k; return o; }
    friend bool operator==(const iterator& x, const iterator& y) { return x.k == y.k; }
    friend bool operator!=(const iterator& x, const iterator& y) { return x.k != y.k; }
  };
  using const_iterator = iterator;
  iterator rbegin() const { return begin(); } iterator rend() const { return end(); }
  iterator begin() const { return { deep() && vc_case(G.w < G.len) ? 0 : 1 }; }
  iterator end() const { return { vc_bool() ? 2 : 1 }; }
private:
  static void shrink(u64 k) {
    u32 y = vc_u32(); vc_assume(y < G.n);
    if (k + 1 == G.len) vc_assume(edge(y, G.last_idx));
    bool one = vc_case(k == 1); if (one) y = G.root;
    if (deep() && !G.table) vc_assume(!G.has | G.dead | (k - 1 > G.c) | (y == Q(k - 1)));
    if (deep()) vc_assume((y != G.goal) & ((k - 1 != G.w) | (y == G.wx)));
    if (G.table) vc_assume(!G.pa | (k - 1 != G.la) | (y == G.a));
    drop(); G.len = k; place(y);
  }
};
// ---- the closed set: the nodes of the path but the first ---------------------------------------------------------------
struct closed_set {
  bool contains(size_t i) const {
    u32 x = (u32)i; bool r = vc_bool();
    vc_assume(!((G.w >= 1) & (G.w < G.len) & (x == G.wx)) | r);
    if (deep() && vc_case(r)) {
      u64 l = vc_u64(); vc_assume((l >= 1) & (l < G.len)); vc_assume(!G.has | G.dead | (l > G.c) | (x == Q(l))); apart(l, G.c + 1); vc_assume((l != G.w) | (x == G.wx));
      vc_assume((l != G.len - 1) | (x == G.last_idx));
    }
    return r;
  }
  void emplace(size_t i) { vc_check(i < G.n, "only nodes of the maze are closed"); G.closed = true; G.x_closed = (u32)i; }
  void push(size_t i) { emplace(i); }
  void erase(size_t i) { G.erased = true; G.x_erased = (u32)i; }
};
// ---- the table of seen nodes ---------------------------------------------------------------------------------------------
struct seen {
  using key_type = u32; using mapped_type = u32; using value_type = std::pair<const u32, u32>; using size_type = size_t;
  struct iterator { value_type* p; value_type* operator->() const { return p; } value_type& operator*() const { return *p; }
    friend bool operator==(const iterator& a, const iterator& b) { return a.p == b.p; } friend bool operator!=(const iterator& a, const iterator& b) { return a.p != b.p; } };
  using const_iterator = iterator;
  static value_type* any(u32 k, u32 v) { return new (::operator new(sizeof(value_type))) value_type(k, v); }
  static u64 (*limit)(u32, u64);
  static bool held(u32 k) { bool r = vc_bool(); vc_assume((k != G.a) | (r == G.ta)); vc_assume((k != G.b) | (r == G.tb)); vc_assume((k != G.goal) | (r == G.tg)); vc_assume((k != G.root) | (r == G.tr));
    vc_assume(!((G.w >= 1) & (G.w < G.len) & (k == G.wx)) | r); return r; }
  static u32 value(u32 k) { u32 v = vc_u32(); if (deep()) vc_assume(!((G.w >= 1) & (G.w < G.len) & (k == G.wx)) | (v <= limit(k, G.w))); return v; }
  // what was stored last is looked at when the next is stored, and at the end of the iteration
  static void settle() {
    if (!deep()) return;
    if (!G.slot) { ck(~ROUTE, !((G.w >= 1) & G.pushed & (G.w == G.len - 1)), "what is added to the path is known"); return; }
    u32 k = G.slot->first, v = G.slot->second;
    ck(~ROUTE, !((G.w >= 1) & (G.w < G.len) & (k == G.wx)) | (v <= limit(k, G.w)), "a node of the path is known with its score");
    ck(~ROUTE, !((G.w >= 1) & G.pushed & (G.w == G.len - 1)) | (k == G.wx), "what is added to the path is known");
  }
  seen() {} template <class T> explicit seen(T*) {}
  seen(seen&&) {} seen& operator=(seen&&) { forget(); return *this; } ~seen() {}
  iterator find(const u32& k) { return { vc_case(held(k)) ? any(k, value(k)) : nullptr }; }
  iterator begin() { return { vc_bool() ? any(vc_u32(), vc_u32()) : nullptr }; }
  iterator end() { return { nullptr }; }
  size_t count(const u32& k) { return held(k); } bool contains(const u32& k) { return held(k); }
  u32& at(const u32& k) { return any(k, value(k))->second; }
  u32& operator[](const u32& k) { settle(); bool h = held(k); auto* p = any(k, value(k)); vc_assume(h | (p->second == 0)); G.slot = p; G.ta = G.ta | (k == G.a); G.tb = G.tb | (k == G.b); G.tg = G.tg | (k == G.goal); G.tr = G.tr | (k == G.root); return p->second; }
  std::pair<iterator, bool> insert_or_assign(const u32& k, const u32& v) { bool h = held(k); (*this)[k] = v; return { iterator{ G.slot }, !h }; }
  void clear() { forget(); }
  void reserve(size_t) {}
private:
  static void forget() { G.fa = G.ta; G.fb = G.tb; G.fg = G.tg; G.fr = G.tr; G.ta = G.tb = G.tg = G.tr = false; G.slot = nullptr; }
};
inline u64 (*seen::limit)(u32, u64);
}
template <> class std::unordered_map<uint32_t, uint32_t, std::hash<uint32_t>, std::equal_to<uint32_t>, std::pmr::polymorphic_allocator<std::pair<const uint32_t, uint32_t>>> : public ids::seen {
public:
  using ids::seen::seen; unordered_map() {} unordered_map(unordered_map&&) {} unordered_map& operator=(unordered_map&&) = default;
};
// ---- the stack of states ---------------------------------------------------------------------------------------------
#define STACK_HPP
namespace chdr {
template <typename T> class stack {
  using u32 = ids::u32;
  static inline const void* made;
  static inline T* (*again)(u32);
  static inline bool (*fine)();
  static T*& t() { return (T*&)ids::G.top; }
  static void drop() { if (ids::G.top) { ::operator delete(ids::G.top); ids::G.top = nullptr; } }
  // an arbitrary state of a node: how many neighbours it looked at is arbitrary, but a tracked one was not looked at
  template <class N, class P> static T* any(u32 i) {
    using namespace ids;
    auto* x = node<N>(i, G.states - 1);
    auto* s = (T*)::operator new(sizeof(T)); new (s) T(*x, *(const P*)made);
    ::operator delete(x);
    u32 k = vc_u32(); vc_assume(k <= degree(i)); s->neighbours_idx = k;
    u32 r = 0; if (vc_case(tracked(G.states - 1, r))) vc_assume(!among(k, i, r));
    return s;
  }
  template <class N> static bool last_ok() { return ids::ranked(*(const N*)ids::G.last, ids::G.len - 1, 0); }
  static void invariant() {
    using namespace ids;
    build(); auto& s = *t(); u32 i = s.neighbours.of;
    ck(ROUTE, G.states == G.len, "there is one state per node of the path");
    ck(ROUTE, i == G.last_idx, "the state on top holds the neighbours of the last node");
    ck(ROUTE, s.neighbours_idx <= degree(i), "no more neighbours are looked at than there are");
    if (!deep()) return;
    vc_assume((G.states == G.len) & (i == G.last_idx) & (s.neighbours_idx <= degree(i)));
    ck(~ROUTE, fine() && copied(s, G.last_idx, G.len - 1, 0), "nodes keep their distance and estimate");
    ck(~ROUTE, G.last_idx != G.goal, "the goal is not on the path");
    u32 r = 0; if (vc_case(tracked(G.states - 1, r))) ck(~ROUTE, !s.neighbours.asked & !among(s.neighbours_idx, i, r), "no free neighbour is passed over");
    if (G.table) {
      seen::settle();
      ck(~ROUTE, !G.ta | G.tb | G.pa | G.cut_a, "a node that was left has all its neighbours known");
      ck(~ROUTE, G.tr, "the root is known");
    } else {
      if (G.closes) {
        ck(~ROUTE, G.pushed & (G.len > 1) ? G.closed & (G.x_closed == G.x_pushed) : !G.closed, "what is added to the path is closed");
        ck(~ROUTE, G.popped & (G.l_popped > 0) ? G.erased & (G.x_erased == G.x_popped) : !G.erased | (G.len == 1), "what is removed from the path is opened");
      }
      ck(~ROUTE, !G.has | G.dead | ((G.c < G.m) & (G.c < G.len)), "the goal is not passed over");
    }
    ck(SHORTEST, !(G.has & G.dead & G.depth) | (G.m > 1), "a neighbour of the root is found at once");
    ck(SHORTEST, !G.measured | (G.to == G.goal), "estimates are measured to the goal");
  }
  static void locals(int mode) {
    using namespace ids;
    if (!deep()) return;
    const u64 none = ~0ull;
    u64 always = none, after = 1u << 31;
    if (G.what == SHORTEST) { if (G.depth) { always = G.has ? G.m - 1 : none; after = G.m > 2 ? G.m - 2 : 0; } else { always = G.has ? G.m : none; after = G.m; } }
    vc_locals(mode, G.table ? G.cut_a | G.tg : G.has & G.dead, always, after);
  }
  static void havoc() {
    using namespace ids;
    vc_cut_free(G.last); if (G.top) vc_cut_free(G.top); if (G.slot) vc_cut_free(G.slot);
    if (G.top) { ::operator delete(G.top); G.top = nullptr; }
    ::operator delete(G.last);
    G.cut = true; G.slot = nullptr; G.pushed = G.popped = G.closed = G.erased = false;
    G.len = vc_u64(); vc_assume(G.len > 0 && G.len < (1ull << 40)); G.states = G.len;        // what memory can hold
    if (deep()) vc_assume(G.len <= G.n + 1);        // all nodes of the path are different, but perhaps the first (checked)
    u32 i = vc_u32(); vc_assume(i < G.n); if (vc_case(G.len == 1)) i = G.root;
    if (deep()) {
      vc_assume(i != G.goal);
      G.wx = vc_u32(); vc_assume(G.wx < G.n); vc_assume((G.w != G.len - 1) | (G.wx == i)); vc_assume((G.w != 0) | (G.wx == G.root));
      if (G.table) {
        G.ta = vc_bool(); G.tb = vc_bool(); G.tg = vc_bool(); G.tr = true; G.pa = vc_bool(); G.cut_a = vc_bool(); G.la = vc_u64();
        vc_assume(!G.ta | G.tb | G.pa | G.cut_a); vc_assume(!G.pa | (G.la < G.len)); vc_assume(!G.pa | (G.la != G.len - 1) | (i == G.a)); vc_assume(!G.pa | (G.la != 0) | (G.a == G.root));
        vc_assume(!G.pa | (G.la != G.w) | (G.wx == G.a));
        vc_assume(((G.a != G.root) | G.ta) & ((G.b != G.root) | G.tb) & ((G.b != G.goal) | (G.tb == G.tg)) & ((G.a != G.goal) | (G.ta == G.tg)) & ((G.a != G.b) | (G.ta == G.tb)));
      } else {
        G.c = vc_u64(); G.dead = vc_bool();
        vc_assume(!G.has | G.dead | ((G.c < G.m) & (G.c < G.len))); route_at(G.c);
        vc_assume(!G.has | G.dead | (G.c != G.len - 1) | (i == Q(G.c))); vc_assume(!G.has | G.dead | (G.w > G.c) | (G.wx == Q(G.w)));
        apart(G.w, G.c + 1);
      }
      if (G.what == SHORTEST) {
        vc_assume(!(G.has & G.dead & G.depth) | (G.m > 1));
      }
    }
    G.last_idx = i; G.last = place(i);
  }
  static inline void* (*place)(u32);
  template <class N> static void* place_of(u32 i) { return ids::node<N>(i, ids::G.len - 1); }
  template <class N> static auto by_depth(int) -> decltype(N().m_depth, bool()) { return true; }
  template <class N> static bool by_depth(long) { return false; }
  static void build() { if (!ids::G.top) { using namespace ids; u32 i = G.last_idx; if (G.states != G.len) { i = vc_u32(); vc_assume(i < G.n); } G.top = again(i); } }
public:
  explicit stack(ids::pool*) { ids::G.top = nullptr; ids::G.states = 0; }
  stack() { ids::G.top = nullptr; ids::G.states = 0; }
  stack(const stack&) = delete; ~stack() {}
  bool empty() const { return ids::G.states == 0; }
  size_t size() const { return ids::G.states; }
  void reserve(size_t) {}
  template <class N, class P> void emplace(N&& x, const P& p) {
    using namespace ids; using M = std::decay_t<N>;
    made = &p; again = &any<M, P>; fine = &last_ok<M>; place = &place_of<M>; G.depth = by_depth<M>(0);
    u32 i = x.m_index; G.again = i == G.goal;
    if (G.what == SHORTEST) vc_assume(est(G.goal) == 0);
    auto* s = (T*)::operator new(sizeof(T)); new (s) T(x, p);
    if (G.states == 0) { G.c = 0; G.dead = false; G.pa = false; G.cut_a = false; }
    ++G.states; drop(); G.top = s;
    if (G.table) { if (vc_case(!G.pa & (i == G.a))) { G.pa = true; G.la = G.states - 1; } }
    else route_at(G.c);
  }
  T& top() {
    using namespace ids;
    vc_check(G.states > 0, "the top of a stack that is not empty");
    if (vc_case(G.again)) { G.again = false; build(); return *t(); }      // the goal, beyond the bound, was added just now: it is removed in the next iteration
    int r = vc_cut(0, &G, G.last, G.top, G.slot);
    if (r == 1) { invariant(); locals(2); vc_cover("end of an iteration"); vc_end(); }
    if (r == 0) { invariant(); locals(0); havoc(); locals(1); vc_cover("an iteration"); }
    build();
    return *t();
  }
  void pop() {
    using namespace ids;
    vc_check(G.states > 0, "a state is removed from a stack that has one");
    lose(); --G.states; drop();
  }
  void clear() { using namespace ids; while_lost(); G.states = 0; drop(); }
private:
  static void lose() { using namespace ids; u32 r = 0; if (vc_case(tracked(G.states - 1, r))) { if (G.table) { G.cut_a = true; G.pa = false; } else G.dead = true; } }
  static void while_lost() { using namespace ids; if (G.states > 0) { if (G.table) { G.cut_a = G.cut_a | G.pa; G.pa = false; } else G.dead = true; } }
};
}
#include <chdr.hpp>
namespace ids {
inline u32 any_estimate(const C& x, const C& t) noexcept {
  if (!deep()) return vc_u32();
  vc_check(x[0] < G.n, "a node of the maze is estimated");
  ck(~ROUTE, !G.measured | (t[0] == G.to), "all estimates are measured to the same node");
  G.measured = true; G.to = t[0];
  return est(x[0]);
}
template <bool REV> struct params {
  using weight_type = bool; using scalar_type = u32; using index_type = u32; using coord_type = C;
  using lazy_sorting = std::true_type; using no_cleanup = std::false_type; using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::false_type;
  ids::maze maze; C start, end, size; u32 (*h)(const C&, const C&) noexcept; pool* monotonic_pmr; pool* heterogeneous_pmr; pool* homogeneous_pmr; u32 weight; size_t capacity; size_t memory_limit;
};
template <class S, class P, class N> auto run(path<N>& open, closed_set& closed, const P& p, int) -> decltype(S::solve_internal(open, closed, size_t(), p)) { G.closes = true; return S::solve_internal(open, closed, vc_u64(), p); }
template <class S, class P, class N> auto run(path<N>& open, closed_set&, const P& p, long) -> decltype(S::solve_internal(open, p)) { return S::solve_internal(open, p); }
template <template <class> class S, bool REV, bool TABLE> void search(int what) {
  using P = params<REV>; using node = typename S<P>::node;
  G = ghost{};
  G.what = what; G.table = TABLE; G.down = vc_choice(0) == 0;
  G.n = vc_u32(); vc_assume(G.n > 0 && G.n < (1u << 30));
  G.start = vc_u32(); G.end = vc_u32(); vc_assume(G.start < G.n && G.end < G.n && G.start != G.end);
  G.root = G.start; G.goal = G.end;
  if (deep()) {
    G.w = vc_u64(); vc_assume(G.w <= G.n);
    if (TABLE) {
      seen::limit = [](u32 x, u64 l) { return score((const node*)nullptr, x, l, 0); };
      G.a = vc_u32(); G.b = vc_u32(); G.r = vc_u32();
      vc_assume(G.a < G.n && G.b < G.n && G.r < degree(G.a) && on(G.a, G.r) && ids::to(G.a, G.r) == G.b && edge(G.a, G.b));
      vc_assume((G.a != G.start) & (G.a != G.end) | vc_bool());
    } else {
      G.has = vc_bool(); G.m = vc_u32(); vc_assume(G.m > 0 && G.m <= G.n);
    }
  }
  pool m;
  const P par{ {}, C{ G.start }, C{ G.end }, C{ G.n }, any_estimate, &m, &m, &m, what == ROUTE ? vc_u32() : 1u, vc_u64(), vc_u64() };
  path<node> open; closed_set closed;
  auto r = run<S<P>>(open, closed, par, 0);
  if (r.empty()) {
    vc_cover("no route");
    ck(~0, !G.found, "a route that was found is returned");
    if (TABLE) ck(COMPLETE, G.fr & !G.fg & (!G.fa | (G.a == G.goal) | G.fb), "no route is reported only when all that can be reached was seen");
    else ck(COMPLETE, !G.has, "no route is reported only when there is none");
  } else { vc_cover("route"); ck(ROUTE, G.found && r.size() == 1, "the route returned is the one found"); }
}
}
// The contract of the functions that turn a path into a route: the path must end at the goal.
extern "C" __attribute__((used, noinline)) void vch_iroute(std::vector<ids::C>* out, const void*, const ids::C* size) {
  using namespace ids;
  ck(ROUTE, G.len > 1 && G.last_idx == G.goal, "the route ends at the goal");
  ck(ROUTE, (*size)[0] == G.n, "the route is converted with the size of the maze");
  ck(SHORTEST, !G.has | (G.len - 1 <= G.m), "no route is shorter");
  G.found = true;
  new (out) std::vector<C>(1, C{ G.last_idx });
}
#endif
