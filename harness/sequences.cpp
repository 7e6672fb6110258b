// C02: the stack is last in, first out.  C03: the queue is first in, first out.
// vc-cxx -I@V/harness/stubs
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
// An arbitrary stack: any size, any spare capacity, any elements.  at(i): element i from the bottom, before the operation.
template <class T> struct any_stack {
  using S = chdr::stack<T>; using V = std::pmr::vector<T>;
  any_resource res; size_t n, cap; T* data; alignas(S) unsigned char mem[sizeof(S)];
  S& s() { return *reinterpret_cast<S*>(mem); } V& v() { return *reinterpret_cast<V*>(mem); }
  any_stack() {
    n = vc_u64(); cap = vc_u64(); vc_assume(n <= cap); vc_assume(cap < VC_HUGE); static_assert(sizeof(S) == sizeof(V));
    ::new ((void*)mem) S(&res); data = (T*)vc_array(cap, sizeof(T)); vc_layout(data, 0, (int)sizeof(T), -1);
    auto& im = v()._M_impl; im._M_start = data; im._M_finish = data + n; im._M_end_of_storage = data + cap;
  }
};
template <class S> auto nth(S& s, size_t i) { return *(s.begin() + i); }
template <class T> void stack_push() { any_stack<T> a; size_t i = vc_u64(); T was = 0, x = vcn<T>(); if (vc_case(i < a.n)) was = a.data[i];
  if (vc_case(vc_bool())) a.s().push(x); else if (vc_case(vc_bool())) a.s().emplace(x); else { T y = x; a.s().push(std::move(y)); }
  vc_check(a.s().size() == a.n + 1 && !a.s().empty(), "one more element"); vc_check(a.s().top() == x && a.s().front() == x, "the pushed element is on top");
  if (vc_case(i < a.n)) vc_check(nth(a.s(), i) == was, "the elements below are unchanged"); vc_cover("end"); }
template <class T> void stack_push_own() { any_stack<T> a; size_t i = vc_u64(), j = vc_u64(); vc_assume(i < a.n && j < a.n); T was = a.data[i], x = a.data[j]; const T& own = a.v()[j];
  if (vc_case(vc_bool())) a.s().push(own); else a.s().emplace(own);
  vc_check(a.s().size() == a.n + 1 && a.s().top() == x && nth(a.s(), i) == was && nth(a.s(), j) == x, "pushing an element of the stack itself pushes its value"); vc_cover("end"); }
template <class T> void stack_pop() { any_stack<T> a; size_t i = vc_u64(); vc_assume(a.n > 0); vc_assume(i + 1 < a.n && i < a.n); T was = a.data[i], next = a.data[a.n - 2]; a.s().pop();
  vc_check(a.s().size() == a.n - 1, "one element less"); vc_check(nth(a.s(), i) == was, "the elements below are unchanged"); vc_check(a.s().top() == next, "the element pushed before is on top"); vc_cover("end"); }
template <class T> void stack_look() { any_stack<T> a; const auto& c = a.s(); vc_check(c.size() == a.n && c.empty() == (a.n == 0), "size"); if (vc_case(a.n > 0)) { T t = a.data[a.n - 1]; vc_check(c.top() == t && c.front() == t && a.s().top() == t && a.s().front() == t, "top is the last element pushed"); } vc_cover("end"); }
template <class T> void stack_clear() { any_stack<T> a; a.s().clear(); vc_check(a.s().empty() && a.s().size() == 0, "a cleared stack is empty"); vc_cover("end"); }
template <class T> void stack_fresh() { any_resource r; size_t k = vc_u64(); vc_assume(k < VC_HUGE); chdr::stack<T> s(k, &r), t(&r); vc_check(s.empty() && t.empty() && s.size() == 0, "a new stack is empty"); vc_cover("end"); }
template <class T> void stack_copy() { any_stack<T> a, b; size_t i = vc_u64(); T was = 0; vc_assume(i < a.n); was = a.data[i]; unsigned how = vc_shard();
  if (how == 0) { chdr::stack<T> c(a.s()); vc_check(c.size() == a.n && nth(c, i) == was, "a copy holds the same elements"); vc_check(a.s().size() == a.n && nth(a.s(), i) == was, "the source keeps them"); vc_cover("end"); }
  else if (how == 1) { chdr::stack<T> c(std::move(a.s())); vc_check(c.size() == a.n && nth(c, i) == was, "a moved stack keeps its elements"); vc_cover("end"); }
  else if (how == 2) { b.s() = a.s(); vc_check(b.s().size() == a.n && nth(b.s(), i) == was, "an assigned stack holds the same elements"); vc_check(a.s().size() == a.n && nth(a.s(), i) == was, "the source keeps them"); vc_cover("end"); }
  else { b.s() = std::move(a.s()); vc_check(b.s().size() == a.n && nth(b.s(), i) == was, "a move-assigned stack holds the elements"); vc_cover("end"); } }
VC(C02, push_u32) { stack_push<uint32_t>(); }
VC(C02, push_u64) { stack_push<uint64_t>(); }
VC(C02, push_own_u32) { stack_push_own<uint32_t>(); }
VC(C02, push_own_u64) { stack_push_own<uint64_t>(); }
VC(C02, pop_u32) { stack_pop<uint32_t>(); }
VC(C02, pop_u64) { stack_pop<uint64_t>(); }
VC(C02, look_u32) { stack_look<uint32_t>(); }
VC(C02, look_u64) { stack_look<uint64_t>(); }
VC(C02, clear_u32) { stack_clear<uint32_t>(); }
VC(C02, clear_u64) { stack_clear<uint64_t>(); }
VC(C02, fresh_u32) { stack_fresh<uint32_t>(); }
VC(C02, fresh_u64) { stack_fresh<uint64_t>(); }
VC(C02, copy_u32) { stack_copy<uint32_t>(); }
VC(C02, copy_u64) { stack_copy<uint64_t>(); }
// vc-opts copy_ {"shards": 4}
// An arbitrary queue.
#ifndef VC_NATIVE
template <class T> struct any_queue {
  using Q = chdr::queue<T>; using D = std::pmr::deque<T>;
  any_resource res; size_t n, h; T* data; alignas(Q) unsigned char mem[sizeof(Q)];
  Q& s() { return *reinterpret_cast<Q*>(mem); } D& d() { return *reinterpret_cast<D*>(mem); }
  any_queue() { n = vc_u64(); h = vc_u64(); vc_assume(n < VC_HUGE); vc_assume(h < VC_HUGE); static_assert(sizeof(Q) == sizeof(D)); ::new ((void*)mem) Q(&res); data = d().b; vc_layout(data, 0, (int)sizeof(T), -1); d().h = h; d().t = h + n; }
  T at(size_t i) const { return data[h + i]; }
};
#else
template <class T> struct any_queue {          // natively: built through its own interface
  std::pmr::monotonic_buffer_resource res; size_t n; std::vector<T> e; chdr::queue<T> q{&res};
  any_queue() { n = vc_u64() % 300; (void)vc_u64(); for (size_t i = 0; i < n; ++i) { e.push_back((T)(i * 7 + 1)); q.emplace(e.back()); } }
  chdr::queue<T>& s() { return q; } T at(size_t i) const { return e[i]; }
};
#endif
template <class T> void queue_push() { any_queue<T> a; size_t i = vc_u64(); T was = 0, x = vcn<T>(); if (vc_case(i < a.n)) was = a.at(i); T f = x; if (vc_case(a.n > 0)) f = a.at(0);
  if (vc_case(vc_bool())) a.s().push(x); else if (vc_case(vc_bool())) a.s().emplace(x); else { T y = x; a.s().push(std::move(y)); }
  vc_check(a.s().size() == a.n + 1 && !a.s().empty(), "one more element"); vc_check(a.s().top() == f && a.s().front() == f, "the oldest element stays at the front");
  vc_check(nth(a.s(), a.n) == x, "the pushed element is last"); if (vc_case(i < a.n)) vc_check(nth(a.s(), i) == was, "the elements before it are unchanged"); vc_cover("end"); }
template <class T> void queue_pop() { any_queue<T> a; size_t i = vc_u64(); vc_assume(a.n > 1); vc_assume(i < a.n && i + 1 < a.n); T was = a.at(i + 1), next = a.at(1); a.s().pop();
  vc_check(a.s().size() == a.n - 1, "one element less"); vc_check(nth(a.s(), i) == was, "the other elements keep their order"); vc_check(a.s().front() == next && a.s().top() == next, "the next oldest element is at the front"); vc_cover("end"); }
template <class T> void queue_look() { any_queue<T> a; const auto& c = a.s(); vc_check(c.size() == a.n && c.empty() == (a.n == 0), "size"); if (vc_case(a.n > 0)) { T t = a.at(0); vc_check(c.top() == t && c.front() == t && a.s().top() == t && a.s().front() == t, "front is the oldest element"); } vc_cover("end"); }
template <class T> void queue_clear() { any_queue<T> a; a.s().clear(); vc_check(a.s().empty() && a.s().size() == 0, "a cleared queue is empty"); vc_cover("end"); }
template <class T> void queue_fresh() { any_resource r; chdr::queue<T> t(&r); vc_check(t.empty() && t.size() == 0, "a new queue is empty"); vc_cover("end"); }
template <class T> void queue_copy() { any_queue<T> a, b; size_t i = vc_u64(); vc_assume(i < a.n); T was = a.at(i); unsigned how = vc_shard();
  if (how == 0) { chdr::queue<T> c(a.s()); vc_check(c.size() == a.n && nth(c, i) == was, "a copy holds the same elements"); vc_check(a.s().size() == a.n && nth(a.s(), i) == was, "the source keeps them"); vc_cover("end"); }
  else if (how == 1) { chdr::queue<T> c(std::move(a.s())); vc_check(c.size() == a.n && nth(c, i) == was, "a moved queue keeps its elements"); vc_cover("end"); }
  else if (how == 2) { b.s() = a.s(); vc_check(b.s().size() == a.n && nth(b.s(), i) == was, "an assigned queue holds the same elements"); vc_check(a.s().size() == a.n && nth(a.s(), i) == was, "the source keeps them"); vc_cover("end"); }
  else { b.s() = std::move(a.s()); vc_check(b.s().size() == a.n && nth(b.s(), i) == was, "a move-assigned queue holds the elements"); vc_cover("end"); } }
VC(C03, push_u32) { queue_push<uint32_t>(); }
VC(C03, push_u64) { queue_push<uint64_t>(); }
VC(C03, pop_u32) { queue_pop<uint32_t>(); }
VC(C03, pop_u64) { queue_pop<uint64_t>(); }
VC(C03, look_u32) { queue_look<uint32_t>(); }
VC(C03, look_u64) { queue_look<uint64_t>(); }
VC(C03, clear_u32) { queue_clear<uint32_t>(); }
VC(C03, clear_u64) { queue_clear<uint64_t>(); }
VC(C03, fresh_u32) { queue_fresh<uint32_t>(); }
VC(C03, fresh_u64) { queue_fresh<uint64_t>(); }
VC(C03, copy_u32) { queue_copy<uint32_t>(); }
VC(C03, copy_u64) { queue_copy<uint64_t>(); }
#ifdef VC_NATIVE
#include <deque>
struct item { int v; std::string tag; item(int a = 0) : v(a), tag(std::to_string(a) + " a text that does not fit the small buffer") {} bool operator==(const item& o) const { return v == o.v && tag == o.tag; } };
template <class C, class T, bool Fifo> void seq_history(uint64_t seed) {
  std::mt19937_64 r(seed); C s; std::deque<T> m; std::string ops;
  for (int i = 0; i < 120; ++i) {
    unsigned op = r() % 16; int x = (int)(r() % 1000); if (r() % 8 == 0 && !m.empty()) { T t = Fifo ? m.front() : m.back(); if (x & 1) s.emplace(s.top()); else s.push(s.top()); m.push_back(t); } if (r() % 40 == 0) { for (int k = 0; k < 100; ++k) { s.emplace(k); m.push_back(T(k)); } }
    ops += vc_fmt(" %u(%d)", op, x); vc_note("operations" + ops);
    switch (op) {
      case 0: case 1: case 2: { T t(x); s.push(t); m.push_back(t); break; } case 3: case 4: case 5: s.emplace(x); m.push_back(T(x)); break; case 6: s.push(T(x)); m.push_back(T(x)); break;
      case 7: case 8: case 9: case 10: if (!m.empty()) { s.pop(); if (Fifo) m.pop_front(); else m.pop_back(); } break;
      case 11: { C t(s); vc_check(t.size() == s.size(), "a copy has the same size"); s.emplace(1); m.push_back(T(1)); vc_check(t.size() + 1 == s.size(), "a copy is independent"); if (x & 1) { s = t; m.pop_back(); } break; }
      case 12: { C t(std::move(s)); s = std::move(t); break; } case 13: if (x < 100) { s.clear(); m.clear(); } break;
      case 14: s = *&s; break; case 15: if (!m.empty()) { s.top() = T(x); (Fifo ? m.front() : m.back()) = T(x); } break; }
    vc_check(s.size() == m.size() && s.empty() == m.empty(), "size");
    if (!m.empty()) { const C& c = s; const T& want = Fifo ? m.front() : m.back(); vc_check(s.top() == want && s.front() == want && c.top() == want && c.front() == want, Fifo ? "front is the oldest element" : "top is the newest element"); }
    size_t k = 0; for (auto& e : s) { vc_check(e == m[k], "iteration visits the elements in order"); ++k; } vc_check(k == m.size(), "iteration visits every element");
  }
  while (!m.empty()) { vc_check(s.top() == (Fifo ? m.front() : m.back()), "elements come out in order"); s.pop(); if (Fifo) m.pop_front(); else m.pop_back(); }
  vc_check(s.empty(), "empty at the end"); vc_ran();
}
VCB(C02, bounded_history) { for (uint64_t i = 0; vc_more() && i < (vcrt::thorough ? 100000u : 3000u); ++i) { seq_history<chdr::stack<int>, int, false>(vcrt::seed * 1000003 + i); seq_history<chdr::stack<item>, item, false>(i); } }
VCB(C03, bounded_history) { for (uint64_t i = 0; vc_more() && i < (vcrt::thorough ? 100000u : 3000u); ++i) { seq_history<chdr::queue<int>, int, true>(vcrt::seed * 1000003 + i); seq_history<chdr::queue<item>, item, true>(i); } }
#endif
