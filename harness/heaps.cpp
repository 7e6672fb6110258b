// C04: the heap hands out the greatest element.  C05: the heap holds exactly the elements put in and not taken out.
// vc-opts up_2 {"heap": {"Kd": 2, "verify": "sort_up"}}
// vc-opts up_3 {"heap": {"Kd": 3, "verify": "sort_up"}}
// vc-opts up_4 {"heap": {"Kd": 4, "verify": "sort_up"}}
// vc-opts down_2 {"heap": {"Kd": 2, "verify": "sort_down"}}
// vc-opts down_3 {"heap": {"Kd": 3, "verify": "sort_down"}}
// vc-opts down_4 {"heap": {"Kd": 4, "verify": "sort_down"}}
// vc-opts op_\w+_2$ {"heap": {"Kd": 2}}
// vc-opts op_\w+_3$ {"heap": {"Kd": 3}}
// vc-opts op_\w+_4$ {"heap": {"Kd": 4}}
// vc-opts heapify_\w+_2$ {"heap": {"Kd": 2, "L": "index"}}
// vc-opts heapify_\w+_3$ {"heap": {"Kd": 3, "L": "index"}}
// vc-opts (copies_|nosort|fresh) {"heap": {"Kd": 2}}
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
struct by_key { bool operator()(const uint64_t& a, const uint64_t& b) const { return vc_key(a) < vc_key(b); } };
// An arbitrary ordered heap: any size, any spare capacity, any elements in heap order.
template <size_t Kd> struct any_heap {
  using H = chdr::heap<uint64_t, by_key, std::pmr::vector<uint64_t>, Kd>; using V = std::pmr::vector<uint64_t>;
  any_resource res; size_t n, cap; uint64_t* data; uint64_t x; int64_t before; alignas(H) unsigned char mem[sizeof(H)];
  H& h() { return *reinterpret_cast<H*>(mem); } V& v() { return *reinterpret_cast<V*>(mem); }
  explicit any_heap(bool ordered = true, bool count = true) {
    n = vc_u64(); cap = vc_u64(); x = vc_u64(); vc_assume(n < cap); vc_assume(cap < VC_HUGE); static_assert(sizeof(H) >= sizeof(V));
    ::new ((void*)mem) H(&res); data = (uint64_t*)vc_array(cap, 8); vc_layout(data, 0, 8, -1);
    if (ordered) vc_heap_order(data, n, Kd);
    auto& im = v()._M_impl; im._M_start = data; im._M_finish = data + n + 1; im._M_end_of_storage = data + cap;
    before = count ? vc_occ(data, n, x) : 0;
  }
  static size_t parent(size_t k) { return (k + Kd - 2) / Kd; }
  const uint64_t* now() { return v().data(); }
  // the heap is ordered, has m elements, and its elements are the old ones changed by delta occurrences of x
  void after(size_t m, int64_t delta) {
    vc_check(h().size() == m && h().empty() == (m == 0), "the number of elements");
    size_t k = vc_u64(); if (vc_case(k >= 2 && k <= m)) vc_check(vc_key(now()[k]) <= vc_key(now()[parent(k)]), "no element precedes its parent");
    vc_check(vc_occ(now(), m, x) == before + delta, "the elements are the old ones, plus those put in, minus those taken out");
    vc_cover("end");
  }
};
template <size_t Kd> void up()   { any_heap<Kd> a(false); size_t i = vc_u64(); vc_assume(i >= 1 && i <= a.n); a.h().sort_up(a.data[i]); vc_cover("end"); }
template <size_t Kd> void down() { any_heap<Kd> a(false); size_t i = vc_u64(); vc_assume(i >= 1 && i <= a.n); a.h().sort_down(a.data[i]); vc_cover("end"); }
#ifndef VC_NATIVE       // natively the callers below run the same code
VC(C04, up_2) { up<2>(); }
VC(C04, up_3) { up<3>(); }
VC(C04, up_4) { up<4>(); }
VC(C04, down_2) { down<2>(); }
VC(C04, down_3) { down<3>(); }
VC(C04, down_4) { down<4>(); }
#endif
template <size_t Kd> void push() { any_heap<Kd> a; uint64_t e = vc_u64(); unsigned how = vc_u32_lt(5);
  if (vc_case(how == 0)) a.h().push(e); else if (vc_case(how == 1)) { uint64_t t = e; a.h().push(std::move(t)); } else if (vc_case(how == 2)) a.h().emplace(e);
  else if (vc_case(how == 3)) a.h().enqueue((const uint64_t&)e); else a.h().enqueue(uint64_t(e));
  a.after(a.n + 1, e == a.x); }
template <size_t Kd> void pop() { any_heap<Kd> a; vc_assume(a.n > 0); uint64_t t = a.h().top(); vc_check(t == a.data[1] && a.h().front() == t && *a.h().begin() == t, "top is the root"); 
  if (vc_case(vc_bool())) a.h().pop(); else { uint64_t d = a.h().dequeue(); vc_check(d == t, "dequeue returns the top"); } a.after(a.n - 1, -(int64_t)(t == a.x)); }
template <size_t Kd> void pop_back() { any_heap<Kd> a; vc_assume(a.n > 0); uint64_t t = a.h().back(); vc_check(t == a.data[a.n], "back is the last element"); a.h().pop_back(); a.after(a.n - 1, -(int64_t)(t == a.x)); }
template <size_t Kd> void erase() { any_heap<Kd> a; size_t i = vc_u64(); vc_assume(i >= 1 && i <= a.n); vc_assume(a.n < 1u << 30); uint64_t t = a.data[i];
  if (vc_case(vc_bool())) a.h().erase(*(a.h().begin() + (i - 1))); else a.h().erase(a.h().begin() + (i - 1)); a.after(a.n - 1, -(int64_t)(t == a.x)); }
// the root precedes no element: induction over the index (the parent has a smaller index)
template <size_t Kd> void greatest() { any_heap<Kd> a; size_t j = vc_u64(); vc_assume(j >= 2 && j <= a.n); size_t p = a.parent(j); vc_check(p >= 1 && p < j, "the parent comes before its children");
  vc_assume(vc_key(a.data[p]) <= vc_key(a.data[1])); vc_check(vc_key(a.data[j]) <= vc_key(a.h().top()), "no element is greater than the top"); vc_cover("end"); }
VC(C04, op_push_2) { push<2>(); }
VC(C04, op_push_3) { push<3>(); }
VC(C04, op_push_4) { push<4>(); }
VC(C04, op_pop_2) { pop<2>(); }
VC(C04, op_pop_3) { pop<3>(); }
VC(C04, op_pop_4) { pop<4>(); }
VC(C04, op_pop_back_2) { pop_back<2>(); }
VC(C04, op_erase_2) { erase<2>(); }
VC(C04, op_erase_3) { erase<3>(); }
VC(C04, op_greatest_2) { greatest<2>(); }
VC(C04, op_greatest_3) { greatest<3>(); }
VC(C04, op_greatest_4) { greatest<4>(); }
// C05
template <class H> void ordered(H& h, size_t m, size_t Kd) { vc_check(h.size() == m, "the number of elements"); size_t k = vc_u64(); const uint64_t* d = &*h.begin() - 1;
  if (vc_case(k >= 2 && k <= m)) vc_check(vc_key(d[k]) <= vc_key(d[(k + Kd - 2) / Kd]), "no element precedes its parent"); }
template <size_t Kd> void build() { using H = typename any_heap<Kd>::H; using V = std::pmr::vector<uint64_t>; any_resource r; size_t n = vc_u64(), cap = vc_u64(); uint64_t x = vc_u64(); vc_assume(n <= cap && cap < VC_HUGE && n < VC_HUGE - 8 && n > 0);
  uint64_t* d = (uint64_t*)vc_array(cap + 1, 8); vc_layout(d, 0, 8, -1); int64_t before = vc_occ(d, n, x); uint64_t* f = d + 1;
  alignas(V) unsigned char mem[sizeof(V)]; auto& v = *::new ((void*)mem) V(&r); auto& im = v._M_impl; im._M_start = f; im._M_finish = f + n; im._M_end_of_storage = f + cap;
  alignas(H) unsigned char hm[sizeof(H)]; H* h = vc_case(vc_bool()) ? ::new ((void*)hm) H((const V&)v) : ::new ((void*)hm) H(std::move(v));
  ordered(*h, n, Kd); vc_check(vc_occ(&*h->begin() - 1, n, x) == before, "the heap holds the elements of the container"); vc_cover("end"); }
template <size_t Kd> void cut_range() { any_heap<Kd> a(true, false); size_t i = vc_u64(), k = vc_u64(); vc_assume(i >= 1 && i <= a.n && k <= a.n && i + k <= a.n + 1); a.h().erase(a.h().begin() + (i - 1), a.h().begin() + (i - 1 + k)); ordered(a.h(), a.n - k, Kd); vc_cover("end"); }
VC(C05, heapify_build_2) { build<2>(); }
VC(C05, heapify_build_3) { build<3>(); }
VC(C05, heapify_range_2) { cut_range<2>(); }
VC(C05, heapify_range_3) { cut_range<3>(); }

template <size_t Kd> void copies() { any_heap<Kd> a(true, false), b(true, false); using H = typename any_heap<Kd>::H; size_t i = vc_u64(); vc_assume(i < a.n); uint64_t w = a.data[i + 1]; size_t an = a.n, bn = b.n; unsigned how = vc_shard();
  auto same = [&](const H& h) { vc_check(h.size() == an && h.at(i) == w && h[i] == w && *(h.begin() + i) == w && *(h.cbegin() + i) == w, "the same elements in the same places"); };
  if (how == 0) { H c(a.h()); same(c); same(a.h()); } else if (how == 1) { H c(std::move(a.h())); same(c); }
  else if (how == 2) { b.h() = a.h(); same(b.h()); same(a.h()); } else if (how == 3) { b.h() = std::move(a.h()); same(b.h()); }
  else if (how == 4) { a.h().reserve(vc_u64_lt(1u << 20)); same(a.h()); }
  else if (how == 5) { const H& c = a.h(); same(c); vc_check(c.top() == a.data[1] && c.front() == a.data[1] && c.back() == a.data[an], "front and back"); vc_check((size_t)(c.end() - c.begin()) == an, "iteration covers the elements"); vc_check(a.h().contains(a.data[i + 1]), "an element of the heap is contained"); }
  else { a.h().clear(); vc_check(a.h().empty() && a.h().size() == 0, "a cleared heap is empty"); } vc_cover("end"); }
// vc-opts copies_ {"shards": 7}
VC(C05, copies_2) { copies<2>(); }
VC(C05, copies_3) { copies<3>(); }
VC(C05, fresh) { using H = any_heap<2>::H; any_resource r; size_t k = vc_u64(); vc_assume(k < VC_HUGE); H h(&r), g(k, &r); vc_check(h.empty() && g.empty() && h.size() == 0 && h.begin() == h.end() && g.begin() == g.end(), "a new heap is empty"); vc_cover("end"); }
VC(C05, nosort) { any_heap<2> a(true, false); uint64_t e = vc_u64(); size_t i = vc_u64(); vc_assume(i < a.n); uint64_t w = a.data[i + 1]; if (vc_case(vc_bool())) a.h().push_nosort(e); else a.h().emplace_nosort(e);
  vc_check(a.h().size() == a.n + 1 && a.h().back() == e && a.h()[i] == w, "the element is added at the end"); vc_cover("end"); }
// a bound finds an element that is not less (greater) than the value, or there is none: by greatest, none is when the root is not
VC(C05, op_bounds_2) { any_heap<2> a(true, false); uint64_t v = vc_u64(); auto lo = a.h().lower_bounds(v), up = a.h().upper_bounds(v); uint64_t t = a.n ? vc_key(a.data[1]) : 0;
  if (vc_case(a.n > 0 && t >= vc_key(v))) vc_check(lo != a.h().end() && vc_key(*lo) >= vc_key(v), "an element not less than the value"); else vc_check(lo == a.h().end(), "no element is that great");
  if (vc_case(a.n > 0 && t > vc_key(v))) vc_check(up != a.h().end() && vc_key(*up) > vc_key(v), "an element greater than the value"); else vc_check(up == a.h().end(), "no element is greater"); vc_cover("end"); }
#ifdef VC_NATIVE
#include <algorithm>
struct job { int key = 0, id = 0; std::string tag; job() {} job(int k, int i) : key(k), id(i), tag("a text that does not fit the small buffer " + std::to_string(i)) {} bool operator==(const job& o) const { return key == o.key && id == o.id && tag == o.tag; } bool operator<(const job& o) const { return key < o.key; } };
struct min_first { bool operator()(const job& a, const job& b) const { return b < a; } };
template <class Cmp, size_t Kd, bool Contents> void heap_history(uint64_t seed) {
  using H = chdr::heap<job, Cmp, std::pmr::vector<job>, Kd>; std::mt19937_64 r(seed); H h; std::vector<job> m; int id = 0, keys = 1 + r() % 30; std::string ops = vc_fmt("seed %llu Kd %zu:", (unsigned long long)seed, Kd); Cmp cmp;
  auto out = [&](const job& j) { auto it = std::find(m.begin(), m.end(), j); vc_check(it != m.end(), "an element that was put in and not taken out"); m.erase(it); };
  auto best = [&](const job& j) { for (auto& e : m) vc_check(!cmp(j, e), "the greatest element"); };
  for (int i = 0; i < 90; ++i) {
    unsigned op = r() % (Contents ? 22 : 12); job j((int)(r() % keys), id++); ops += vc_fmt(" %u(%d)", op, j.key); vc_note("operations " + ops);
    switch (op) {
      case 0: case 1: h.push(j); m.push_back(j); break; case 2: case 3: h.emplace(j.key, j.id); m.push_back(j); break; case 4: m.push_back(j); h.push(std::move(j)); break; case 5: h.enqueue(j); m.push_back(j); break;
      case 6: case 7: if (!m.empty()) { job t = h.top(); best(t); h.pop(); out(t); } break; case 8: if (!m.empty()) { job t = h.dequeue(); best(t); out(t); } break;
      case 9: if (!m.empty()) { job t = h.back(); h.pop_back(); out(t); } break;
      case 10: case 11: if (!m.empty()) { size_t k = r() % m.size(); job t = h[k]; if (op == 10) h.erase(*(h.begin() + k)); else h.erase(h.begin() + k); out(t); } break;
      case 12: { H g(h); if (r() & 1) h = g; else h = std::move(g); break; } case 13: { H g(std::move(h)); h = H(); h.swap(g); break; } case 14: if (r() % 8 == 0) { h.clear(); m.clear(); } break;
      case 15: { std::pmr::vector<job> v; for (unsigned q = r() % 12; q; --q) { v.emplace_back((int)(r() % keys), id++); } for (auto& e : h) v.push_back(e); m.assign(v.begin(), v.end()); if (r() & 1) h = H((const std::pmr::vector<job>&)v); else h = H(std::move(v)); break; }
      case 16: { std::vector<job> v; for (unsigned q = r() % 5; q; --q) v.emplace_back((int)(r() % keys), id++); h.insert(v.begin(), v.end()); m.insert(m.end(), v.begin(), v.end()); break; }
      case 17: if (!m.empty()) { size_t a = r() % (m.size() + 1), b = a + r() % (m.size() + 1 - a); std::vector<job> gone(h.begin() + a, h.begin() + b); h.erase(h.begin() + a, h.begin() + b); for (auto& e : gone) out(e); } break;
      case 18: h.reserve(r() % 200); break; case 19: h.shrink_to_fit(); break; case 20: case 21: { m.push_back(j); auto p = h.begin() + r() % (h.size() + 1); auto q = op == 20 ? h.insert(p, j) : h.insert(p, job(j)); vc_check(*q == j, "the iterator returned by insert points to the element"); break; } }
    vc_check(h.size() == m.size() && h.empty() == m.empty(), "size");
    if (!m.empty()) { const H& c = h; best(c.top()); vc_check(c.top() == c.front() && c.top() == h.top() && c.back() == h.back(), "front and back"); }
    std::vector<job> all(h.begin(), h.end()), rev(h.rbegin(), h.rend()); std::reverse(rev.begin(), rev.end()); vc_check(all == rev, "reverse iteration visits the same elements"); vc_check(all.size() == m.size() && std::is_permutation(all.begin(), all.end(), m.begin()), "iteration visits exactly the elements");
  }
  while (!m.empty()) { job t = h.dequeue(); best(t); out(t); } vc_check(h.empty(), "empty at the end"); vc_ran();
}
template <bool C> void heap_histories() { for (uint64_t i = 0; vc_more() && i < (vcrt::thorough ? 100000u : 1500u); ++i) { uint64_t s = vcrt::seed * 1000003 + i; heap_history<std::less<job>, 2, C>(s); heap_history<min_first, 2, C>(s + 7); heap_history<min_first, 3, C>(s); heap_history<std::less<job>, 4, C>(s); heap_history<min_first, 5, C>(s); } }
VCB(C04, bounded_history) { heap_histories<false>(); }
VCB(C05, bounded_history) { heap_histories<true>(); }
#endif
