// C01: the existence set is a set of hashes.
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
using set_t = chdr::existence_set<char>;
using vec_t = std::pmr::vector<char>;
// An arbitrary set: any size, any spare capacity, any content.
struct any_set {
  any_resource res; size_t n, cap; unsigned char* data;
  alignas(set_t) unsigned char mem[sizeof(set_t)];
  set_t& s() { return *reinterpret_cast<set_t*>(mem); }
  any_set() {
    n = vc_u64(); cap = vc_u64(); vc_assume(n <= cap); vc_assume(cap < VC_HUGE); 
    ::new ((void*)mem) set_t(&res);
    static_assert(sizeof(set_t) == sizeof(vec_t));
    data = (unsigned char*)vc_array(cap, 1); vc_layout(data, 0, 1, -1); own(data);
    auto& im = reinterpret_cast<vec_t*>(mem)->_M_impl; im._M_start = (char*)data; im._M_finish = (char*)data + n; im._M_end_of_storage = (char*)data + cap;
  }
  bool old(size_t i) const { return i < n && data[i] != 0; }
};
inline size_t hash() { size_t h = vc_u64(); vc_assume(h < VC_HUGE); return h; }
VC(C01, push) { any_set a; size_t h = hash(), p = vc_u64(); bool was = vc_case(a.old(p)); a.s().push(h); vc_check(a.s().contains(p) == (was || p == h), "after push(h) exactly h is added"); vc_cover("end"); }
VC(C01, emplace) { any_set a; uint32_t h = vc_u32(); size_t p = vc_u64(); bool was = vc_case(a.old(p)); a.s().emplace(h); vc_check(a.s().contains(p) == (was || p == h), "after emplace(h) exactly h is added"); vc_cover("end"); }
VC(C01, erase) { any_set a; size_t h = vc_u64(), p = vc_u64(); bool was = vc_case(a.old(p)); a.s().erase(h); vc_check(a.s().contains(p) == (was && p != h), "after erase(h) exactly h is gone"); vc_cover("end"); }
VC(C01, contains) { any_set a; size_t p = vc_u64(); bool was = a.old(p); const auto& s = a.s(); vc_check(s.contains(p) == was, "contains reads the set"); vc_check(s.size() == a.n && s.empty() == (a.n == 0), "size"); vc_cover("end"); }
VC(C01, allocate) { any_set a; size_t h = hash(), inc = vc_u64(), p = vc_u64(); vc_assume(inc < VC_HUGE); bool was = vc_case(a.old(p)); a.s().allocate(h, inc); vc_check(a.s().contains(p) == was, "allocating changes no member"); vc_cover("end"); }
VC(C01, allocate_max) { any_set a; size_t h = hash(), inc = vc_u64(), mx = vc_u64(), p = vc_u64(); vc_assume(inc < VC_HUGE); bool was = vc_case(a.old(p)); a.s().allocate(h, inc, mx); vc_check(a.s().contains(p) == was, "allocating changes no member"); vc_cover("end"); }
VC(C01, reserve) { any_set a; size_t k = vc_u64(), p = vc_u64(); vc_assume(k < VC_HUGE); bool was = vc_case(a.old(p)); a.s().reserve(k); vc_check(a.s().contains(p) == was, "reserving changes no member"); vc_check(a.s().capacity() >= k, "the capacity is reserved"); vc_cover("end"); }
VC(C01, clear) { any_set a; size_t p = vc_u64(); a.s().clear(); vc_check(!a.s().contains(p), "a cleared set is empty"); vc_cover("end"); }
VC(C01, fresh) { any_resource r; size_t k = vc_u64(), p = vc_u64(); vc_assume(k < VC_HUGE); set_t s(k, &r); vc_check(!s.contains(p), "a new set is empty"); set_t t(&r); vc_check(!t.contains(p), "a new set is empty"); vc_cover("end"); }
VC(C01, resize) { any_set a; size_t k = vc_u64(), p = vc_u64(); vc_assume(k < VC_HUGE); bool was = vc_case(a.old(p)); a.s().resize(k); vc_check(a.s().contains(p) == (was && p < k), "resizing keeps the members that fit and adds none"); vc_cover("end"); }
VC(C01, copy) { any_set a; size_t p = vc_u64(); bool was = vc_case(a.old(p)); set_t b(a.s()); vc_check(b.contains(p) == was, "a copy has the same members"); size_t h = hash(); b.push(h); vc_check(a.s().contains(p) == was, "and is independent"); vc_cover("end"); }
VC(C01, move) { any_set a; size_t p = vc_u64(); bool was = vc_case(a.old(p)); set_t b(std::move(a.s())); vc_check(b.contains(p) == was, "a moved set keeps its members"); vc_cover("end"); }
VC(C01, assign) { any_set a, b; size_t p = vc_u64(); bool was = vc_case(a.old(p)); b.s() = a.s(); vc_check(b.s().contains(p) == was, "an assigned set has the same members"); vc_check(a.s().contains(p) == was, "the source keeps them"); vc_cover("end"); }
VC(C01, move_assign) { any_set a, b; size_t p = vc_u64(); bool was = vc_case(a.old(p)); b.s() = std::move(a.s()); vc_check(b.s().contains(p) == was, "a move-assigned set has the same members"); vc_cover("end"); }
VC(C01, shrink) { any_set a; size_t p = vc_u64(); bool was = vc_case(a.old(p)); a.s().shrink_to_fit(); vc_check(a.s().contains(p) == was, "shrinking changes no member"); vc_cover("end"); }
#ifdef VC_NATIVE
#include <set>
template <class V> void history(uint64_t seed) {
  std::mt19937_64 r(seed); chdr::existence_set<V> s; std::set<size_t> m; std::string ops; size_t lim = 1 + r() % 40;
  for (int i = 0; i < 60; ++i) {
    size_t h = r() % lim; unsigned op = r() % 14; ops += vc_fmt(" %u(%zu)", op, h); vc_note("operations" + ops);
    switch (op) {
      case 0: case 1: s.push(h); m.insert(h); break; case 2: s.emplace((uint32_t)h); m.insert(h); break; case 3: { int k = (int)h; s.template push<int>(k); m.insert(std::hash<int>{}(k)); break; }
      case 4: case 5: s.erase(h); m.erase(h); break; case 6: s.allocate(h, r() % 20); break; case 7: s.reserve(h); break; case 8: s.trim(); break;
      case 9: s.shrink_to_fit(); break; case 10: s.resize(h); m.erase(m.lower_bound(h), m.end()); break; case 11: if (r() % 6 == 0) { s.clear(); m.clear(); } break;
      case 12: { chdr::existence_set<V> t(s); if (r() & 1) s = t; else s = std::move(t); break; } case 13: s.allocate(h, r() % 20, r() % 30); break; }
    for (size_t p = 0; p < lim + 3; ++p) vc_check(s.contains(p) == (m.count(p) != 0), "contains agrees with the set of pushed and not erased hashes");
    if (op == 8) vc_check(s.size() == (m.empty() ? 0 : *m.rbegin() + 1), "trimming ends the set at its last member");
  } vc_ran();
}
VCB(C01, bounded_history) { for (uint64_t i = 0; vc_more() && i < (vcrt::thorough ? 400000u : 12000u); ++i) { history<char>(vcrt::seed * 1000003 + i); history<bool>(vcrt::seed * 1000003 + i); history<uint16_t>(i); } }
#endif
