// S02: the functions that turn a chain of nodes into a route, for chains of any length.
// vc-opts S02__route_\w*1d {"bytewise": "std::array<unsigned int, \\d+ul>", "chain": {"fn": "solver_utils::[ri]backtrack", "es": 4}, "replace": {"chdr::utils::to_nd<": "vch_coordinate1"}}
// vc-opts S02__route_\w*2d {"bytewise": "std::array<unsigned int, \\d+ul>", "chain": {"fn": "solver_utils::[ri]backtrack", "es": 8}, "replace": {"chdr::utils::to_nd<": "vch_coordinate2"}}
// vc-opts S02__route_\w*3d {"bytewise": "std::array<unsigned int, \\d+ul>", "chain": {"fn": "solver_utils::[ri]backtrack", "es": 12}, "replace": {"chdr::utils::to_nd<": "vch_coordinate3"}}
#include "vc.hpp"
#include "mem.hpp"
#include <chdr.hpp>
namespace rt {
using u32 = uint32_t;
template <size_t K> using C = chdr::coord<u32, K>;
template <class P> struct none { static std::vector<typename P::coord_type> invoke(const P&) { return {}; } };
template <size_t K> struct params { using weight_type = bool; using scalar_type = u32; using index_type = u32; using coord_type = C<K>; using no_cleanup = std::true_type; using lazy_sorting = std::true_type; using reverse_equivalence = std::true_type; using octile_neighbours = std::false_type; };
using unmanaged = chdr::solvers::unmanaged_node<u32>;
using managed = chdr::solvers::managed_node<u32>;
struct big final : unmanaged { u32 g, h; big(u32 i, const big* p) : unmanaged(i, p), g(1), h(2) {} };
}
#ifndef VC_NATIVE
namespace rt {
inline const void* S;
template <size_t K> inline C<K> coordinate(u32 i, const C<K>* size) {
  vc_check(size == S, "an index is converted with the size of the maze");
  C<K> r{}; for (size_t k = 0; k < K; ++k) r[k] = vc_fn(u32(k), i); return r;
}
template <class NODE, size_t K, bool REV, bool DEPTH> void run() {
  using U = typename chdr::solvers::solver<none, params<K>>::solver_utils;
  const size_t len = vc_u64(); vc_assume(len < (size_t(1) << 32));
  C<K> size{}; for (auto& x : size) x = vc_u32(); S = &size;
  auto* first = (NODE*)::operator new(sizeof(NODE));
  first->m_index = vc_chain_index(0);
  first->m_parent = vc_case(len == 0) ? nullptr : (NODE*)::operator new(sizeof(NODE));
  vc_chain(first, len, (char*)&first->m_index - (char*)first, (char*)&first->m_parent - (char*)first);
  const auto r = [&] {
    if constexpr (DEPTH) { if constexpr (REV) return U::rbacktrack(*first, size, len); else return U::rbacktrack_noreverse(*first, size, len); }
    else { if constexpr (REV) return U::rbacktrack(*first, size); else return U::rbacktrack_noreverse(*first, size); }
  }();
  vc_check(r.size() == len, "a route has one cell for every step");
  if (vc_case(len > 0)) {
    vc_cover("a route");
    const size_t j = vc_u64(); vc_assume(j < len);
    const u32 i = vc_chain_index(REV ? len - 1 - j : j);
    for (size_t k = 0; k < K; ++k) vc_check(r[j][k] == vc_fn(u32(k), i), REV ? "the route lists the cells of the chain from the root" : "the route lists the cells of the chain to the root");
  } else vc_cover("no steps");
}
}
extern "C" __attribute__((used, noinline)) auto vch_coordinate3(const rt::u32* i, const rt::C<3>* size) { return rt::coordinate<3>(*i, size); }
extern "C" __attribute__((used, noinline)) auto vch_coordinate2(const rt::u32* i, const rt::C<2>* size) { return rt::coordinate<2>(*i, size); }
extern "C" __attribute__((used, noinline)) auto vch_coordinate1(const rt::u32* i, const rt::C<1>* size) { return rt::coordinate<1>(*i, size); }
using namespace rt;
VC(S02, route_1d) { run<unmanaged, 1, true, false>(); }
VC(S02, route_forward_1d) { run<unmanaged, 1, false, false>(); }
VC(S02, route_depth_1d) { run<unmanaged, 1, true, true>(); }
VC(S02, route_depth_forward_1d) { run<unmanaged, 1, false, true>(); }
VC(S02, route_big_2d) { run<big, 2, true, false>(); }
VC(S02, route_big_forward_2d) { run<big, 2, false, false>(); }
VC(S02, route_managed_2d) { run<managed, 2, true, false>(); }
VC(S02, route_managed_forward_2d) { run<managed, 2, false, false>(); }
VC(S02, route_managed_depth_2d) { run<managed, 2, true, true>(); }
VC(S02, route_managed_depth_forward_2d) { run<managed, 2, false, true>(); }
VC(S02, route_3d) { run<unmanaged, 3, true, false>(); }
VC(S02, route_forward_3d) { run<unmanaged, 3, false, false>(); }
// The path of a search by iterative deepening: an array of nodes of any length.
namespace rt {
struct step { u32 m_index; };
template <bool REV> struct steps {
  const step* a; size_t n;
  size_t size() const { return n; } bool empty() const { return n == 0; }
  const step* begin() const { vc_check(!REV, "the path is read from its end"); return a; }
  const step* end() const { return a + n; }
  const step* rbegin() const { vc_check(REV, "the path is read from its beginning"); return a; }
  const step* rend() const { return a + n; }
  const step& operator[](size_t i) const { vc_check(i < n, "a node of the path"); return a[REV ? n - 1 - i : i]; }
};
template <size_t K, bool REV> void run_path() {
  using U = typename chdr::solvers::solver<none, params<K>>::solver_utils;
  const size_t len = vc_u64(); vc_assume(len > 0 && len < (size_t(1) << 32));
  C<K> size{}; for (auto& x : size) x = vc_u32(); S = &size;
  auto* first = (step*)vc_array(len, sizeof(step));
  vc_chain(first, len, sizeof(step), ~size_t(0));
  const steps<REV> p{ first, len };
  const auto r = [&] { if constexpr (REV) return U::ibacktrack(p, size); else return U::ibacktrack_noreverse(p, size); }();
  vc_check(r.size() == len, "a route has one cell for every node of the path");
  vc_cover("a route");
  const size_t j = vc_u64(); vc_assume(j < len);
  for (size_t k = 0; k < K; ++k) vc_check(r[j][k] == vc_fn(u32(k), first[j].m_index), "the route lists the cells of the path");
}
}
VC(S02, route_path_1d) { run_path<1, true>(); }
VC(S02, route_path_forward_1d) { run_path<1, false>(); }
VC(S02, route_path_2d) { run_path<2, true>(); }
VC(S02, route_path_forward_2d) { run_path<2, false>(); }
VC(S02, route_path_3d) { run_path<3, true>(); }
#endif
#ifdef VC_NATIVE
// Chains of given lengths through every variant, compared with the cells listed directly.
namespace rt {
template <class NODE, size_t K> inline void line(size_t len) {
  using U = typename chdr::solvers::solver<none, params<K>>::solver_utils;
  vc_note(vc_fmt("a chain of %zu steps in %zu dimensions, nodes of %zu bytes", len, K, sizeof(NODE)), 60);
  C<K> size{}; size.fill(3); size[0] = 1 << 20;
  auto at = [&](u32 i) { C<K> r{}; for (size_t k = 0; k < K; ++k) { r[k] = i % size[k]; i /= size[k]; } return r; };
  std::vector<NODE*> c; u32 seed = u32(vcrt::rng()) | 1;
  for (size_t i = 0; i <= len; ++i) c.push_back(new NODE(u32(i * seed % (1u << 20)), i ? c.back() : nullptr));
  auto expect = [&](const std::vector<C<K>>& r, bool rev, const char* m) {
    vc_check(r.size() == len, "a route has one cell for every step");
    for (size_t j = 0; j < len; ++j) vc_check(r[j] == at(c[rev ? j + 1 : len - j]->m_index), m);
  };
  const NODE& last = *c.back();
  expect(U::rbacktrack(last, size), true, "the route lists the cells of the chain from the root");
  expect(U::rbacktrack(last, size, len), true, "the route lists the cells of the chain from the root");
  expect(U::rbacktrack_noreverse(last, size), false, "the route lists the cells of the chain to the root");
  expect(U::rbacktrack_noreverse(last, size, len), false, "the route lists the cells of the chain to the root");
  for (auto* x : c) delete x;
  vc_ran();
}
struct plain final : unmanaged { plain(u32 i, const plain* p) : unmanaged(i, p) {} };
struct counted final : managed { counted(u32 i, counted* p) : managed(i, p) {} };
}
using namespace rt;
VCN(S02, lines) {
  size_t lens[] = { 0, 1, 2, 3, 255, 256, 65535, 65536, 65537, 70000 };
  for (size_t i = 0; vc_more(); ++i) { size_t n = i < 10 ? lens[i] : vcrt::rng() % (1u << (vcrt::rng() % 18)); line<plain, 2>(n); line<big, 1>(n); line<counted, 3>(n); line<plain, 3>(n); }
}
#endif
