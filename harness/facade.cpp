// S01, S05: solver<S, params>::solve, for every S: S is the contract `probe` below (a search returns some route or throws).
#include "vc.hpp"
#include "mem.hpp"
#include "chdr.hpp"
namespace fa {
using u32 = uint32_t;
struct failure { int i; };
struct ghost {
  int searches, resets[3], releases[3]; bool search_throws, reset_throws[3]; int first;      // first: what was thrown first, -1: nothing
  size_t len; u32 at, val[4];
  const void* params; u32 i0, i1; bool in0, in1, on0, on1;
};
inline ghost G;
inline void raise(int i) { if (G.first < 0) G.first = i; throw failure{ i }; }
struct pool {
  int k;
  void reset() { ++G.resets[k]; if (G.reset_throws[k]) raise(1 + k); }
  void release() { ++G.releases[k]; if (G.reset_throws[k]) raise(1 + k); }
};
struct unresettable { int k; };
struct cell { bool on; bool is_active() const { return on; } };
struct maze {       // an arbitrary maze: any index may be absent, any node blocked
  bool contains(u32 i) const { vc_check(i == G.i0 || i == G.i1, "the maze is asked about the ends of the route"); return i == G.i0 ? G.in0 : G.in1; }
  cell operator[](u32 i) const { vc_check(i == G.i0 ? G.in0 : i == G.i1 && G.in1, "only a node of the maze is read"); return { i == G.i0 ? G.on0 : G.on1 }; }
  size_t count() const { return 1; }
};
template <size_t K, bool KEEP, class POOL = pool> struct params {
  using weight_type = bool; using scalar_type = u32; using index_type = u32; using coord_type = chdr::coord<u32, K>;
  using lazy_sorting = std::true_type; using no_cleanup = std::bool_constant<KEEP>; using reverse_equivalence = std::true_type; using octile_neighbours = std::false_type;
  const maze maze_; const coord_type start, end, size; POOL *monotonic_pmr, *heterogeneous_pmr, *homogeneous_pmr; const u32 tag;
  const fa::maze& maze = maze_;
};
template <class P> struct probe {
  static std::vector<typename P::coord_type> invoke(const P& p) {
    vc_check(G.params == nullptr || G.params == &p, "the search gets the parameters given"); vc_check(p.tag == G.at, "the search gets the parameters given");
    ++G.searches;
    if (G.search_throws) raise(0);
    std::vector<typename P::coord_type> r; for (size_t i = 0; i < G.len; ++i) { typename P::coord_type c{}; c[0] = G.val[i]; r.push_back(c); }
    return r;
  }
};
enum { RESULT = 1, CLEAN = 2 };
inline void ck(int what, int w, bool c, const char* m) { if (what & w) vc_check(c, m); }
template <size_t K, bool KEEP, int FORM, class POOL = pool> void run(int what) {
  using P = params<K, KEEP, POOL>; using C = typename P::coord_type; using S = chdr::solvers::solver<probe, P>;
  C size{}, a{}, b{}; u32 ia = 0, ib = 0;
  static const u32 dims[3] = { 5, 3, 4 };
  u32 m = 1; for (size_t k = 0; k < K; ++k) { u32 x = K == 1 ? vc_u32() : dims[k]; vc_assume(x >= 1); size[k] = x; a[k] = vc_u32(); b[k] = vc_u32(); vc_assume(a[k] < x && b[k] < x); ia += a[k] * m; ib += b[k] * m; m *= x; }
  G = ghost{}; G.first = -1; G.i0 = ia; G.i1 = ib; G.in0 = vc_bool(); G.on0 = vc_bool(); G.in1 = vc_bool(); G.on1 = vc_bool(); if (vc_case(ia == ib)) { G.in1 = G.in0; G.on1 = G.on0; }
  G.search_throws = vc_bool(); for (auto& t : G.reset_throws) t = vc_bool(); G.at = vc_u32();
  G.len = vc_u32_lt(3); for (auto& v : G.val) v = vc_u32();
  POOL p0{ 0 }, p1{ 1 }, p2{ 2 }; POOL* q[3] = { vc_bool() ? &p0 : nullptr, vc_bool() ? &p1 : nullptr, vc_bool() ? &p2 : nullptr };
  int thrown = -1; bool other = false; std::vector<C> r;
  try {
    if constexpr (FORM == 0) { const P par{ {}, a, b, size, q[0], q[1], q[2], G.at }; G.params = &par; r = S::solve(par); }
    else if constexpr (FORM == 1) r = S::solve(maze{}, a, b, size, q[0], q[1], q[2], G.at);
    else { const P par{ {}, a, b, size, q[0], q[1], q[2], G.at }; G.params = &par; S s; r = s(par); }
  } catch (failure& f) { thrown = f.i; } catch (...) { other = true; }
  const bool usable = G.in0 && G.on0 && G.in1 && G.on1, search = usable && ia != ib;
  ck(what, RESULT | CLEAN, !other && thrown == G.first, "the first exception is passed on, and no other");
  ck(what, RESULT, G.searches == (search ? 1 : 0), "one search runs, unless the ends are blocked, absent or the same");
  if (thrown < 0 && !other) {
    if (!usable) { vc_cover("no ends"); ck(what, RESULT, r.empty(), "there is no route from or to a node that is blocked or absent"); }
    else if (!search) { vc_cover("same ends"); ck(what, RESULT, r.size() == 1 && r[0] == b, "the route to the same node is that node"); }
    else { vc_cover("a search"); ck(what, RESULT, r.size() == G.len, "the route of the search is returned"); for (size_t i = 0; i < G.len && i < r.size(); ++i) ck(what, RESULT, r[i][0] == G.val[i], "the route of the search is returned unchanged"); }
  }
  for (int k = 0; k < 3; ++k) {
    ck(what, CLEAN, G.resets[k] == (KEEP || !q[k] || !std::is_same_v<POOL, pool> ? 0 : 1), "each memory resource is reset exactly once, also when an exception is passed on, and never where the caller keeps it");
    ck(what, CLEAN, G.releases[k] == 0, "no memory resource is released");
  }
}
template <class POOL = pool> void drop() {
  using P = params<1, false, POOL>; using S = chdr::solvers::solver<probe, P>;
  G = ghost{}; G.first = -1; for (auto& t : G.reset_throws) t = vc_bool();
  POOL p0{ 0 }, p1{ 1 }, p2{ 2 }; POOL* q[3] = { vc_bool() ? &p0 : nullptr, vc_bool() ? &p1 : nullptr, vc_bool() ? &p2 : nullptr };
  const P par{ {}, { 0 }, { 0 }, { 1 }, q[0], q[1], q[2], 0 }; int thrown = -1;
  bool rel = vc_bool();
  try { if (rel) S::solver_utils::release_resources(par); else S::solver_utils::reset_resources(par); } catch (failure& f) { thrown = f.i; }
  vc_check(thrown == G.first, "the first exception is passed on");
  for (int k = 0; k < 3; ++k) { vc_check(G.releases[k] == (q[k] && rel ? 1 : 0), "each memory resource is released exactly once"); vc_check(G.resets[k] == (q[k] && !rel ? 1 : 0), "each memory resource is reset exactly once"); }
  vc_cover("released");
}
}
using namespace fa;
VC(S01, solve_1d) { run<1, false, 0>(RESULT); }
VC(S01, solve_2d) { run<2, false, 0>(RESULT); }
VC(S01, solve_3d) { run<3, false, 0>(RESULT); }
VC(S01, solve_2d_keep) { run<2, true, 0>(RESULT); }
VC(S01, solve_from_arguments) { run<2, false, 1>(RESULT); }
VC(S01, call_operator) { run<2, false, 2>(RESULT); }
VC(S05, clean_1d) { run<1, false, 0>(CLEAN); }
VC(S05, clean_2d) { run<2, false, 0>(CLEAN); }
VC(S05, clean_2d_keep) { run<2, true, 0>(CLEAN); }
VC(S05, clean_from_arguments) { run<2, false, 1>(CLEAN); }
VC(S05, clean_call_operator) { run<2, false, 2>(CLEAN); }
VC(S05, clean_without_reset) { run<2, false, 0, unresettable>(CLEAN); }
VC(S05, release_and_reset) { drop(); }
