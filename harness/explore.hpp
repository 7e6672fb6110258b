// Bounded native runs of the real solvers through solver<S, params>::solve (the proofs are in searches.cpp).
// Every maze of a few small sizes with every pair of ends, then random larger mazes, until the time is over.
#pragma once
#include "chdr.hpp"
#include "vc.hpp"
#ifdef VC_NATIVE
#include <memory>
#include <queue>
#include <unordered_map>
namespace ex {
using u32 = uint32_t;
enum { ROUTE = 1, COMPLETE = 2, SHORTEST = 4, MEMORY = 8, NODES = 16 };
// what is claimed of a solver
enum { ID = 1,            // repeated search: small mazes only
       JUMP = 2,          // octile two-dimensional grids only; the route is a list of jump points
       FLOOD = 4,         // answers whether the end can be reached
       OPT = 8,           // shortest routes on orthogonal grids
       OPT_SORTED = 16,   // the same, without lazy sorting
       OPT_OCT = 32,      // shortest routes on octile grids, too
       GRAPH = 64,        // works on mazes::graph
       OPT_GRAPH = 128,   // cheapest routes on graphs, without lazy sorting
       SLOW = 256,
       COUNTED = 512 };   // nodes count their successors and are given back      // medium mazes only
// ---- memory resources -----------------------------------------------------------------------------------------------
// checks that what is given back was handed out with that size and alignment, counts resets, and fails on demand
struct tpool : std::pmr::memory_resource {
  struct piece { size_t n, a; };
  std::unordered_map<void*, piece> out; std::pmr::memory_resource* up = nullptr; size_t resets = 0, releases = 0, allocs = 0; long fail_in = -1; bool one_size = false; size_t n1 = 0, a1 = 0; bool nodes = false;
  std::function<void()> up_reset;
  ~tpool() { drop(); }
  void drop() { if (!up) for (auto& o : out) ::operator delete(o.first, std::align_val_t(o.second.a)); out.clear(); }
  void* do_allocate(size_t n, size_t a) override {
    ++allocs;
    if (fail_in == 0) throw std::bad_alloc();
    if (fail_in > 0) --fail_in;
    if (one_size) { if (!n1) { n1 = n; a1 = a; } vc_check(n == n1 && a == a1, "requests from the homogeneous pool have one size and alignment"); }
    vc_check(n < (size_t(1) << 32), "no absurd amount of memory is requested");
    void* p = up ? up->allocate(n, a) : ::operator new(n, std::align_val_t(a)); out[p] = { n, a }; return p;
  }
  void do_deallocate(void* p, size_t n, size_t a) override {
    if (p == nullptr) return;
    auto it = out.find(p); vc_check(it != out.end(), "memory is given back to the pool it came from, once");
    vc_check(it->second.n == n && it->second.a == a, "memory is given back with the size and alignment it was requested with");
    if (nodes) vc_check(((const chdr::solvers::managed_node<u32>*)p)->count() == 0, "a node is given back when no node points to it");
    out.erase(it); if (up) up->deallocate(p, n, a); else ::operator delete(p, std::align_val_t(a));
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
  void reset() { ++resets; drop(); n1 = 0; if (up_reset) up_reset(); }
  void release() { ++releases; drop(); n1 = 0; if (up_reset) up_reset(); }
};
template <size_t K, bool REV, bool LAZY, bool OCT, class MAZE, bool KEEP = false, class W = bool> struct P {
  using weight_type = W; using scalar_type = u32; using index_type = u32; using coord_type = chdr::coord<u32, K>;
  using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::bool_constant<KEEP>; using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
  const MAZE& maze; const coord_type start, end, size;
  scalar_type (*h)(const coord_type&, const coord_type&) noexcept;
  tpool *monotonic_pmr, *heterogeneous_pmr, *homogeneous_pmr;
  const scalar_type weight; const size_t capacity; const size_t memory_limit;
};
template <class C> inline u32 zero(const C&, const C&) noexcept { return 0; }
template <class C> inline u32 half(const C& a, const C& b) noexcept { return chdr::heuristics::manhattan_distance<u32, C>(a, b) / 2; }
// |d(x, L) - d(y, L)| for the distances d from a landmark L
struct landmarks { std::vector<long> d; u32 size[8]; };
inline landmarks& landmark() { static landmarks l; return l; }
template <class C> inline u32 differential(const C& a, const C& b) noexcept {
  auto& l = landmark(); u32 x = 0, y = 0, m = 1; for (size_t k = 0; k < a.size(); ++k) { x += a[k] * m; y += b[k] * m; m *= l.size[k]; }
  long p = l.d[x], q = l.d[y]; return p < 0 || q < 0 ? 0 : u32(p > q ? p - q : q - p);
}
// ---- the oracle -----------------------------------------------------------------------------------------------------
template <size_t K> struct problem {
  using C = chdr::coord<u32, K>;
  C size; u32 n; std::vector<bool> blocked; std::vector<std::vector<std::pair<u32, u32>>> adj;      // edges with their costs
  u32 s = 0, e = 0; std::vector<long> cost, hops, tight; bool oct = false, graph = false;
  C nd(u32 i) const { C r{}; for (size_t k = 0; k < K; ++k) { r[k] = i % size[k]; i /= size[k]; } return r; }
  u32 id(const C& c) const { u32 r = 0, m = 1; for (size_t k = 0; k < K; ++k) { if (c[k] >= size[k]) return ~0u; r += c[k] * m; m *= size[k]; } return r; }
  bool next_to(u32 a, u32 b) const { auto A = nd(a), B = nd(b); u32 sum = 0, mx = 0; for (size_t k = 0; k < K; ++k) { u32 d = A[k] > B[k] ? A[k] - B[k] : B[k] - A[k]; sum += d; mx = std::max(mx, d); } return oct ? mx == 1 : sum == 1; }
  void grid_edges() { adj.assign(n, {}); for (u32 a = 0; a < n; ++a) if (!blocked[a]) for (u32 b = 0; b < n; ++b) if (!blocked[b] && next_to(a, b)) adj[a].push_back({ b, 1 }); }
  bool squeezes(u32 a, u32 b) const { if constexpr (K == 2) { auto A = nd(a), B = nd(b); if (A[0] == B[0] || A[1] == B[1]) return false; C x = A, y = A; x[0] = B[0]; y[1] = B[1]; return blocked[id(x)] && blocked[id(y)]; } else return false; }
  void measure() {
    auto bfs = [&](bool all) { std::vector<long> d(n, -1); std::vector<u32> q{ s }; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (auto& x : adj[q[i]]) if (d[x.first] < 0 && (all || !squeezes(q[i], x.first))) { d[x.first] = d[q[i]] + 1; q.push_back(x.first); } return d; };
    hops = bfs(true); tight = bfs(false);
    if (!graph) { cost = hops; return; }
    cost.assign(n, -1); using E = std::pair<long, u32>; std::priority_queue<E, std::vector<E>, std::greater<E>> q; q.push({ 0, s });
    while (!q.empty()) { auto [d, x] = q.top(); q.pop(); if (cost[x] >= 0) continue; cost[x] = d; for (auto& y : adj[x]) if (cost[y.first] < 0) q.push({ d + y.second, y.first }); }
  }
  long edge(u32 a, u32 b) const { long r = -1; for (auto& x : adj[a]) if (x.first == b && (r < 0 || x.second < r)) r = x.second; return r; }
  std::string text() const { std::string t = "size"; for (auto x : size) t += " " + std::to_string(x); t += graph ? " graph" : " blocked ";
    if (!graph) for (u32 i = 0; i < n; ++i) t += blocked[i] ? '1' : '0'; else for (u32 i = 0; i < n; ++i) for (auto& x : adj[i]) t += " " + std::to_string(i) + ">" + std::to_string(x.first) + ":" + std::to_string(x.second);
    return t + " start " + std::to_string(s) + " end " + std::to_string(e); }
};
// 0: a route; otherwise what is wrong. `total` is its cost.
template <class C, size_t K> inline const char* judge(const problem<K>& p, const std::vector<C>& v, bool jump, bool reversed, long& total) {
  std::vector<u32> w; for (auto& x : v) { u32 i = p.id(x); if (i == ~0u) return "a route stays inside the maze"; w.push_back(i); }
  if (reversed) std::reverse(w.begin(), w.end());
  for (auto x : w) if (p.blocked[x]) return "a route avoids blocked nodes";
  auto has = [&](u32 x) { return std::find(w.begin(), w.end(), x) != w.end(); };
  if (w.front() != p.s) { if (has(p.s)) return "a route begins at the start"; w.insert(w.begin(), p.s); }
  if (w.back() != p.e) { if (has(p.e)) return "a route ends at the end"; w.push_back(p.e); }
  total = 0;
  for (size_t i = 0; i + 1 < w.size(); ++i) {
    if (jump) {
      auto a = p.nd(w[i]), b = p.nd(w[i + 1]); u32 d[2]; for (int k = 0; k < 2; ++k) d[k] = a[k] > b[k] ? a[k] - b[k] : b[k] - a[k];
      if (!((d[0] == 0) != (d[1] == 0) || (d[0] == d[1] && d[0]))) return "the jump points of a route lie on lines";
      for (u32 m = std::max(d[0], d[1]); m; --m) { auto c = a; for (int k = 0; k < 2; ++k) c[k] += b[k] > a[k] ? 1 : b[k] < a[k] ? -1 : 0; if (p.edge(p.id(a), p.id(c)) < 0) return "every step of a route leads to a neighbour"; a = c; ++total; }
    } else { long c = p.edge(w[i], w[i + 1]); if (c < 0) return "every step of a route leads to a neighbour"; total += c; }
  }
  return nullptr;
}
inline int& what() { static int w; return w; }
inline long& tally(int i) { static long t[16]; return t[i]; }
inline void bad(int w, const char* m) { ++tally(w); if (what() & w) vcrt::fail(m); }
#ifdef VC_CALIBRATE
inline std::map<std::string, long>& seen() { static std::map<std::string, long> m; return m; }
inline void mark(const std::string& s) { if (!seen()[s]++) std::printf("%s   | %s\n", s.c_str(), vcrt::note.c_str()); }
#define VC_BAD(w, m) mark(m)
#else
#define VC_BAD(w, m) bad(w, m)
#endif
struct memory {
  tpool mo, he, ho; std::unique_ptr<chdr::monotonic_pool<>> rmo; std::unique_ptr<chdr::heterogeneous_pool<>> rhe; std::unique_ptr<chdr::homogeneous_pool<>> rho;
  explicit memory(bool real, bool nodes = false) { ho.one_size = true; ho.nodes = nodes; if (real) { rmo = std::make_unique<chdr::monotonic_pool<>>(); rhe = std::make_unique<chdr::heterogeneous_pool<>>(); rho = std::make_unique<chdr::homogeneous_pool<>>(); mo.up = rmo.get(); he.up = rhe.get(); ho.up = rho.get(); mo.up_reset = [this] { rmo->reset(); }; he.up_reset = [this] { rhe->reset(); }; ho.up_reset = [this] { rho->reset(); }; } }
  void counts(size_t& a) { a = mo.resets * 10000 + he.resets * 100 + ho.resets; }
};
enum { ZERO, METRIC, CHEBYSHEV, HALF, LANDMARK };
inline const char* estimate_name(int m) { const char* t[] = { "zero", "metric", "chebyshev", "half", "landmark" }; return t[m]; }
template <template <class> class S, int F, class P, size_t K, class M> inline void one(problem<K>& p, const M& maze, memory& m, u32 (*h)(const chdr::coord<u32, K>&, const chdr::coord<u32, K>&) noexcept, int metric, u32 weight, size_t capacity, bool rev, bool lazy, bool again) {
  using namespace chdr::solvers;
  const P par{ maze, p.nd(p.s), p.nd(p.e), p.size, h, &m.mo, &m.he, &m.ho, weight, capacity, size_t(-1) };
  vc_note(vc_fmt("rev %d lazy %d octile %d weight %u capacity %zu estimate %s, ", rev, lazy, p.oct, weight, capacity, estimate_name(metric)) + p.text(), vcrt::thorough ? 60 : 20);
  m.mo.resets = m.he.resets = m.ho.resets = 0; m.mo.fail_in = m.he.fail_in = m.ho.fail_in = -1;
  std::vector<typename P::coord_type> v;
  try { v = solver<S, P>::solve(par); } catch (...) { VC_BAD(ROUTE | COMPLETE | MEMORY, "a search that has its memory does not throw"); return; }
  alarm(0); vc_ran();
  constexpr bool keep = P::no_cleanup::value;
  if (what() & MEMORY) { size_t want = keep ? 0 : 1; if (m.mo.resets != want || m.he.resets != want || m.ho.resets != want) VC_BAD(MEMORY, "each memory resource is reset once after a search, or not at all where that is asked for"); }
  if constexpr ((F & COUNTED) && keep) if (what() & NODES) {
    // the nodes that are left: none if everything was expanded, otherwise those that some other node or an abandoned one points to
    using N = const chdr::solvers::managed_node<u32>;
    std::unordered_map<const void*, u32> kids;
    for (auto& o : m.ho.out) { N* x = (N*)o.first; if (x->m_parent) { if (!m.ho.out.count((void*)x->m_parent)) { VC_BAD(NODES, "the parent of a node is not given back"); return; } ++kids[x->m_parent]; } }
    for (auto& o : m.ho.out) { N* x = (N*)o.first; if (x->count() < kids[x]) VC_BAD(NODES, "a node counts all its successors"); if (x->count() == 0) VC_BAD(NODES, "a node without successors is given back"); }
    if (v.empty() && !m.ho.out.empty()) VC_BAD(NODES, "all nodes are given back when the search has seen everything");
  }
  if (keep) { m.mo.reset(); m.he.reset(); m.ho.reset(); }
  if (p.s == p.e) { if (v.size() != 1 || p.id(v[0]) != p.e) VC_BAD(ROUTE | COMPLETE, "the route to the same node is that node"); return; }
  const bool jump = F & JUMP;
  if (v.empty()) { if ((jump ? p.tight : p.hops)[p.e] >= 0) VC_BAD(COMPLETE, "a route is found where there is one"); }
  else {
    if (p.hops[p.e] < 0) VC_BAD(ROUTE, "no route is reported where there is none");
    else if (F & FLOOD) { if (v.size() != 1 || p.id(v[0]) != p.e) VC_BAD(ROUTE, "flood reports the end"); }
    else {
      long total = 0; const char* w = judge(p, v, jump, false, total);
      if (w) { const char* w2 = judge(p, v, jump, true, total);
#ifdef VC_CALIBRATE
        if (!w2) mark(vc_fmt("reversed rev%d", rev)); 
#endif
        if (!w2) w = nullptr; }
#ifdef VC_CALIBRATE
      else if (v.size() > 2) mark(vc_fmt("forward rev%d", rev));
      bool hs = p.id(v.front()) == p.s || p.id(v.back()) == p.s, he = p.id(v.front()) == p.e || p.id(v.back()) == p.e; mark(vc_fmt("rev%d start %d goal %d", rev, hs, he));
      if (!w && total != p.cost[p.e]) mark(vc_fmt("not shortest rev%d lazy%d oct%d graph%d metric%d weight%d K%d", rev, lazy, p.oct, p.graph, metric, weight, K));
      if (!w && total == p.cost[p.e]) mark(vc_fmt("shortest rev%d lazy%d oct%d graph%d metric%d weight%d K%d", rev, lazy, p.oct, p.graph, metric, weight, K));
#endif
      if (w) VC_BAD(ROUTE, w);
      else if (weight == 1 && (p.graph ? (F & OPT_GRAPH) && !lazy : p.oct ? (F & OPT_OCT) : (F & OPT) || ((F & OPT_SORTED) && !lazy)) && total != p.cost[p.e]) VC_BAD(SHORTEST, "no route is shorter than the one found");
    }
  }
  if (again && (what() & MEMORY)) {
    // the same search again, and with memory that runs out
    auto same = [&](const char* msg) { decltype(v) v2; try { v2 = solver<S, P>::solve(par); } catch (...) { VC_BAD(MEMORY, "a search that has its memory does not throw"); return; } if (v2 != v) VC_BAD(MEMORY, msg); if (keep) { m.mo.reset(); m.he.reset(); m.ho.reset(); } };
    same("a repeated search gives the same route");
    for (auto* q : { &m.mo, &m.he, &m.ho }) {
      size_t a0 = q->allocs; long most = 0;
      { size_t b0 = q->allocs; same("a repeated search gives the same route"); most = long(q->allocs - b0); (void)a0; }
      for (int t = 0; t < 2 && most; ++t) {
        long k = long(vcrt::rng() % size_t(most)); q->fail_in = k; bool thrown = false; m.mo.resets = m.he.resets = m.ho.resets = 0;
        vcrt::note += vc_fmt(" (%s request %ld of %ld fails)", q == &m.mo ? "monotonic" : q == &m.he ? "heterogeneous" : "homogeneous", k, most);
        try { auto r = solver<S, P>::solve(par); if (r != v) VC_BAD(MEMORY, "a search whose memory runs out fails or gives the route"); } catch (std::bad_alloc&) { thrown = true; } catch (...) { VC_BAD(MEMORY, "a search whose memory runs out ends with std::bad_alloc"); }
        q->fail_in = -1; size_t want = keep ? 0 : 1;
        if (m.mo.resets != want || m.he.resets != want || m.ho.resets != want) VC_BAD(MEMORY, "each memory resource is reset once after a search that failed");
        if (keep) { m.mo.reset(); m.he.reset(); m.ho.reset(); }
        (void)thrown; same("a search that ran out of memory leaves nothing behind");
      }
    }
  }
}
template <size_t K> inline problem<K> empty_problem(const chdr::coord<u32, K>& size, bool oct) { problem<K> p; p.size = size; p.n = 1; for (auto x : size) p.n *= x; p.oct = oct; p.blocked.assign(p.n, false); return p; }
inline size_t rnd(size_t n) { return vcrt::rng() % n; }
// ---- grids ------------------------------------------------------------------------------------------------------------
template <template <class> class S, int F, size_t K, bool REV, bool LAZY, bool OCT, bool KEEP, class W> inline void on_grid(problem<K>& p, memory& m, u32 weight, size_t capacity, int metric, bool again) {
  using C = chdr::coord<u32, K>; using M = chdr::mazes::grid<C, W>;
  auto cells = [&] { if constexpr (std::is_same_v<W, bool>) { std::vector<bool> c(p.blocked); return c; } else { std::vector<W> c; for (auto b : p.blocked) c.push_back(b ? std::numeric_limits<W>::max() : W(rnd(3))); return c; } }();
  const M maze(p.size, cells);
  auto h = zero<C>;
  if (metric == LANDMARK) { auto q = p; q.s = u32(rnd(p.n)); if (q.blocked[q.s]) q.s = p.s; q.measure(); landmark().d = q.hops; for (size_t k = 0; k < K; ++k) landmark().size[k] = p.size[k]; h = differential<C>; }
  else if (metric == HALF && !OCT) h = half<C>;
  else if (metric) h = OCT || metric == CHEBYSHEV ? chdr::heuristics::chebyshev_distance<u32, C> : chdr::heuristics::manhattan_distance<u32, C>;
  one<S, F, P<K, REV, LAZY, OCT, M, KEEP, W>>(p, maze, m, h, metric, weight, capacity, REV, LAZY, again);
}
template <template <class> class S, int F, size_t K, bool REV, bool LAZY, bool OCT, bool KEEP, class W> struct config {
  memory real{ true, (F & COUNTED) != 0 }, plain{ false, (F & COUNTED) != 0 };
  // all mazes of one size
  void all(const chdr::coord<u32, K>& size, size_t stride) {
    auto p = empty_problem<K>(size, OCT); size_t i = rnd(stride);
    for (u32 b = 0; b < (1u << p.n) && vc_more(); ++b) {
      for (u32 k = 0; k < p.n; ++k) p.blocked[k] = (b >> k) & 1;
      p.grid_edges();
      for (p.s = 0; p.s < p.n && vc_more(); ++p.s) if (!p.blocked[p.s]) { p.measure(); for (p.e = 0; p.e < p.n; ++p.e) if (!p.blocked[p.e] && i++ % stride == 0) on_grid<S, F, K, REV, LAZY, OCT, KEEP, W>(p, i % 2 ? real : plain, 1, 0, rnd(2) ? METRIC : int(rnd(5)), i % 16 == 0); }
    }
  }
  void random(u32 most) {
    chdr::coord<u32, K> size; u32 n = 1; for (auto& x : size) { x = 1 + u32(rnd(most)); n *= x; if (n > 400) x = 1; }
    auto p = empty_problem<K>(size, OCT); unsigned den = unsigned(rnd(6));
    for (u32 k = 0; k < p.n; ++k) p.blocked[k] = rnd(10) < den;
    if (rnd(3) == 0 && K >= 2) for (u32 k = 0; k < p.n; ++k) { auto c = p.nd(k); p.blocked[k] = (c[0] & 1) && (c[1] & 1 || rnd(8) != 0); }      // corridors
    p.s = u32(rnd(p.n)); p.e = u32(rnd(p.n)); p.blocked[p.s] = p.blocked[p.e] = false; p.grid_edges(); p.measure();
    on_grid<S, F, K, REV, LAZY, OCT, KEEP, W>(p, rnd(2) ? real : plain, 1, rnd(3) ? 0 : rnd(2 * p.n), int(rnd(5)), rnd(4) == 0);
  }
};
// ---- graphs -----------------------------------------------------------------------------------------------------------
template <template <class> class S, int F, bool REV, bool LAZY> struct on_graph {
  memory real{ true }, plain{ false };
  void random(u32 most) {
    using C = chdr::coord<u32, 2>; using M = chdr::mazes::graph<u32, u32>; chdr::coord<u32, 2> size{ 1 + u32(rnd(most)), 1 + u32(rnd(most)) };
    auto p = empty_problem<2>(size, false); p.graph = true; p.adj.assign(p.n, {});
    for (u32 i = 0; i < p.n; ++i) p.blocked[i] = rnd(8) == 0;
    p.s = u32(rnd(p.n)); p.e = u32(rnd(p.n)); p.blocked[p.s] = p.blocked[p.e] = false;
    bool unit = rnd(2) == 0;
    for (u32 i = 0; i < p.n; ++i) for (u32 j = 0; j < i; ++j) if (!p.blocked[i] && !p.blocked[j] && rnd(p.n) < 2) {
      auto a = p.nd(i), b = p.nd(j); u32 c = chdr::heuristics::manhattan_distance<u32, C>(a, b) + (unit ? 0 : u32(rnd(4)));
      p.adj[i].push_back({ j, c }); p.adj[j].push_back({ i, c }); }
    M maze; for (u32 i = 0; i < p.n; ++i) if (!p.blocked[i]) { maze.add(i); for (auto& x : p.adj[i]) maze.add(i, x); }
    p.measure(); bool metric = rnd(4) != 0;
    one<S, F, P<2, REV, LAZY, false, M>>(p, maze, rnd(2) ? real : plain, metric ? chdr::heuristics::manhattan_distance<u32, C> : zero<C>, metric ? METRIC : ZERO, 1, rnd(3) ? 0 : rnd(2 * p.n), REV, LAZY, rnd(4) == 0);
  }
};
template <template <class> class S, int F> inline void explore(int w) {
  what() = w; using chdr::coord;
  const size_t st = vcrt::thorough ? 1 : (w & MEMORY) ? 40 : 8; const u32 big = (F & ID) ? 4 : (F & SLOW) ? 6 : 12;
  if constexpr (F & JUMP) {
    config<S, F, 2, true, true, true, false, bool> a; config<S, F, 2, false, false, true, true, uint8_t> b;
    a.all({ 3, 3 }, st); b.all({ 2, 4 }, st); b.all({ 3, 3 }, 3 * st);
    while (vc_more()) { a.random(big); b.random(big); }
  } else {
    config<S, F, 2, true, true, false, false, bool> a; config<S, F, 2, false, true, false, true, uint8_t> b; config<S, F, 2, true, false, false, true, uint8_t> c; config<S, F, 2, false, false, false, false, bool> d;
    config<S, F, 2, true, true, true, false, uint8_t> o; config<S, F, 2, false, false, true, false, bool> o2; config<S, F, 3, true, false, false, false, bool> t; config<S, F, 1, false, false, false, false, bool> l; config<S, F, 4, true, true, false, false, uint8_t> f;
    a.all({ 3, 3 }, st); b.all({ 3, 2 }, st); c.all({ 3, 3 }, 3 * st); d.all({ 3, 3 }, 3 * st); o.all({ 2, 3 }, st); o2.all({ 3, 2 }, st); t.all({ 2, 2, 2 }, 2 * st); l.all({ 6 }, 1); f.all({ 1, 2, 1, 3 }, 1);
    if constexpr (F & GRAPH) {
      on_graph<S, F, false, true> g; on_graph<S, F, true, false> k;
      while (vc_more()) { a.random(big); b.random(big); c.random(big); d.random(big); o.random(big); o2.random(big); t.random(big < 5 ? 2 : 5); l.random(big * 3); f.random(big < 5 ? 2 : 4); g.random(big < 5 ? 3 : 5); k.random(big < 5 ? 3 : 5); }
    } else while (vc_more()) { a.random(big); b.random(big); c.random(big); d.random(big); o.random(big); o2.random(big); t.random(big < 5 ? 2 : 5); l.random(big * 3); f.random(big < 5 ? 2 : 4); }
  }
}
}
#endif
