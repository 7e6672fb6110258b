// G04: a graph holds exactly the nodes and edges it was given.  G05: compiling a grid and pruning keep distances.
// vc-opts (add|remove|look|clear) {"bytewise": "std::pair<unsigned int, unsigned int>"}
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
#include <algorithm>
#ifndef VC_NATIVE
#include <unordered_map>
// Contract of std::unordered_map in the proofs: an arbitrary map whose entries stay where they are, of which the harness
// follows two keys: a, which the operation names, and p, any other.
using u32 = uint32_t; using u64 = uint64_t; using edge = std::pair<u32, u32>; using bucket = std::pmr::vector<edge>;
namespace gr {
struct entry { const u32 first; bucket second; };
struct ghost { u32 key[2]; bool in[2]; entry* e[2]; u64 n; std::pmr::memory_resource* r; edge val; u64 i, k, from, to; bool filtered, cleared; };
inline ghost G;
// A bucket of any size, any spare capacity, any edges.
inline void fill(bucket& b, bool empty = false) {
  u64 n = vc_u64(), cap = vc_u64(); vc_assume(n <= cap); vc_assume(cap < VC_HUGE); if (empty) vc_assume(n == 0);
  auto* d = (edge*)vc_array(cap, 8); vc_layout(d, 0, 4, 4, 4, -1);
  auto& im = b._M_impl; im._M_start = d; im._M_finish = d + n; im._M_end_of_storage = d + cap;
}
inline entry* fresh(u32 k) { auto* e = (entry*)::operator new(sizeof(entry)); ::new ((void*)e) entry{ k, bucket(G.r) }; return e; }
struct map {
  using key_type = u32; using mapped_type = bucket; using value_type = entry; using size_type = size_t;
  struct iterator { entry* p; entry* operator->() const { return p; } entry& operator*() const { return *p; } iterator& operator++() { vc_unreachable(); return *this; }
    friend bool operator==(iterator a, iterator b) { return a.p == b.p; } friend bool operator!=(iterator a, iterator b) { return a.p != b.p; } };
  using const_iterator = iterator;
  map() {} explicit map(std::pmr::memory_resource*) {} map(size_t, std::pmr::memory_resource*) {}
  map(const map&) = delete; map(map&&) noexcept {} map& operator=(map&&) noexcept { return *this; }
  static int which(u32 k) { if (vc_case(k == G.key[0])) return 0; if (vc_case(k == G.key[1])) return 1; vc_check(false, "only the node that was named is looked up"); return 0; }
  static entry* look(u32 k) { int w = which(k); if (!vc_case(G.in[w])) return nullptr; return G.e[w]; }
  static entry* made(u32 k, bool& was) { int w = which(k); was = vc_case(G.in[w]); if (was) return G.e[w]; G.in[w] = true; ++G.n; return G.e[w] = fresh(k); }
  iterator end() { return { nullptr }; } const_iterator end() const { return { nullptr }; }
  iterator begin() { return { (entry*)&G }; } const_iterator begin() const { return { (entry*)&G }; } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  iterator find(u32 k) { return { look(k) }; } const_iterator find(u32 k) const { return { look(k) }; }
  bool contains(u32 k) const { return look(k) != nullptr; } size_t count(u32 k) const { return look(k) != nullptr; }
  bucket& at(u32 k) { auto* x = look(k); if (x == nullptr) vc_throw(1); return x->second; } const bucket& at(u32 k) const { auto* x = look(k); if (x == nullptr) vc_throw(1); return x->second; }
  bucket& operator[](u32 k) { bool was; return made(k, was)->second; }
  size_t size() const { return G.n; } bool empty() const { return G.n == 0; }
  std::pair<iterator, bool> try_emplace(u32 k) { bool was; auto* x = made(k, was); return { { x }, !was }; }
  template <class B> std::pair<iterator, bool> try_emplace(u32 k, B&& b) { bool was; auto* x = made(k, was); if (!was) x->second = std::forward<B>(b); return { { x }, !was }; }
  template <class B> std::pair<iterator, bool> emplace(u32 k, B&& b) { return this->try_emplace(k, std::forward<B>(b)); }
  template <class B> std::pair<iterator, bool> insert(const std::pair<u32, B>& x) { return this->try_emplace(x.first, x.second); }
  size_t erase(u32 k) { int w = which(k); if (!vc_case(G.in[w])) return 0; G.in[w] = false; --G.n; return 1; }
  iterator erase(iterator i) { erase(i.p->first); return { nullptr }; }
  void clear() noexcept { G.cleared = true; G.in[0] = G.in[1] = false; G.n = 0; }
  void reserve(size_t) {}
};
using it = bucket::iterator;
// Contract of std::remove: what is left is what is unlike the value, in order: element k is the old element from >= k, which is
// unlike the value; and the old element i, if unlike the value, is now element to <= i.
inline it filter(it b, it e, const edge& x) {
  u64 n = u64(e - b); edge* d = n == 0 ? nullptr : &*b;
  vc_check(!vc_within(&x, d, n * 8), "the edge to remove is not itself overwritten while edges are removed");
  const edge v = x; G.filtered = true; G.val = v;
  u64 m = vc_u64(); vc_assume(m <= n);
  edge oi{}, of{}; bool keep = false;
  if (vc_case(G.i < n)) { oi = d[G.i]; keep = vc_case(!(oi == v)); }
  if (vc_case(G.k < m)) { G.from = vc_u64(); vc_assume(G.from < n); vc_assume(G.from >= G.k); of = d[G.from]; vc_assume(!(of == v)); }
  if (m < n) vc_assume(true);
  auto* c = (edge*)vc_array(n, 8); vc_layout(c, 0, 4, 4, 4, -1);
  if (keep) { G.to = vc_u64(); vc_assume(G.to <= G.i); vc_assume(G.to < m); vc_assume(c[G.to].first == oi.first); vc_assume(c[G.to].second == oi.second); }
  if (vc_case(G.k < m)) { vc_assume(c[G.k].first == of.first); vc_assume(c[G.k].second == of.second); }
  if (n != 0) __builtin_memcpy((void*)d, c, n * 8);
  return b + (long)m;
}
}
template <> class std::unordered_map<u32, bucket, std::hash<u32>, std::equal_to<u32>, std::pmr::polymorphic_allocator<std::pair<const u32, bucket>>> : public gr::map { public: using gr::map::map; };
template <> gr::it std::remove<gr::it, edge>(gr::it b, gr::it e, const edge& x) { return gr::filter(b, e, x); }
using graph = chdr::mazes::graph<u32, u32>; using namespace gr;
// An arbitrary graph.
struct any_graph {
  any_resource r; graph g; u32 a, p; bool ina, inp; u64 n; edge e{ 0, 0 }, pe{ 0, 0 }; u64 size = 0, psize = 0;
  explicit any_graph(bool has = false) : g(&r) {
    G = ghost{}; G.r = &r; a = vc_u32(); p = vc_u32(); vc_assume(a != p); G.key[0] = a; G.key[1] = p;
    ina = has || vc_case(vc_bool()); inp = vc_case(vc_bool()); G.in[0] = ina; G.in[1] = inp; n = G.n = vc_u64(); vc_assume(n >= u64(ina) + u64(inp)); vc_assume(n < (1ull << 32));
    G.i = vc_u64(); G.k = vc_u64();
    if (ina) { G.e[0] = fresh(a); fill(G.e[0]->second); size = G.e[0]->second.size(); if (vc_case(G.i < size)) e = G.e[0]->second[G.i]; }
    if (inp) { G.e[1] = fresh(p); fill(G.e[1]->second); psize = G.e[1]->second.size(); if (vc_case(G.i < psize)) pe = G.e[1]->second[G.i]; }
  }
  bucket& b() { return G.e[0]->second; }
  // the other nodes are as they were
  void others() {
    vc_check(g.contains(p) == inp, "no other node is added or removed");
    if (inp) { const auto& v = g.get_neighbours(p); vc_check(v.size() == psize, "another node keeps the number of its edges"); if (vc_case(G.i < psize)) vc_check(v[G.i] == pe, "another node keeps its edges"); }
    vc_cover("end");
  }
  void kept(const bucket& v) { if (vc_case(G.i < size)) vc_check(v[G.i] == e, "the edges it had are kept"); }
};
VC(G04, add_node) { any_graph x; x.g.add(x.a); vc_check(x.g.contains(x.a) && x.g.count() == x.n + !x.ina, "the node was added, once"); const auto& v = x.g.get_neighbours(x.a); vc_check(v.size() == x.size, "no edge was added"); x.kept(v); x.others(); }
VC(G04, add_edge) { any_graph x; edge e{ vc_u32(), vc_u32() }; x.g.add(x.a, e); vc_check(x.g.contains(x.a) && x.g.count() == x.n + !x.ina, "the node was added, once"); const auto& v = x.g.get_neighbours(x.a); vc_check(v.size() == x.size + 1, "one edge was added"); vc_check(v[x.size] == e, "the edge that was given was added"); x.kept(v); x.others(); }
VC(G04, add_own_edge) { any_graph x(true); u64 j = vc_u64(); vc_assume(j < x.size); const auto& own = x.g.get_neighbours(x.a)[j]; const edge e = own; x.g.add(x.a, own); const auto& v = x.g.get_neighbours(x.a); vc_check(v.size() == x.size + 1 && v[x.size] == e, "an edge of the node itself was added again"); x.kept(v); x.others(); }
inline void removed(any_graph& x, const edge& e) {
  if (!x.ina) { vc_check(!x.g.contains(x.a) && x.g.count() == x.n, "nothing is removed where no node is"); x.others(); return; }
  if (!x.g.contains(x.a)) {
    vc_check(x.g.count() == x.n - 1, "one node less");
    if (vc_case(G.i < x.size)) vc_check(x.e == e, "a node is removed only when no other edge of it is left");
    x.others(); return;
  }
  const auto& v = x.g.get_neighbours(x.a); vc_check(x.g.count() == x.n, "no node is removed with edges left"); vc_check(v.size() > 0, "a node without edges was removed"); vc_check(v.size() <= x.size, "no edge was added");
  if (vc_case(G.k < v.size())) { vc_check(!(v[G.k] == e), "the edge that was given is gone"); }
  if (vc_case(G.i < x.size)) if (vc_case(!(x.e == e))) vc_check(G.to < v.size() && v[G.to] == x.e, "the other edges are kept");
  x.others();
}
VC(G04, remove) { any_graph x; const edge e{ vc_u32(), vc_u32() }; x.g.remove(x.a, e); removed(x, e); }
VC(G04, remove_own_edge) { any_graph x(true); u64 j = vc_u64(); vc_assume(j < x.size); const auto& own = x.g.get_neighbours(x.a)[j]; const edge e = own; x.g.remove(x.a, own); removed(x, e); }
VC(G04, look) { any_graph x; const auto& g = x.g; vc_check(g.contains(x.a) == x.ina && g.count() == x.n, "contains and count read the graph"); if (x.ina) { vc_check(&g.get_neighbours(x.a) == &x.b() && &g.get_neighbours<true>(x.a) == &x.b(), "the neighbours are the edges of the node"); vc_check(g[x.a].id() == x.a && g[x.a].is_active(), "a node has its identifier"); } vc_check(g.end() == g.cend() && g.begin() == g.cbegin(), "the nodes are listed from the first to the last"); x.others(); }
VC(G04, clear) { any_graph x; x.g.clear(); vc_check(G.cleared && !x.g.contains(x.a) && x.g.count() == 0, "a cleared graph is empty"); vc_cover("end"); }
#else
#include <algorithm>
#include <atomic>
#include <map>
#include <queue>
#include <thread>
using u32 = uint32_t; using graph = chdr::mazes::graph<u32, u32>; using edge = std::pair<u32, u32>; using adjacency = std::map<u32, std::vector<edge>>;
static size_t rnd(size_t n) { return vcrt::rng() % n; }
static std::string text(const adjacency& a) { std::string t; for (auto& x : a) { t += vc_fmt(" %u:", x.first); for (auto& e : x.second) t += vc_fmt("%u/%u,", e.first, e.second); } return t; }
// What a graph holds, in any order of the edges of a node.
template <class G> static void same(const G& g, adjacency m, u32 most) {
  vc_check(g.count() == m.size(), "the graph counts its nodes");
  for (u32 i = 0; i < most; ++i) vc_check(g.contains(i) == (m.count(i) != 0), "exactly the nodes that were added are contained");
  adjacency seen; for (auto& x : g) { vc_check(seen.emplace(x.first, std::vector<edge>(x.second.begin(), x.second.end())).second, "a node is listed once"); }
  for (auto& x : m) { std::sort(x.second.begin(), x.second.end()); const auto& n = g.get_neighbours(x.first); std::vector<edge> v(n.begin(), n.end()); std::sort(v.begin(), v.end());
    vc_check(v == x.second, "a node has exactly the edges that were added and not removed"); auto& s = seen[x.first]; std::sort(s.begin(), s.end()); vc_check(s == x.second, "the graph lists the edges of its nodes");
    vc_check(g[x.first].id() == x.first && g[x.first].is_active(), "a node has its identifier"); }
  vc_check(seen.size() == m.size(), "the graph lists exactly its nodes");
}
static void history() {
  any_resource r, r2; graph g(&r); adjacency m; std::string ops; u32 n = 1 + u32(rnd(6)), w = 1 + u32(rnd(3));
  for (int i = 0; i < 40; ++i) {
    u32 a = u32(rnd(n)); edge e{ u32(rnd(n)), u32(rnd(w)) }; unsigned op = unsigned(rnd(12)); ops += vc_fmt(" %u(%u,%u/%u)", op, a, e.first, e.second); vc_note("operations" + ops);
    auto gone = [&](u32 from, edge x) { if (!m.count(from)) return; auto& v = m[from]; v.erase(std::remove(v.begin(), v.end(), x), v.end()); if (v.empty()) m.erase(from); };
    switch (op) {
      case 0: g.add(a); m[a]; break;
      case 1: case 2: case 3: case 4: g.add(a, e); m[a].push_back(e); break;
      case 5: case 6: g.remove(a, e); gone(a, e); break;
      case 7: if (m.count(a) && !m[a].empty()) { const auto& v = g.get_neighbours(a); size_t k = rnd(v.size()); e = v[k]; g.remove(a, v[k]); gone(a, e); } break;
      case 8: if (rnd(6) == 0) { g.clear(); m.clear(); } break;
      case 9: if (m.count(a) && !m[a].empty()) { const auto& v = g.get_neighbours(a); size_t k = rnd(v.size()); e = v[k]; g.add(a, v[k]); m[a].push_back(e); } break;
      case 10: { graph h(std::move(g)); same(h, m, n + 2); g = std::move(h); break; }
      case 11: { graph h(&r2); h.add(1); h = std::move(g); same(h, m, n + 2); g = std::move(h); break; } }
    same(g, m, n + 2);
  } vc_ran();
}
VCB(G04, bounded_history) {
  { graph g{ { { 1, 5 }, { 2, 6 }, { 1, 5 } }, {}, { { 0, 7 } } }; same(g, { { 0, { { 1, 5 }, { 2, 6 }, { 1, 5 } } }, { 2, { { 0, 7 } } } }, 5); }
  while (vc_more()) history();
}
// ---- distances ----------------------------------------------------------------------------------------------------------
template <class A> static std::map<u32, u32> distances(A adjacent, u32 s) {
  std::map<u32, u32> d{ { s, 0 } }; std::priority_queue<std::pair<long, u32>> q; q.push({ 0, s });
  while (!q.empty()) { auto [g, u] = q.top(); q.pop(); if (u32(-g) > d[u]) continue; for (auto& e : adjacent(u)) { u32 n = u32(-g) + e.second; auto it = d.find(e.first); if (it == d.end() || n < it->second) { d[e.first] = n; q.push({ -long(n), e.first }); } } }
  return d;
}
static void keeps(const graph& g, const adjacency& was) {
  for (auto& x : g) { vc_check(was.count(x.first) != 0, "a node of the result was a node before"); for (auto& e : x.second) vc_check(g.contains(e.first), "every edge leads to a node of the graph"); }
  for (auto& x : g) {
    auto a = distances([&](u32 i) -> const std::vector<edge>& { return was.at(i); }, x.first); auto b = distances([&](u32 i) -> decltype(auto) { return g.get_neighbours(i); }, x.first);
    for (auto& y : g) { auto i = a.find(y.first), j = b.find(y.first); vc_check((i == a.end()) == (j == b.end()), "a node can be reached exactly when it could before"); if (i != a.end() && j != b.end()) vc_check(i->second == j->second, "distances between the nodes that are kept are kept"); }
  }
}
// documented: what is left has no node that joins exactly two others and nothing else
static void pruned(const graph& g) { for (auto& x : g) if (x.second.size() == 2) vc_check(x.second[0].first == x.second[1].first || x.second[0].first == x.first || x.second[1].first == x.first, "no node that only joins two others is left"); }
// Allocation by two threads at once is reported.
struct one_at_a_time : std::pmr::memory_resource {
  std::atomic<int> in{ 0 }; std::atomic<bool> both{ false };
  void* do_allocate(size_t n, size_t a) override { if (in.fetch_add(1) != 0) both = true; if (slow) for (int i = 0; i < 20; ++i) std::this_thread::yield(); auto* p = ::operator new(n, std::align_val_t(a)); in.fetch_sub(1); return p; }
  void do_deallocate(void* p, size_t n, size_t a) override { ::operator delete(p, n, std::align_val_t(a)); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
  bool slow = false;
};
template <size_t K, class W> static void compile(const chdr::coord<u32, K>& size, const std::vector<char>& blocked, bool slow = false) {
  u32 n = u32(blocked.size()); std::vector<W> cells(n); for (u32 i = 0; i < n; ++i) { if constexpr (std::is_same_v<W, bool>) cells[i] = blocked[i]; else cells[i] = blocked[i] ? std::numeric_limits<W>::max() : W(i % 7); }
  std::string t = "grid"; for (auto x : size) t += vc_fmt(" %u", x); t += ' '; for (u32 i = 0; i < n && i < 200; ++i) t += blocked[i] ? '#' : '.'; vc_note(t);
  adjacency was; for (u32 i = 0; i < n; ++i) if (!blocked[i]) { auto& v = was[i]; u32 step = 1, x = i; for (size_t k = 0; k < K; ++k) { u32 c = x % size[k]; x /= size[k]; if (c > 0 && !blocked[i - step]) v.push_back({ i - step, 1 }); if (c + 1 < size[k] && !blocked[i + step]) v.push_back({ i + step, 1 }); step *= size[k]; } }
  const chdr::mazes::grid<chdr::coord<u32, K>, W> grid(size, cells);
  one_at_a_time r; r.slow = slow; const graph g(grid, &r);
  vc_check(!r.both, "edges are added by one thread at a time");
  keeps(g, was); pruned(g);
  for (auto& x : was) if (x.second.size() == 1) vc_check(g.contains(x.first), "a dead end is a node of the graph");
  if constexpr (K == 2) { graph h(&r); h = graph(chdr::mazes::grid<chdr::coord<u32, K>, W>(size, cells)); keeps(h, was); }
  vc_ran();
}
template <size_t K, class W> static void random_grid(u32 most, bool slow = false) {
  chdr::coord<u32, K> size; u32 n = 1; for (auto& x : size) { x = 1 + u32(rnd(most)); n *= x; } std::vector<char> b(n); unsigned den = unsigned(rnd(7)); for (auto& x : b) x = rnd(10) < den;
  if (rnd(2) == 0) for (u32 i = 0; i < n; ++i) { u32 x = i, odd = 0; for (size_t k = 0; k < K; ++k) { odd += (x % size[k]) & 1; x /= size[k]; } b[i] = odd > 1 || (odd == 1 && rnd(10) < den); }      // corridors
  compile<K, W>(size, b, slow);
}
// long corridors: a straight one, and one that winds through a grid
static void corridors() {
  compile<1, bool>({ 70001 }, std::vector<char>(70001));
  for (u32 w : { 21u, 41u }) { std::vector<char> b(w * w); for (u32 y = 1; y < w; y += 2) for (u32 x = 0; x < w; ++x) b[y * w + x] = x != (y % 4 == 1 ? w - 1 : 0); compile<2, uint8_t>({ w, w }, b); b[w * (w - 1)] = 0; b[0] = 0; b[2 * w + 1] = 0; compile<2, bool>({ w, w }, b); }
}
VCB(G05, bounded_compile) {
  corridors();
  for (chdr::coord<u32, 2> s : { chdr::coord<u32, 2>{ 3, 3 }, { 2, 4 }, { 5, 1 }, { 1, 6 }, { 4, 2 } }) for (u32 m = 0; m < (1u << (s[0] * s[1])) && vc_more(); m += vcrt::thorough ? 1 : 1 + u32(rnd(8))) { std::vector<char> b(s[0] * s[1]); for (u32 i = 0; i < b.size(); ++i) b[i] = (m >> i) & 1; compile<2, bool>(s, b); }
  for (u32 k = 0; vc_more(); ++k) { random_grid<2, bool>(k % 16 == 0 ? 25 : 9, k % 8 == 0); random_grid<2, uint8_t>(7); random_grid<3, uint8_t>(4); random_grid<1, bool>(20); random_grid<4, bool>(3); }
}
VCB(G05, bounded_prune) {
  while (vc_more()) {
    u32 n = 1 + u32(rnd(8)); adjacency m; any_resource r; graph g(&r); u32 edges = u32(rnd(2 * n + 1)), w = rnd(4) ? 1 + u32(rnd(3)) : 1 + u32(rnd(1u << 20)); bool multi = rnd(3) == 0, loops = rnd(4) == 0;
    for (u32 k = 0; k < edges; ++k) { u32 a = u32(rnd(n)), b = u32(rnd(n)), c = 1 + u32(rnd(w)); if (a == b && !loops) continue; bool dup = false; for (auto& e : m[a]) dup |= e.first == b; if (dup && !multi) continue; m[a].push_back({ b, c }); if (a != b) m[b].push_back({ a, c }); }
    for (u32 i = 0; i < n; ++i) if (rnd(3) == 0) m[i];
    for (auto& x : m) { g.add(x.first); for (auto& e : x.second) g.add(x.first, e); }
    vc_note("graph" + text(m));
    if (rnd(2)) g.prune<false>(); else g.prune<true>();
    keeps(g, m); pruned(g);
    for (auto& x : m) if (x.second.size() == 1) vc_check(g.contains(x.first), "a dead end is kept");
    vc_ran();
  }
}
#endif
