// G03: cell access, containment, activity, transitory cells, single-direction queries, replacing the cells.
#include "grid.hpp"
// vc-opts . {"max_visits": 100}
// vc-opts dir_.*_3 {"shards": 4}
template <class T, size_t K, class weight_t> void access() {
  any_grid<T, K, weight_t> q; const auto& g = q.g(); const bool act = q.active(q.R);
  vc_check((W)g.count() == q.P[K], "the count is the product of the extents");
  for (size_t k = 0; k < K; ++k) vc_check(g.size()[k] == q.s[k], "the extents are kept");
  vc_check(g[q.c].is_active() == act, "active by coordinate: the value is not the largest of its type");
  vc_check(g[(size_t)q.R].is_active() == act, "active by linear index");
  if constexpr (!std::is_same_v<T, size_t>) vc_check(g[(T)q.R].is_active() == act, "active by index of the coordinate type");
  if constexpr (!std::is_same_v<weight_t, bool>) {
    vc_check(g[q.c].value() == q.data[(size_t)q.R], "the stored value is returned, by coordinate");
    vc_check(g[(size_t)q.R].value() == q.data[(size_t)q.R], "the stored value is returned, by index");
  } else { vc_check(g[q.c].value() == !act, "the stored bit is returned, by coordinate"); vc_check(g[(size_t)q.R].value() == !act, "the stored bit is returned, by index"); }
  // containment of arbitrary coordinates and indices
  chdr::coord<T, K> x{}; bool in = true;
  for (size_t k = 0; k < K; ++k) { x[k] = vcn<T>(); in = in & (x[k] < q.s[k]); }
  vc_check(g.contains(x) == in, "contains(coordinate): below the extent on every axis");
  size_t i = vc_u64(); vc_check(g.contains(i) == ((W)i < q.P[K]), "contains(index): below the count");
  if constexpr (!std::is_same_v<T, size_t>) { T j = vcn<T>(); vc_check(g.contains(j) == ((W)j < q.P[K]), "contains(index of the coordinate type)"); }
  vc_cover("end");
}
VC(G03, access_byte_u32_1) { access<uint32_t, 1, uint8_t>(); }
VC(G03, access_byte_u32_2) { access<uint32_t, 2, uint8_t>(); }
VC(G03, access_byte_u32_3) { access<uint32_t, 3, uint8_t>(); }
VC(G03, access_byte_u32_4) { access<uint32_t, 4, uint8_t>(); }
VC(G03, access_byte_u32_5) { access<uint32_t, 5, uint8_t>(); }
VC(G03, access_bit_u32_1) { access<uint32_t, 1, bool>(); }
VC(G03, access_bit_u32_2) { access<uint32_t, 2, bool>(); }
VC(G03, access_bit_u32_3) { access<uint32_t, 3, bool>(); }
VC(G03, access_bit_u32_4) { access<uint32_t, 4, bool>(); }
VC(G03, access_word_u64_2) { access<uint64_t, 2, uint32_t>(); }
VC(G03, access_sbyte_u64_3) { access<uint64_t, 3, int8_t>(); }
VC(G03, access_bit_u64_3) { access<uint64_t, 3, bool>(); }

// one direction: 0, 1, 2 per axis for -1, 0, +1
template <class T, size_t K, class weight_t> void direction() {
  any_grid<T, K, weight_t> q; q.split(K > 2 ? vc_shard() : 0, K > 2 ? 1 : 0);
  chdr::coord<T, K> d{}; bool inside = true; W r = q.R;
  for (size_t k = 0; k < K; ++k) {
    d[k] = (T)vc_pin(sizeof(T) == 8 ? vc_u64_lt(3) : vc_u32_lt(3), 3);
    if (d[k] == 0) inside = inside && q.c[k] > 0;
    if (d[k] == 2) inside = inside && (W)q.c[k] + 1 < q.s[k];
  }
  auto n = q.g().check_neighbour(q.c, d);
  if (vc_case(inside)) {
    for (size_t k = 0; k < K; ++k) { if (d[k] == 0) r = r - q.P[k]; if (d[k] == 2) r = r + q.P[k]; }
    vc_check(n.first == q.active(r), "a direction inside the grid reports the activity of that cell");
    if (vc_case(n.first)) for (size_t k = 0; k < K; ++k) { T want = (T)(q.c[k] + (T)(d[k] - (T)1)); vc_check(n.second[k] == want, "and its coordinate"); }
  } else vc_check(!n.first, "a direction that leaves the grid is inactive");
  vc_cover("end");
}
VC(G03, dir_byte_u32_1) { direction<uint32_t, 1, uint8_t>(); }
VC(G03, dir_byte_u32_2) { direction<uint32_t, 2, uint8_t>(); }
VC(G03, dir_byte_u32_3) { direction<uint32_t, 3, uint8_t>(); }
VC(G03, dir_bit_u32_1) { direction<uint32_t, 1, bool>(); }
VC(G03, dir_bit_u32_2) { direction<uint32_t, 2, bool>(); }
VC(G03, dir_bit_u32_3) { direction<uint32_t, 3, bool>(); }
VC(G03, dir_word_u64_2) { direction<uint64_t, 2, uint32_t>(); }

// transitory: exactly two active entries
template <class T, size_t K, class weight_t> void transitory() {
  any_grid<T, K, weight_t> q;
  typename any_grid<T, K, weight_t>::grid_t::neighbours_t n{}; W cnt = 0;
  for (auto& e : n) { e.first = vc_bool(); cnt += e.first; }
  vc_check(q.g().is_transitory(n) == (cnt == 2), "transitory: exactly two active neighbours");
  vc_cover("end");
}
VC(G03, trans_bit_u32_1) { transitory<uint32_t, 1, bool>(); }
VC(G03, trans_bit_u32_2) { transitory<uint32_t, 2, bool>(); }
VC(G03, trans_byte_u32_2) { transitory<uint32_t, 2, uint8_t>(); }
template <class T, size_t K, class weight_t> void transitory_index() {
  any_grid<T, K, weight_t> q; q.split(0, 0); W cnt = 0;
  for (size_t k = 0; k < K; ++k) {
    if (vc_case(q.c[k] > 0)) cnt += q.active(q.R - q.P[k]);
    if (vc_case((W)q.c[k] + 1 < q.s[k])) cnt += q.active(q.R + q.P[k]);
  }
  vc_check(q.g().is_transitory((size_t)q.R) == (cnt == 2), "transitory by index: exactly two active axis neighbours");
  vc_cover("end");
}
VC(G03, transidx_bit_u32_1) { transitory_index<uint32_t, 1, bool>(); }
VC(G03, transidx_bit_u32_2) { transitory_index<uint32_t, 2, bool>(); }
VC(G03, transidx_byte_u32_2) { transitory_index<uint32_t, 2, uint8_t>(); }

// a new grid holds the given cells; replacing the cells replaces all of them and nothing else
template <class T, size_t K> void build() {
  any_grid<T, K, uint8_t> a;            // supplies an arbitrary size, cell and content
  std::vector<uint8_t> v; { auto& im = v._M_impl; im._M_start = a.data; im._M_finish = a.data + (size_t)a.P[K]; im._M_end_of_storage = im._M_finish; }
  alignas(16) unsigned char m[sizeof(chdr::mazes::grid<chdr::coord<T, K>, uint8_t>)];
  auto* g = ::new ((void*)m) chdr::mazes::grid<chdr::coord<T, K>, uint8_t>(a.s, (const std::vector<uint8_t>&)v);
  vc_check((*g)[a.c].value() == a.data[(size_t)a.R], "a grid built from a copy of the cells holds them");
  auto* other = (uint8_t*)vc_array((size_t)a.P[K], 1); vc_layout(other, 0, 1, -1);
  v._M_impl._M_start = other; v._M_impl._M_finish = v._M_impl._M_end_of_storage = other + (size_t)a.P[K];
  g->nodes(v);
  vc_check((*g)[a.c].value() == other[(size_t)a.R], "after replacing the cells the grid holds the new ones");
  vc_check((*g)[(size_t)a.R].value() == other[(size_t)a.R], "by index too");
  vc_check((W)g->count() == a.P[K] && g->size() == a.s, "and keeps its extents");
  ::new (&v) std::vector<uint8_t>();
  vc_cover("end");
}
VC(G03, build_u32_1) { build<uint32_t, 1>(); }
VC(G03, build_u32_2) { build<uint32_t, 2>(); }
VC(G03, build_u32_3) { build<uint32_t, 3>(); }

#ifdef VC_NATIVE
// bounded stand-in: every constructor and accessor of small grids, bit grids included (their copying is outside the generator)
template <class T, size_t K, class weight_t> void small(size_t seed) {
  using G = chdr::mazes::grid<chdr::coord<T, K>, weight_t>;
  std::mt19937_64 r(seed); chdr::coord<T, K> s{}; size_t n = 1; for (auto& e : s) { e = 1 + r() % (K > 3 ? 4 : K > 2 ? 6 : 15); n *= e; }
  vc_note(vc_fmt("K=%zu bits=%zu seed=%zu", K, sizeof(weight_t) * 8, seed));
  std::vector<weight_t> v(n), w(n); for (size_t i = 0; i < n; ++i) { v[i] = (weight_t)(r() % 3 ? r() : std::numeric_limits<weight_t>::max()); w[i] = (weight_t)r(); }
  auto same = [&](const G& g, const std::vector<weight_t>& x) {
    vc_check(g.count() == n && g.size() == s && g.nodes() == x, "extents, count and cells are kept");
    chdr::coord<T, K> c{};
    for (size_t i = 0; i < n; ++i) {
      size_t t = i; for (size_t k = 0; k < K; ++k) { c[k] = t % s[k]; t /= s[k]; }
      vc_check(g[i].value() == x[i] && g[c].value() == x[i], "every cell is returned by index and by coordinate");
      vc_check(g[i].is_active() == (x[i] != std::numeric_limits<weight_t>::max()), "active unless the largest value");
      vc_check(g.contains(c) && g.contains(i), "every cell is contained");
      size_t act = 0; for (size_t k = 0; k < K; ++k) for (int d : {-1, 1}) { auto e = c; e[k] += d; if (e[k] < s[k]) { size_t j = 0; for (size_t m = K; m--;) j = j * s[m] + e[m]; act += x[j] != std::numeric_limits<weight_t>::max(); } }
      vc_check(g.is_transitory(i) == (act == 2), "transitory: exactly two active axis neighbours");
    }
    for (size_t k = 0; k < K; ++k) { auto e = c; e[k] = s[k]; vc_check(!g.contains(e), "a coordinate at the extent is not contained"); e[k] = (T)-1; vc_check(!g.contains(e), "a coordinate below zero is not contained"); }
    vc_check(!g.contains(n), "the count is not an index");
    size_t i = 0; for (auto it = g.begin(); it != g.end(); ++it, ++i) vc_check((weight_t)*it == x[i], "iteration visits the cells in order"); vc_check(i == n, "iteration visits every cell");
    i = n; for (auto it = g.rbegin(); it != g.rend(); ++it) vc_check((weight_t)*it == x[--i], "reverse iteration"); vc_check(i == 0, "reverse iteration visits every cell");
  };
  { G g(s, v); same(g, v); g.nodes(w); same(g, w); G h(std::move(g)); same(h, w); G k(s); k = std::move(h); same(k, w); }
  { auto c = v; G g(s, std::move(c)); same(g, v); }
  { G g(s); same(g, std::vector<weight_t>(n)); }
  vc_ran();
}
VCB(G03, bounded_small) { for (size_t i = 0; vc_more() && i < (vcrt::thorough ? 4000u : 250u); ++i) {
  small<uint32_t, 1, bool>(i); small<uint32_t, 2, bool>(i); small<uint32_t, 3, bool>(i); small<uint32_t, 4, bool>(i); small<size_t, 2, bool>(i);
  small<uint32_t, 1, uint8_t>(i); small<uint32_t, 2, uint8_t>(i); small<uint32_t, 3, uint16_t>(i); small<uint32_t, 4, int8_t>(i); small<size_t, 3, uint64_t>(i); small<uint32_t, 5, uint8_t>(i); } }
#endif
