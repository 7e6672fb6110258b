// A01: coordinates and flat indices.   A02: the size of a grid.
#include "chdr.hpp"
#include "vc.hpp"
using W = unsigned __int128;

template <class T, size_t K> void shape(std::array<T, K>& s, W& P) {
  P = 1;
  for (size_t i = 0; i < K; ++i) { s[i] = vcn<T>(); vc_assume(s[i] != 0); vc_hint(P, (W)s[i] - 1); P = P * s[i]; vc_assume(P <= (W)std::numeric_limits<T>::max()); }
}
// every coordinate inside the grid has its row-major rank as index, in range, and is recovered from it
template <class T, size_t K> void forward() {
  chdr::coord<T, K> s{}, c{}; W P = 1, R = 0;
  for (size_t i = 0; i < K; ++i) {
    s[i] = vcn<T>(); c[i] = vcn<T>(); vc_assume(c[i] < s[i]);
    vc_hint(P, (W)s[i] - 1 - c[i]); vc_hint(P, c[i]);
    R = R + P * c[i]; P = P * s[i]; vc_assume(P <= (W)std::numeric_limits<T>::max());
  }
  T i = chdr::utils::to_1d(c, s);
  vc_check((W)i < P, "the index of a coordinate is below the cell count");
  vc_check((W)i == R, "the index of a coordinate is its row-major rank");
  auto d = chdr::utils::to_nd(i, s);
  for (size_t k = 0; k < K; ++k) vc_check(d[k] == c[k], "coordinate -> index -> coordinate is the identity");
  vc_cover("end");
}
// every index below the cell count gives a coordinate inside the grid, whose index it is
template <class T, size_t K> void backward() {
  chdr::coord<T, K> s{}; W P; shape<T, K>(s, P);
  T i = vcn<T>(); vc_assume((W)i < P);
  auto d = chdr::utils::to_nd(i, s);
  W Q = 1, R = 0;
  for (size_t k = 0; k < K; ++k) { vc_hint(Q, (W)s[k] - 1 - d[k]); vc_hint(Q, d[k]); vc_check(d[k] < s[k], "the coordinate of an index lies inside the grid"); R = R + Q * d[k]; Q = Q * s[k]; }
  vc_check(R == (W)i, "the row-major rank of the coordinate of an index is the index");
  vc_check(chdr::utils::to_1d(d, s) == i, "index -> coordinate -> index is the identity");
  vc_cover("end");
}
VC(A01, fwd_u32_1) { forward<uint32_t, 1>(); }
VC(A01, fwd_u32_2) { forward<uint32_t, 2>(); }
VC(A01, fwd_u32_3) { forward<uint32_t, 3>(); }
VC(A01, fwd_u32_4) { forward<uint32_t, 4>(); }
VC(A01, fwd_u32_5) { forward<uint32_t, 5>(); }
VC(A01, fwd_u64_2) { forward<uint64_t, 2>(); }
VC(A01, fwd_u64_3) { forward<uint64_t, 3>(); }
VC(A01, fwd_u64_4) { forward<uint64_t, 4>(); }
VC(A01, fwd_u64_6) { forward<uint64_t, 6>(); }
VC(A01, bwd_u32_1) { backward<uint32_t, 1>(); }
VC(A01, bwd_u32_2) { backward<uint32_t, 2>(); }
VC(A01, bwd_u32_3) { backward<uint32_t, 3>(); }
VC(A01, bwd_u32_4) { backward<uint32_t, 4>(); }
VC(A01, bwd_u32_5) { backward<uint32_t, 5>(); }
VC(A01, bwd_u64_2) { backward<uint64_t, 2>(); }
VC(A01, bwd_u64_3) { backward<uint64_t, 3>(); }
VC(A01, bwd_u64_4) { backward<uint64_t, 4>(); }

// the product of the sizes is exact when it fits and clamps to the largest value when it does not
template <class T, size_t K> void prod() {
  chdr::coord<T, K> s{}; const W M = std::numeric_limits<T>::max(); W P = 1; bool big = false;
  for (size_t i = 0; i < K; ++i) {
    s[i] = vcn<T>();
    if (vc_case(s[i] == 0)) { P = 0; big = false; }
    else if (big) { vc_hint(M, (W)s[i] - 1); }
    else { vc_hint(P, (W)s[i] - 1); if (vc_case(P * s[i] > M)) { big = true; } else P = P * s[i]; }
  }
  vc_check((W)chdr::utils::product<T>(s) == (big ? M : P), "the product is exact, or the largest value on overflow");
  vc_cover("end");
}
VC(A02, product_u32_1) { prod<uint32_t, 1>(); }
VC(A02, product_u32_2) { prod<uint32_t, 2>(); }
VC(A02, product_u32_3) { prod<uint32_t, 3>(); }
VC(A02, product_u32_4) { prod<uint32_t, 4>(); }
VC(A02, product_u64_2) { prod<uint64_t, 2>(); }
VC(A02, product_u64_3) { prod<uint64_t, 3>(); }
VC(A02, product_u8_4)  { prod<uint8_t, 4>(); }
VC(A02, product_u16_3) { prod<uint16_t, 3>(); }

// the cell count of a grid, by every constructor: exact whenever the product is representable in the type of the count
template <class T, size_t K, class weight_t> void grid_count() {
  using G = chdr::mazes::grid<chdr::coord<T, K>, weight_t>;
  chdr::coord<T, K> s{}; W P = 1;
  for (size_t i = 0; i < K; ++i) { s[i] = vcn<T>(); vc_assume(s[i] > 0); vc_hint(P, (W)s[i] - 1); P = P * s[i]; vc_assume(P <= ((W)1 << 40)); }
  const size_t n = (size_t)P; alignas(G) unsigned char m[sizeof(G)]; unsigned how = vc_shard();
  if (how == 0) { auto* g = ::new ((void*)m) G(s); vc_check((W)g->count() == P && g->size() == s, "the count of a new grid is the product of its extents"); vc_check((W)g->nodes().size() == P, "and it allocates that many cells"); vc_cover("end"); }
  else if constexpr (std::is_same_v<weight_t, bool>) {
    std::vector<bool> v; const std::vector<bool>& cv = v;
    if (how == 1) { auto* g = ::new ((void*)m) G(s, cv); vc_check((W)g->count() == P && g->size() == s, "the count of a grid built from given cells"); vc_cover("end"); }
    else { auto* g = ::new ((void*)m) G(s, std::move(v)); vc_check((W)g->count() == P && g->size() == s, "the count of a grid that takes over given cells"); vc_cover("end"); }
  } else {
    auto* data = (weight_t*)vc_array(n, sizeof(weight_t)); vc_layout(data, 0, (int)sizeof(weight_t), -1);
    std::vector<weight_t> v; auto& im = v._M_impl; im._M_start = data; im._M_finish = data + n; im._M_end_of_storage = data + n; const std::vector<weight_t>& cv = v;
    if (how == 1) { auto* g = ::new ((void*)m) G(s, cv); vc_check((W)g->count() == P && g->size() == s, "the count of a grid built from given cells"); vc_check((W)g->nodes().size() == P, "and its cells"); }
    else { auto* g = ::new ((void*)m) G(s, std::move(v)); vc_check((W)g->count() == P && g->size() == s, "the count of a grid that takes over given cells"); vc_check((W)g->nodes().size() == P, "and its cells"); }
    ::new (&v) std::vector<weight_t>(); vc_cover("end");
  }
}
// vc-opts count_ {"shards": 3}
VC(A02, count_byte_u8_1) { grid_count<uint8_t, 1, uint8_t>(); }
VC(A02, count_byte_u8_2) { grid_count<uint8_t, 2, uint8_t>(); }
VC(A02, count_byte_u8_3) { grid_count<uint8_t, 3, uint8_t>(); }
VC(A02, count_byte_u8_4) { grid_count<uint8_t, 4, uint8_t>(); }
VC(A02, count_byte_u16_2) { grid_count<uint16_t, 2, uint8_t>(); }
VC(A02, count_byte_u16_3) { grid_count<uint16_t, 3, uint8_t>(); }
VC(A02, count_byte_u32_1) { grid_count<uint32_t, 1, uint8_t>(); }
VC(A02, count_byte_u32_2) { grid_count<uint32_t, 2, uint8_t>(); }
VC(A02, count_byte_u32_3) { grid_count<uint32_t, 3, uint8_t>(); }
VC(A02, count_byte_u32_4) { grid_count<uint32_t, 4, uint8_t>(); }
VC(A02, count_byte_u64_2) { grid_count<uint64_t, 2, uint8_t>(); }
VC(A02, count_byte_u64_3) { grid_count<uint64_t, 3, uint8_t>(); }
VC(A02, count_bit_u8_1) { grid_count<uint8_t, 1, bool>(); }
VC(A02, count_bit_u8_2) { grid_count<uint8_t, 2, bool>(); }
VC(A02, count_bit_u8_3) { grid_count<uint8_t, 3, bool>(); }
VC(A02, count_bit_u8_4) { grid_count<uint8_t, 4, bool>(); }
VC(A02, count_bit_u16_2) { grid_count<uint16_t, 2, bool>(); }
VC(A02, count_bit_u16_3) { grid_count<uint16_t, 3, bool>(); }
VC(A02, count_bit_u32_1) { grid_count<uint32_t, 1, bool>(); }
VC(A02, count_bit_u32_2) { grid_count<uint32_t, 2, bool>(); }
VC(A02, count_bit_u32_3) { grid_count<uint32_t, 3, bool>(); }
VC(A02, count_bit_u32_4) { grid_count<uint32_t, 4, bool>(); }
VC(A02, count_bit_u64_2) { grid_count<uint64_t, 2, bool>(); }
VC(A02, count_bit_u64_3) { grid_count<uint64_t, 3, bool>(); }
VC(A02, count_word_u16_2) { grid_count<uint16_t, 2, uint32_t>(); }
VC(A02, count_word_u16_3) { grid_count<uint16_t, 3, uint32_t>(); }

#ifdef VC_NATIVE
VCN(A01, small) {
  for (uint32_t a = 1; a < 6; ++a) for (uint32_t b = 1; b < 6; ++b) for (uint32_t c = 1; c < 6; ++c) for (uint32_t d = 1; d < 5; ++d) for (uint32_t e = 1; e < 4; ++e) {
    auto t = [&](auto s) {
      uint32_t n = 1; for (auto x : s) n *= x;
      for (uint32_t i = 0; i < n; ++i) { vc_note(vc_fmt("K=%zu sizes %u %u %u %u %u index %u", s.size(), a, b, c, d, e, i)); auto x = chdr::utils::to_nd(i, s); uint32_t m = 1, r = 0;
        for (size_t k = 0; k < s.size(); ++k) { vc_check(x[k] < s[k], "the coordinate of an index lies inside the grid"); r += m * x[k]; m *= s[k]; }
        vc_check(r == i, "row-major"); vc_check(chdr::utils::to_1d(x, s) == i, "index -> coordinate -> index is the identity"); }
    };
    t(chdr::coord<uint32_t, 5>{a, b, c, d, e});
    if (e == 1) t(chdr::coord<uint32_t, 4>{a, b, c, d}); if (e * d == 1) t(chdr::coord<uint32_t, 3>{a, b, c}); if (e * d * c == 1) t(chdr::coord<uint32_t, 2>{a, b}); if (e * d * c * b == 1) t(chdr::coord<uint32_t, 1>{a});
    vc_ran();
  }
}
template <class T, size_t K> void counts(uint64_t seed) {
  std::mt19937_64 r(seed); chdr::coord<T, K> s{}; size_t n = 1;
  for (size_t k = 0; k < K; ++k) { const size_t cap = std::min<size_t>(std::numeric_limits<T>::max(), std::max<size_t>(1, 200000 / n)); s[k] = (T)(1 + r() % (r() % 2 ? cap : std::min<size_t>(cap, 7))); n *= s[k]; }
  std::string t = vc_fmt("K=%zu bits=%zu extents", K, sizeof(T) * 8); for (auto x : s) t += vc_fmt(" %zu", (size_t)x); vc_note(t);
  { chdr::mazes::grid<chdr::coord<T, K>, uint8_t> a(s), b(s, std::vector<uint8_t>(n)); std::vector<uint8_t> v(n); chdr::mazes::grid<chdr::coord<T, K>, uint8_t> c(s, (const std::vector<uint8_t>&)v);
    vc_check(a.count() == n && b.count() == n && c.count() == n && a.nodes().size() == n, "the count is the product of the extents"); }
  { chdr::mazes::grid<chdr::coord<T, K>, bool> a(s), b(s, std::vector<bool>(n)); std::vector<bool> v(n); chdr::mazes::grid<chdr::coord<T, K>, bool> c(s, (const std::vector<bool>&)v);
    vc_check(a.count() == n && b.count() == n && c.count() == n && a.nodes().size() == n, "the count is the product of the extents, bit cells"); }
  vc_ran();
}
VCN(A02, small) { for (uint64_t i = 0; vc_more() && i < 400; ++i) { counts<uint8_t, 1>(i); counts<uint8_t, 2>(i); counts<uint8_t, 3>(i); counts<uint8_t, 4>(i); counts<uint16_t, 2>(i); counts<uint16_t, 3>(i); counts<uint32_t, 2>(i); counts<uint32_t, 4>(i); counts<uint64_t, 3>(i); } }
#endif
