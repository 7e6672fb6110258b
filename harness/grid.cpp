// G01: axis neighbours.  G02: neighbours including diagonals.  G03: cell access.  A02: the count of a grid.
#include "grid.hpp"
// vc-opts _u32_3 {"shards": 4}
// vc-opts _u32_4 {"shards": 16}
// vc-opts . {"max_visits": 100}

// res: the returned neighbours; the direction (delta per axis: 0,1,2 for -1,0,+1) has exactly one active entry
// when the cell there exists and is active, and none otherwise
template <class G, class N> W entries(const G& q, const N& res, const std::array<int, std::tuple_size_v<typename G::coord_t>>& d) {
  W n = 0;
  for (size_t j = 0; j < res.size(); ++j) {
    bool m = res[j].first;
    for (size_t k = 0; k < d.size(); ++k) { using T = typename G::coord_t::value_type; T want = (T)(q.c[k] + (T)((T)d[k] - (T)1)); m = m & (res[j].second[k] == want); }
    n += m;
  }
  return n;
}
template <class G, class N> void exact(const G& q, const N& res, bool diagonals) {
  constexpr size_t K = std::tuple_size_v<typename G::coord_t>;
  size_t total = 1; for (size_t k = 0; k < K; ++k) total *= 3;
  W all = 0, expected = 0;
  for (size_t j = 0; j < res.size(); ++j) all += res[j].first;
  for (size_t code = 0; code < total; ++code) {
    std::array<int, K> d{}; size_t x = code, moved = 0; for (size_t k = 0; k < K; ++k) { d[k] = x % 3; x /= 3; moved += d[k] != 1; }
    if (moved == 0 || (!diagonals && moved != 1)) continue;
    bool inside = true; for (size_t k = 0; k < K; ++k) { if (d[k] == 0) inside = inside && q.c[k] > 0; if (d[k] == 2) inside = inside && (W)q.c[k] + 1 < q.s[k]; }
    bool act = false;
    if (vc_case(inside)) { W r = q.R; for (size_t k = 0; k < K; ++k) { if (d[k] == 0) r = r - q.P[k]; if (d[k] == 2) r = r + q.P[k]; } act = q.active(r); }
    W n = entries(q, res, d);
    expected += act;
    vc_check(n == (W)act, "one entry for an active neighbour, none for a wall or a cell outside the grid");
  }
  vc_check(all == expected, "no entries besides the neighbours");
}
template <class T, size_t K, class weight_t, bool Diag, bool ByIndex> void neigh() {
  any_grid<T, K, weight_t> q; q.split(K > 2 ? vc_shard() : 0, K > 3 ? 2 : K > 2 ? 1 : 0);
  if constexpr (ByIndex) exact(q, q.g().template get_neighbours<Diag>((T)q.R), Diag);
  else exact(q, q.g().template get_neighbours<Diag>(q.c), Diag);
  vc_cover("end");
}
VC(G01, axis_byte_u32_1) { neigh<uint32_t, 1, uint8_t, false, false>(); }
VC(G01, axis_byte_u32_2) { neigh<uint32_t, 2, uint8_t, false, false>(); }
VC(G01, axis_byte_u32_3) { neigh<uint32_t, 3, uint8_t, false, false>(); }
VC(G01, axis_byte_u32_4) { neigh<uint32_t, 4, uint8_t, false, false>(); }
VC(G01, axis_bit_u32_1) { neigh<uint32_t, 1, bool, false, false>(); }
VC(G01, axis_bit_u32_2) { neigh<uint32_t, 2, bool, false, false>(); }
VC(G01, axis_bit_u32_3) { neigh<uint32_t, 3, bool, false, false>(); }
VC(G01, axis_bit_u32_4) { neigh<uint32_t, 4, bool, false, false>(); }
VC(G01, axis_word_u64_2) { neigh<uint64_t, 2, uint32_t, false, false>(); }
VC(G01, axis_byte_u32_3_index) { neigh<uint32_t, 3, uint8_t, false, true>(); }
VC(G01, axis_bit_u32_3_index) { neigh<uint32_t, 3, bool, false, true>(); }
VC(G01, axis_byte_u32_2_index) { neigh<uint32_t, 2, uint8_t, false, true>(); }
VC(G02, diag_byte_u32_1) { neigh<uint32_t, 1, uint8_t, true, false>(); }
VC(G02, diag_byte_u32_2) { neigh<uint32_t, 2, uint8_t, true, false>(); }
VC(G02, diag_byte_u32_3) { neigh<uint32_t, 3, uint8_t, true, false>(); }
VC(G02, diag_bit_u32_1) { neigh<uint32_t, 1, bool, true, false>(); }
VC(G02, diag_bit_u32_2) { neigh<uint32_t, 2, bool, true, false>(); }
VC(G02, diag_bit_u32_3) { neigh<uint32_t, 3, bool, true, false>(); }
VC(G02, diag_byte_u32_3_index) { neigh<uint32_t, 3, uint8_t, true, true>(); }
