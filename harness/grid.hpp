// An arbitrary grid: any sizes (cell count representable in the coordinate type), any cell values.
#pragma once
#include "chdr.hpp"
#include "vc.hpp"
using W = unsigned __int128;
template <class T, size_t K, class weight_t> struct any_grid {
  using coord_t = chdr::coord<T, K>; using grid_t = chdr::mazes::grid<coord_t, weight_t>;
  coord_t s{}, c{}; W P[K + 1], R = 0;      // sizes, an arbitrary cell, partial products, the cell's row-major rank
  weight_t* data = nullptr; uint64_t* words = nullptr;
  alignas(grid_t) unsigned char mem[sizeof(grid_t)];
  const grid_t& g() const { return *reinterpret_cast<const grid_t*>(mem); }
  grid_t& g() { return *reinterpret_cast<grid_t*>(mem); }
  any_grid() {
    P[0] = 1;
    for (size_t i = 0; i < K; ++i) {
      s[i] = vcn<T>(); c[i] = vcn<T>(); vc_assume(c[i] < s[i]);
      vc_hint(P[i], (W)s[i] - 1 - c[i]); vc_hint(P[i], c[i]);
      R = R + P[i] * c[i]; P[i + 1] = P[i] * s[i];
      vc_assume(P[i + 1] <= (W)std::numeric_limits<T>::max());
      vc_assume(P[i + 1] <= ((W)1 << 60) / sizeof(weight_t));    // an array that large cannot exist
    }
    for (size_t i = 0; i < K; ++i) { W q = 1; for (size_t j = i + 1; j < K; ++j) q = q * s[j]; vc_hint(q - 1, P[i]); }
    const size_t n = (size_t)P[K];
    if constexpr (std::is_same_v<weight_t, bool>) {
      const size_t nw = n / 64 + 1;
      words = (uint64_t*)vc_array(nw, 8); vc_layout(words, 0, 8, -1);
      ::new ((void*)mem) grid_t(s, std::vector<bool>{});
      auto& im = const_cast<std::vector<bool>&>(g().nodes())._M_impl;      // the cells are given to the grid afterwards
      im._M_start._M_p = words; im._M_start._M_offset = 0; im._M_finish._M_p = words + n / 64; im._M_finish._M_offset = (unsigned)(n % 64); im._M_end_of_storage = words + nw;
    } else {
      data = (weight_t*)vc_array(n, sizeof(weight_t)); vc_layout(data, 0, (int)sizeof(weight_t), -1);
      std::vector<weight_t> v; auto& im = v._M_impl; im._M_start = data; im._M_finish = data + n; im._M_end_of_storage = data + n;
      ::new ((void*)mem) grid_t(s, std::move(v));
    }
  }
  // case split: which sides of the cell lie inside the grid (0 and size-1 on each axis), with the product facts it gives
  void split(unsigned shard, unsigned axes) {
    for (size_t k = 0; k < K; ++k) {
      bool lo = c[k] > 0, hi = (W)c[k] + 1 < s[k];
      if (k < axes) { vc_assume(lo == (bool)(shard >> (2 * k) & 1)); vc_assume(hi == (bool)(shard >> (2 * k + 1) & 1)); }
      if (vc_case(lo)) vc_hint(P[k], (W)c[k] - 1);
      if (vc_case(hi)) vc_hint(P[k], (W)s[k] - 2 - c[k]);
    }
  }
  // the meaning of "active": the raw cell differs from the largest value of its type
  bool active(const W& i) const {
    if constexpr (std::is_same_v<weight_t, bool>) { const size_t k = (size_t)i; return !((words[k / 64] & (1ULL << (k % 64))) != 0); }
    else return data[(size_t)i] != std::numeric_limits<weight_t>::max();
  }
};
