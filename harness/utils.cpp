// U01: integer helpers.  U02: text of numbers (bounded).  H01, H02: integer distances.
#include "chdr.hpp"
#include "vc.hpp"
using chdr::utils; using chdr::heuristics;
using W = unsigned __int128; using SW = __int128;
// vc-opts . {"max_visits": 200}
template <class T> void order() {
  T a = (T)vcn<std::make_unsigned_t<T>>(), b = (T)vcn<std::make_unsigned_t<T>>(), v = (T)vcn<std::make_unsigned_t<T>>();
  T m = utils::min(a, b), x = utils::max(a, b);
  vc_check(m == (a < b ? a : b) && x == (a < b ? b : a), "min and max");
  vc_assume(a <= b); T c = utils::clamp(v, a, b);
  vc_check(c == (v < a ? a : v > b ? b : v), "clamp is the nearest value of the range");
  vc_cover("end");
}
VC(U01, order_u8) { order<uint8_t>(); }
VC(U01, order_u32) { order<uint32_t>(); }
VC(U01, order_u64) { order<uint64_t>(); }
VC(U01, order_i32) { order<int32_t>(); }
VC(U01, order_i64) { order<int64_t>(); }
template <class T> void mag() {
  T v = (T)vcn<std::make_unsigned_t<T>>();
  if constexpr (std::is_signed_v<T>) { vc_assume(v != std::numeric_limits<T>::min()); vc_check(utils::abs(v) == (v < 0 ? -v : v), "abs"); vc_check(utils::template sign<int>(v) == (v > 0 ? 1 : v < 0 ? -1 : 0), "sign"); }
  else { vc_check(utils::abs(v) == v, "abs of an unsigned value is the value"); vc_check(utils::template sign<int>(v) == (v != 0 ? 1 : 0), "sign of an unsigned value"); }
  vc_cover("end");
}
VC(U01, mag_u8) { mag<uint8_t>(); }
VC(U01, mag_u32) { mag<uint32_t>(); }
VC(U01, mag_u64) { mag<uint64_t>(); }
VC(U01, mag_i32) { mag<int32_t>(); }
VC(U01, mag_i64) { mag<int64_t>(); }
// power: every exponent for which a base above 1 has a representable power; base bounded by the integer root
template <class T> constexpr bool fits(T b, size_t e) { T r = 1; for (size_t i = 0; i < e; ++i) { if (b && r > (T)-1 / b) return false; r = (T)(r * b); } return true; }
template <class T> constexpr T iroot(size_t e) { T lo = 1, hi = (T)-1; while (lo < hi) { T m = (T)(lo + (hi - lo) / 2 + 1); if (fits<T>(m, e)) lo = m; else hi = (T)(m - 1); } return lo; }
template <class T, size_t... E> constexpr std::array<T, sizeof...(E)> roots(std::index_sequence<E...>) { return {{ iroot<T>(E + 1)... }}; }
template <class T> void power() {
  static constexpr auto top = roots<T>(std::make_index_sequence<std::numeric_limits<T>::digits - 1>());
  const size_t e = vc_shard() + 1;
  T b; if (sizeof(T) == 8) b = (T)vc_u64_lt((uint64_t)top[e - 1] + 1 ? (uint64_t)top[e - 1] + 1 : ~0ull); else b = (T)vc_u32_lt(e == 1 ? ~0u : (uint32_t)(top[e - 1] + 1));
  T want = 1; for (size_t i = 0; i < e; ++i) want = (T)(want * b);
  vc_check(utils::powui<T>(b, (T)e) == want, "the power, for every representable result");
  T c = vcn<T>(); vc_check(utils::powui<T>(c, (T)0) == 1, "anything to the power of zero is one");
  vc_cover("end");
}
// vc-opts power_u32 {"shards": 31}
// vc-opts power_u64 {"shards": 63}
VC(U01, power_u32) { power<uint32_t>(); }
VC(U01, power_u64) { power<uint64_t>(); }

// distances over coordinates whose components are below 2^31 (components are converted to int)
template <class C> SW ad(C a, C b) { return a < b ? (SW)b - a : (SW)a - b; }
template <class S, class T, size_t K> void manh() {
  chdr::coord<T, K> a{}, b{}; SW m = 0; bool eq = true;
  for (size_t k = 0; k < K; ++k) { a[k] = (T)vc_u32_lt(0x80000000u); b[k] = (T)vc_u32_lt(0x80000000u); vc_case(a[k] <= b[k]); m += ad(a[k], b[k]); eq = eq & (a[k] == b[k]); }
  if (sizeof(S) < 8) vc_assume(m <= (SW)std::numeric_limits<S>::max());
  S d = heuristics::manhattan_distance<S>(a, b), r = heuristics::manhattan_distance<S>(b, a);
  vc_check((SW)d == m, "the sum of the absolute differences"); vc_check(d == r, "symmetric"); vc_check((d == 0) == eq, "zero exactly for equal coordinates");
  // one axis step changes the distance by exactly one
  for (size_t k = 0; k < K; ++k) if (vc_case((SW)a[k] + 1 < (SW)0x80000000u && m + 1 <= (SW)std::numeric_limits<S>::max())) {
    auto a2 = a; a2[k] = a2[k] + 1; S e = heuristics::manhattan_distance<S>(a2, b); vc_check((SW)e - (SW)d <= 1 && (SW)d - (SW)e <= 1, "one step changes it by at most one (consistent for unit costs)"); }
  vc_cover("end");
}
VC(H01, manhattan_u32_u32_1) { manh<uint32_t, uint32_t, 1>(); }
VC(H01, manhattan_u32_u32_2) { manh<uint32_t, uint32_t, 2>(); }
VC(H01, manhattan_u32_u32_3) { manh<uint32_t, uint32_t, 3>(); }
VC(H01, manhattan_u64_u32_4) { manh<uint64_t, uint32_t, 4>(); }
VC(H01, manhattan_u64_u64_2) { manh<uint64_t, uint64_t, 2>(); }
VC(H01, manhattan_i32_u32_2) { manh<int32_t, uint32_t, 2>(); }
VC(H01, manhattan_i64_u64_3) { manh<int64_t, uint64_t, 3>(); }
template <class S, class T, size_t K> void cheb() {
  chdr::coord<T, K> a{}, b{}; SW m = 0, q = 0; bool eq = true;
  for (size_t k = 0; k < K; ++k) { a[k] = (T)vc_u32_lt(0x80000000u); b[k] = (T)vc_u32_lt(0x80000000u); vc_case(a[k] <= b[k]); SW x = ad(a[k], b[k]); if (vc_case(x > m)) m = x; eq = eq & (a[k] == b[k]); }
  S d = heuristics::chebyshev_distance<S>(a, b), r = heuristics::chebyshev_distance<S>(b, a);
  vc_check((SW)d == m, "the largest absolute difference"); vc_check(d == r, "symmetric"); vc_check((d == 0) == eq, "zero exactly for equal coordinates");
  vc_cover("end");
}
VC(H01, chebyshev_u32_u32_1) { cheb<uint32_t, uint32_t, 1>(); }
VC(H01, chebyshev_u32_u32_2) { cheb<uint32_t, uint32_t, 2>(); }
VC(H01, chebyshev_u64_u32_3) { cheb<uint64_t, uint32_t, 3>(); }
VC(H01, chebyshev_i32_u64_2) { cheb<int32_t, uint64_t, 2>(); }
template <class S, class T, size_t K> void sqr() {
  chdr::coord<T, K> a{}, b{}; SW m = 0;
  for (size_t k = 0; k < K; ++k) { a[k] = (T)vc_u32_lt(sizeof(S) == 8 ? 0x40000000u : 0x4000u); b[k] = (T)vc_u32_lt(sizeof(S) == 8 ? 0x40000000u : 0x4000u); vc_case(a[k] <= b[k]); SW x = ad(a[k], b[k]); m += x * x; }
  S d = heuristics::sqr_euclidean_distance<S>(a, b), r = heuristics::sqr_euclidean_distance<S>(b, a);
  vc_check((SW)d == m, "the sum of the squared differences"); vc_check(d == r, "symmetric");
  vc_cover("end");
}
VC(H01, sqr_u64_u32_1) { sqr<uint64_t, uint32_t, 1>(); }
VC(H01, sqr_u64_u32_2) { sqr<uint64_t, uint32_t, 2>(); }
VC(H01, sqr_u64_u64_3) { sqr<uint64_t, uint64_t, 3>(); }
VC(H01, sqr_u32_u32_2) { sqr<uint32_t, uint32_t, 2>(); }

#ifdef VC_NATIVE
#include <cmath>
// floating scalars and higher ranks: exhaustive over small coordinates
template <class S, size_t K> void floats(unsigned n) {
  using C = chdr::coord<uint32_t, K>; C a{}, b{}; size_t tot = 1; for (size_t k = 0; k < 2 * K; ++k) tot *= n;
  for (size_t i = 0; i < tot && (i % 4096 || vc_more()); ++i) { size_t t = i; for (auto& e : a) { e = t % n; t /= n; } for (auto& e : b) { e = t % n; t /= n; }
    long m = 0, x = 0, q = 0; for (size_t k = 0; k < K; ++k) { long d = std::labs((long)a[k] - (long)b[k]); m += d; if (d > x) x = d; q += d * d; }
    vc_note(vc_fmt("K=%zu case %zu", K, i));
    vc_check(heuristics::manhattan_distance<S>(a, b) == (S)m, "the sum of the absolute differences");
    vc_check(heuristics::chebyshev_distance<S>(a, b) == (S)x, "the largest absolute difference");
    vc_check(heuristics::sqr_euclidean_distance<S>(a, b) == (S)q, "the sum of the squared differences"); vc_ran(); }
}
VCB(H01, bounded_float) { floats<float, 2>(9); floats<double, 3>(5); floats<uint32_t, 4>(3); floats<float, 5>(2); floats<double, 1>(200); }
template <class T> void pow_case(T b, T e) { W w = 1; bool ok = true; if (b > 1) for (T i = 0; i < e && ok; ++i) { w *= b; ok = w <= (W)(T)-1; } else w = e == 0 ? 1 : b; if (!ok) return;
  vc_note(vc_fmt("powui(%llu, %llu)", (unsigned long long)b, (unsigned long long)e)); vc_check((W)utils::powui<T>(b, e) == w, "the power"); vc_ran(); }
VCB(U01, bounded_power) {
  for (unsigned b = 0; b < 256; ++b) for (unsigned e = 0; e < 256; ++e) pow_case<uint8_t>(b, e);          // complete for 8 bits
  for (unsigned b = 0; b < 256; ++b) for (unsigned e = 0; e < 256; ++e) { pow_case<uint32_t>(b, e); pow_case<uint64_t>(b, e); pow_case<size_t>(b, 0xFFFFFFFFFFFFFF00ull * (b < 2) + e % (b < 2 ? 256 : 64)); }
}
VCB(U02, bounded_text) {
  auto num = [](const std::string& s) { return strtold(s.c_str(), nullptr); };
  auto trim = [&](std::string s) { vc_note("trim_trailing_zeros(\"" + s + "\")"); auto t = utils::trim_trailing_zeros(s); vc_check(num(t) == num(s), "the numeric value is kept");
    if (s.find('.') != std::string::npos) vc_check(t.find('.') == std::string::npos || (t.back() != '0' && t.back() != '.'), "no zeros and no bare point are left at the end"); else vc_check(t == s, "a whole number is unchanged"); vc_ran(); };
  for (long i = 0; i < 20000; ++i) trim(std::to_string(i));
  for (int d = 0; d < 5; ++d) for (int i = 0; i < 3000; ++i) { char b[64]; std::snprintf(b, 64, "%.*f", d, i / 100.0); trim(b); std::snprintf(b, 64, "-%.*f", d, i * 10.0); trim(b); }
  const char* units[] = {"ns", "\xc2\xb5s", "ms", "s"}; const long double f[] = {1e9L, 1e6L, 1e3L, 1.0L};
  std::mt19937_64 r(vcrt::seed);
  for (int i = 0; i < 60000 && vc_more(); ++i) {
    long double d = i == 0 ? 0.0L : std::ldexp((long double)(r() >> 11) / 9007199254740992.0L + 0.5L, (int)(r() % 60) - 48); if (r() & 1) d = -d;
    long double sc = i % 3 == 0 ? 0.001L : i % 3 == 1 ? 0.25L : 1.0L;
    vc_note(vc_fmt("to_string(%.20Lg, %Lg)", d, sc));
    auto s = utils::to_string(d, sc); int u = std::fabs(d) >= 1.0L ? 3 : std::fabs(d * 1000.0L) >= 1.0L ? 2 : std::fabs(d * 1000.0L * 1000.0L) >= 1.0L ? 1 : 0; std::string un = units[u];
    vc_check(s.size() > un.size() && s.compare(s.size() - un.size(), un.size(), un) == 0 && (std::isdigit((unsigned char)s[s.size() - un.size() - 1])), "the unit that makes the magnitude at least one, or nanoseconds");
    vc_check(std::fabs(num(s) - d * f[u]) <= sc * 0.5L + 2e-6L + std::fabs(d * f[u]) * 1e-12L, "the value, rounded to the scale"); vc_ran(); }
}
#endif
