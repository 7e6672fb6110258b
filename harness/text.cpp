// U02: trimming a numeral.  The code of std::string is executed; find and find_last_not_of are used by their contracts.
// vc-opts . {"replace": {"std::__cxx11::basic_string<char, .*>::find\\(char, unsigned long\\) const": "vch_find", "std::__cxx11::basic_string<char, .*>::find_last_not_of\\(char, unsigned long\\) const": "vch_find_last_not_of"}}
// vc-cxx -D_GLIBCXX_ASSERTIONS
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
#include <string>
#ifndef VC_NATIVE
using u64 = uint64_t;
namespace tx { struct ghost { const char* d; u64 n, dot, i; bool has; char at_i; bool heap; }; inline ghost G; }
using namespace tx;
// positions in a short string, whose length is one of 16, are told apart one by one
static u64 split(u64 x) { if (!G.heap) for (u64 k = 0; k < G.n; ++k) if (vc_case(x == k)) return k; return x; }
// the first position of the character from `from` on, or npos
extern "C" u64 vch_find(const std::string* s, char c, u64 from) {
  const u64 n = s->size(); const char* d = s->data(); bool dot = vc_case((c == '.') & (from == 0) & (n == G.n));
  if (dot) return G.has ? G.dot : std::string::npos;      // the numeral has a decimal point at G.dot, or none
  if (vc_case(vc_bool())) { if (vc_case((G.i < n) & (G.i >= from))) vc_assume(d[G.i] != c); return std::string::npos; }
  u64 r = vc_u64(); vc_assume(r < n); vc_assume(r >= from); r = split(r); vc_assume(d[r] == c); if (vc_case((G.i < r) & (G.i >= from))) vc_assume(d[G.i] != c); return r;
}
// the last position up to `to` of another character, or npos
extern "C" u64 vch_find_last_not_of(const std::string* s, char c, u64 to) {
  const u64 n = s->size(); const char* d = s->data();
  if (vc_case(vc_bool())) { if (vc_case((G.i < n) & (G.i <= to))) vc_assume(d[G.i] == c); if (G.has) if (vc_case((G.dot < n) & (G.dot <= to))) vc_assume(d[G.dot] == c); return std::string::npos; }
  u64 r = vc_u64(); vc_assume(r < n); vc_assume(r <= to); r = split(r); vc_assume(d[r] != c); vc_assume((d[r] != '.') | (G.has & (r == G.dot)));      // a numeral has one decimal point at most
  if (!G.heap) for (u64 k = r + 1; k < n; ++k) vc_assume((d[k] == c) | (k > to));
  if (vc_case((G.i > r) & (G.i < n) & (G.i <= to))) vc_assume(d[G.i] == c);
  if (G.has) if (vc_case((G.dot > r) & (G.dot < n) & (G.dot <= to))) vc_assume(d[G.dot] == c);
  return r;
}
static void trim(bool heap) {
  G = ghost{}; G.heap = heap; std::string s;
  // a string of any length, in its own buffer or in a block
  char* d; u64 n = heap ? vc_u64() : vc_shard();
  if (heap) { u64 cap = vc_u64(); vc_assume(n <= cap); vc_assume(cap > 15); vc_assume(cap < VC_HUGE); d = (char*)vc_array(cap + 1, 1); s._M_data(d); s._M_capacity(cap); }
  else { d = s._M_data(); for (u64 k = 0; k < n; ++k) d[k] = (char)('0' + vc_u32_lt(10)); if (n > 0 && vc_case(vc_bool())) d[0] = '-'; }
  d[n] = 0; s._M_length(n); G.n = n; G.d = d; G.i = heap ? vc_u64() : ~0ull;
  // a numeral: digits, with at most one decimal point, which has a digit before it
  G.has = vc_case(vc_bool()); if (G.has) { G.dot = vc_u64(); vc_assume(G.dot < n); vc_assume(G.dot > 0); G.dot = split(G.dot); if (heap) vc_assume(d[G.dot] == '.'); else d[G.dot] = '.'; }
  char all[16]; if (!heap) for (u64 k = 0; k < n; ++k) all[k] = d[k];      // short strings are compared as a whole
  if (vc_case(G.i < n)) { G.at_i = d[G.i]; vc_assume((G.at_i != '.') | (G.has & (G.i == G.dot))); }
  const std::string t = chdr::utils::trim_trailing_zeros(std::move(s));
  const u64 m = t.size(); const char* e = t.data();
  vc_check(m <= n, "nothing is added");
  if (!heap) for (u64 k = 0; k < n; ++k) { if (k < m) vc_check(e[k] == all[k], "what is left is the begin of the numeral"); else if (G.has) vc_check((all[k] == '0') | (k == G.dot), "only zeros after the decimal point are taken away"); }
  if (vc_case(G.i < m)) vc_check(e[G.i] == G.at_i, "what is left is the begin of the numeral");
  if (!G.has) { vc_check(m == n, "a whole number is unchanged"); vc_cover("whole"); return; }
  vc_check(m >= G.dot, "the digits before the decimal point are kept");
  if (vc_case((G.i >= m) & (G.i < n))) vc_check((G.at_i == '0') | (G.i == G.dot), "only zeros after the decimal point are taken away");
  vc_check(m > 0, "something is left");
  if (m > G.dot) vc_check((e[m - 1] != '0') & (e[m - 1] != '.'), "no zeros and no bare point are left at the end");
  vc_check(e[m] == 0, "the text ends"); vc_cover("decimal");
}
VC(U02, trim_long) { trim(true); }
// vc-opts trim_short {"shards": 16}
VC(U02, trim_short) { trim(false); }
#endif
