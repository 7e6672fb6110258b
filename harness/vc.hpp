// The harness language.  In the verifier's build these functions are interpreted by /verif/vc/prims.py;
// in the native build (-DVC_NATIVE) they are implemented by harness/vc_native.hpp: inputs come from a replay file
// (a verifier model), from a random generator, or from an exhaustive enumerator.
//   VC(prop, name)  { ... }   a proof harness: all its vc_* inputs are universally quantified
//   VCN(prop, name) { ... }   (inside #ifdef VC_NATIVE) native only: a bounded or random search used to concretise a failed obligation
//   VCB(prop, name) { ... }   (inside #ifdef VC_NATIVE) native only: a bounded stand-in that every run executes (never counted as proved)
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
  uint8_t  vc_u8();  uint16_t vc_u16(); uint32_t vc_u32(); uint64_t vc_u64(); int32_t vc_i32(); bool vc_bool();
  uint32_t vc_u32_lt(uint32_t); uint64_t vc_u64_lt(uint64_t);
  void vc_assume(bool); void vc_check(bool, const char*); void vc_cover(const char*);
  bool vc_case(bool); uint32_t vc_shard(); uint64_t vc_pin(uint64_t, uint64_t);
  void vc_nonneg(const unsigned __int128&, const unsigned __int128&);
  void* vc_array(size_t n, size_t elem); void vc_layout(void*, ...);
  void vc_abstract(); bool vc_symbolic(); void vc_unreachable();
  void vc_alloc_may_fail(bool); void vc_live_start(); int vc_live(); bool vc_within(const void*, const void*, size_t);      // pools
  int vc_cut(int, const void*, ...); uint8_t vc_rel(uint32_t, uint32_t); void vc_cut_free(const void*); void vc_end();      // see vc/specs.py
  void vc_chain(const void*, size_t, size_t, size_t); uint32_t vc_chain_index(size_t); uint32_t vc_fn(uint32_t, uint32_t);      // see ChainLoop in vc/specs.py
  void vc_locals(int mode, bool given, uint64_t always, uint64_t then); int vc_choice(int);      // see vc/specs.py
  void vc_throw(int); void vc_throw_bad_alloc();
  uint64_t vc_key(uint64_t); void vc_heap_order(uint64_t*, size_t n, size_t kd); int64_t vc_occ(const uint64_t*, size_t n, uint64_t x);   // heaps: see vc/specs.py
}
template <class T> inline T vcn() {
  if constexpr (std::is_same_v<T, bool>) return vc_bool();
  else if constexpr (sizeof(T) == 1) return (T)vc_u8(); else if constexpr (sizeof(T) == 2) return (T)vc_u16();
  else if constexpr (sizeof(T) == 4) return (T)vc_u32(); else return (T)vc_u64();
}
inline void vc_hint(const unsigned __int128& a, const unsigned __int128& b) { vc_nonneg(a, b); }
#ifdef VC_NATIVE
#include "vc_native.hpp"
#define VC_REG(kind, prop, name) \
  static void vch_##prop##__##name(); static vc_reg vcr_##prop##__##name(kind, #prop "__" #name, vch_##prop##__##name); static void vch_##prop##__##name()
#define VC(prop, name)  VC_REG('P', prop, name)
#define VCN(prop, name) VC_REG('S', prop, name)
#define VCB(prop, name) VC_REG('B', prop, name)
#else
#define VC(prop, name)  extern "C" void vch_##prop##__##name()
#endif
