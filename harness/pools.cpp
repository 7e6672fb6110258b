// M01-M04: memory pools.  Every operation from an arbitrary state that satisfies the pool's invariant:
//   monotonic:      outstanding memory lies in stack[0, m_stack_write), active block[0, m_block_write) and the other blocks
//   homogeneous:    outstanding memory lies in stack[0, m_stack_write) and the blocks, apart from the chunks listed in m_free
//   heterogeneous:  the same with regions of any size in m_free (harness/stubs_map/map)
// An allocation lies in memory that was not outstanding before and is outstanding afterwards, hence is disjoint from all others.
// vc-cxx -I@V/harness/stubs_map
// vc-opts (alloc|free|fail)_ {"bytewise": "(?:chdr::\\w+_pool<[^()]*>::block|(?:std::)?byte)"}
// vc-opts (drop|reset)_ {"bounded": "at most 3 blocks", "bytewise": "(?:chdr::\\w+_pool<[^()]*>::block|(?:std::)?byte)"}
#include "chdr.hpp"
#include "vc.hpp"
#include "mem.hpp"
constexpr size_t LIM = VC_HUGE;
template <class B> B& put_block(B* place, const B& b) { __builtin_memcpy((void*)place, (const void*)&b, sizeof(B)); return *place; }
// an arbitrary vector of n elements with room for cap: its elements are at vc_array
template <class T> T* any_vector(std::vector<T>& v, size_t n) { size_t cap = vc_u64(); vc_assume(n <= cap && cap < (size_t(1) << 30)); T* d = (T*)vc_array(cap, sizeof(T));
  if constexpr (sizeof(T) == 8) vc_layout(d, 0, 8, -1); else if constexpr (sizeof(T) == 16) vc_layout(d, 0, 8, 8, 8, -1); else vc_layout(d, 0, 8, 8, 8, 16, 8, -1);
  auto& im = v._M_impl; im._M_start = d; im._M_finish = d + n; im._M_end_of_storage = d + cap; return d; }
template <class P> struct any_pool { using B = typename P::block; alignas(P) unsigned char mem[sizeof(P)]; size_t w, n = 0, al; P& p() { return *reinterpret_cast<P*>(mem); }
  static constexpr size_t S = P::s_stack_block_size;
  any_pool() { size_t width = vc_u64(); vc_assume(width >= 2 && width < LIM); ::new ((void*)mem) P(width); w = vc_u64(); vc_assume(w <= S); p().m_stack_write = w;
    size_t bw = vc_u64(); vc_assume(bw >= 1 && bw < LIM); p().m_block_width = bw; al = size_t(1) << vc_pin(vc_u32_lt(9), 9); }
  bool in_stack(void* r) { return vc_within(r, p().m_stack_block, S); }
  void stack_result(void* r, size_t k) { size_t off = (unsigned char*)r - p().m_stack_block; vc_check(off >= w, "stack memory that was handed out is not handed out again"); vc_check(off + k <= S, "the allocation ends inside the stack block");
    vc_check(p().m_stack_write >= off + k && p().m_stack_write <= S, "the allocation is no longer free"); }
  void aligned(void* r) { vc_check(r != nullptr, "an allocation is not null"); vc_check(((uintptr_t)r & (al - 1)) == 0, "an allocation is aligned as asked"); } };
// ---- monotonic_pool
template <class P> struct any_mono : any_pool<P> { using B = typename P::block; unsigned char* data = nullptr; size_t size = 0, bw = 0; B* e = nullptr; using any_pool<P>::n; using any_pool<P>::p;
  any_mono() { auto& q = p(); if (vc_case(vc_bool())) { n = vc_u64(); vc_assume(n >= 1 && n < (size_t(1) << 29)); e = any_vector(q.m_blocks, n); size = vc_u64(); vc_assume(size >= 1 && size < LIM); data = (unsigned char*)vc_array(size, 1);
      put_block(e + (n - 1), B(size, vc_u64(), data)); q.m_active_block_index = n - 1; bw = vc_u64(); vc_assume(bw <= size); q.m_block_write = bw; } else { q.m_active_block_index = 0; q.m_block_write = 0; } } };
template <class P> void mono_alloc(bool fails) { any_mono<P> a; auto& p = a.p(); size_t k = vc_u64(); vc_assume(k >= 1); if (!fails) vc_assume(k < LIM); size_t i = vc_u64(); size_t is = 0; if (vc_case(i < a.n)) is = a.e[i].size;
  vc_live_start(); vc_alloc_may_fail(fails); void* r = nullptr; bool threw = false; try { r = p.allocate(k, a.al); } catch (const std::bad_alloc&) { threw = true; } vc_alloc_may_fail(false);
  if (vc_case(i < a.n)) vc_check(p.m_blocks[i].size == is, "the listed blocks are unchanged");
  if (threw) { vc_check(fails, "an allocation succeeds while memory is available"); vc_check(p.m_blocks.size() == a.n, "a failed allocation adds no block"); vc_check(vc_live() == 0, "a failed allocation keeps no memory"); vc_check(p.m_stack_write == a.w, "a failed allocation takes no stack memory");
    if (a.n) vc_check(p.m_active_block_index == a.n - 1 && p.m_block_write >= a.bw && p.m_block_write <= a.size, "a failed allocation keeps the active block"); if (fails) vc_cover("failed"); return; }
  a.aligned(r);
  if (a.in_stack(r)) { a.stack_result(r, k); vc_check(p.m_blocks.size() == a.n && p.m_active_block_index == (a.n ? a.n - 1 : 0) && p.m_block_write >= a.bw && p.m_block_write <= a.size, "the blocks are unchanged"); vc_cover("stack"); return; }
  vc_check(p.m_stack_write >= a.w && p.m_stack_write <= a.S, "the stack block is unchanged");
  if (a.n && vc_within(r, a.data, a.size)) { size_t off = (unsigned char*)r - a.data; vc_check(off >= a.bw, "memory of the block that was handed out is not handed out again"); vc_check(off + k <= a.size, "the allocation ends inside the block");
    vc_check(p.m_block_write >= off + k && p.m_block_write <= a.size, "the allocation is no longer free"); vc_check(p.m_blocks.size() == a.n && p.m_active_block_index == a.n - 1, "the block stays active"); vc_cover("block"); return; }
  vc_check(p.m_blocks.size() == a.n + 1 && p.m_active_block_index == a.n, "a new block is active"); auto& b = p.m_blocks.back(); size_t off = (unsigned char*)r - b.data; vc_check(vc_within(r, b.data, b.size), "the allocation starts in the new block");
  vc_check(off + k <= b.size, "the allocation ends inside the new block"); vc_check(p.m_block_write >= off + k && p.m_block_write <= b.size, "the allocation is no longer free"); vc_check(b.alignment == a.al, "the block remembers its alignment");
  b.data[0] = 1; b.data[b.size - 1] = 1; vc_cover("new"); }
using mono = chdr::monotonic_pool<>; using mono_odd = chdr::monotonic_pool<100, 64, 3000>;
VC(M01, alloc_mono) { mono_alloc<mono>(false); }
VC(M01, alloc_mono_odd) { mono_alloc<mono_odd>(false); }
VC(M04, fail_mono) { mono_alloc<mono>(true); }
VC(M04, fail_mono_odd) { mono_alloc<mono_odd>(true); }
// ---- homogeneous_pool: all allocations have one size and one alignment
template <class P> struct any_homo : any_pool<P> { using B = typename P::block; using any_pool<P>::n; using any_pool<P>::p; using any_pool<P>::al; size_t k, f = 0, cs = 0; B* e; uint8_t** fr = nullptr; unsigned char* chunk = nullptr;
  any_homo(bool some_free) { auto& q = p(); k = vc_u64(); vc_assume(k >= 1 && k <= q.m_initial_block_width); q.m_alignment = vc_bool() ? al : 0; n = vc_u64(); vc_assume(n < (size_t(1) << 29)); e = any_vector(q.m_blocks, n); if (vc_case(n > 0)) put_block(e + (n - 1), B(vc_u64(), (uint8_t*)vc_array(1, 1)));
    if (some_free) { f = vc_u64(); vc_assume(f >= 1 && f < (size_t(1) << 29)); fr = any_vector(q.m_free, f); cs = vc_u64(); vc_assume(cs >= k && cs < LIM); chunk = (unsigned char*)vc_array(cs, 1); vc_assume(((uintptr_t)chunk & (al - 1)) == 0); fr[f - 1] = chunk; } } };
template <class P> void homo_alloc(bool fails) { any_homo<P> a(true); auto& p = a.p(); size_t i = vc_u64(), is = 0; if (vc_case(i < a.n)) is = a.e[i].size; vc_live_start(); vc_alloc_may_fail(fails);
  void* r = p.allocate(a.k, a.al); vc_alloc_may_fail(false); a.aligned(r); vc_check(p.m_alignment == a.al, "the alignment is remembered"); vc_check(p.m_blocks.size() == a.n, "no block is added while chunks are free"); if (vc_case(i < a.n)) vc_check(p.m_blocks[i].size == is, "the listed blocks are unchanged");
  if (a.in_stack(r)) { a.stack_result(r, a.k); vc_check(p.m_free.size() == a.f, "the free chunks stay free"); vc_cover("stack"); return; }
  vc_check(r == a.chunk, "the allocation is a free chunk"); vc_check(p.m_free.size() == a.f - 1, "the chunk is no longer free"); vc_cover("chunk"); }
template <class P> void homo_new(bool fails) { any_homo<P> a(false); auto& p = a.p(); { const size_t ks[] = {1, 8, 20, 24}; a.k = ks[vc_pin(vc_u32_lt(4), 4)]; vc_assume(a.k <= p.m_initial_block_width); } vc_assume(p.m_block_width / a.k < 4 && p.m_initial_block_width / a.k < 4 && a.al == 8 && a.w == a.S); size_t i = vc_u64(), is = 0; if (vc_case(i < a.n)) is = a.e[i].size;
  vc_live_start(); vc_alloc_may_fail(fails); void* r = nullptr; bool threw = false; try { r = p.allocate(a.k, a.al); } catch (const std::bad_alloc&) { threw = true; } vc_alloc_may_fail(false);
  if (vc_case(i < a.n)) vc_check(p.m_blocks[i].size == is, "the listed blocks are unchanged");
  if (threw) { vc_check(fails, "an allocation succeeds while memory is available"); vc_check(p.m_blocks.size() == a.n && p.m_free.empty(), "a failed allocation adds no block and no chunk"); vc_check(p.m_stack_write == a.w, "a failed allocation takes no stack memory"); if (fails) vc_cover("failed"); return; }
  a.aligned(r); if (a.in_stack(r)) { a.stack_result(r, a.k); vc_check(p.m_blocks.size() == a.n && p.m_free.empty(), "the blocks are unchanged"); vc_cover("stack"); return; }
  vc_check(p.m_blocks.size() == a.n + 1, "a new block is listed"); auto& b = p.m_blocks.back(); b.data[0] = 1; b.data[b.size - 1] = 1; vc_check(vc_within(r, b.data, b.size), "the allocation starts in the new block"); size_t off = (unsigned char*)r - b.data; vc_check(off + a.k <= b.size, "the allocation ends inside the new block");
  size_t m = p.m_free.size(), x = vc_pin(vc_u32_lt(3), 3), y = vc_pin(vc_u32_lt(3), 3); if (x < m) { auto* c = p.m_free[x]; vc_check(((uintptr_t)c & (a.al - 1)) == 0, "a free chunk is aligned"); vc_check(vc_within(c, b.data, b.size), "a free chunk starts in the block"); size_t o = c - b.data; vc_check(o + a.k <= b.size, "a free chunk ends inside the block");
    vc_check(o + a.k <= off || off + a.k <= o, "a free chunk is disjoint from the allocation"); if (y < x) { size_t o2 = p.m_free[y] - b.data; vc_check(o + a.k <= o2 || o2 + a.k <= o, "free chunks are disjoint"); } }
  vc_cover("new"); }
template <class P> void homo_free(bool) { any_homo<P> a(true); auto& p = a.p(); p.m_alignment = a.al; unsigned char* q = (unsigned char*)vc_array(a.k, 1); size_t j = vc_u64(); vc_assume(j < a.n); size_t js = a.e[j].size; p.deallocate(q, a.k, a.al);
  vc_check(p.m_free.size() == a.f + 1 && p.m_free.back() == q, "the released chunk is free"); vc_check(p.m_free[a.f - 1] == a.chunk, "the other free chunks stay free"); vc_check(p.m_blocks.size() == a.n && p.m_blocks[j].size == js && p.m_stack_write == a.w, "nothing else changes"); vc_cover("end"); }
using homo = chdr::homogeneous_pool<>; using homo_odd = chdr::homogeneous_pool<100, 64, 3000>;
VC(M02, alloc_homo) { homo_alloc<homo>(false); }
VC(M02, alloc_homo_odd) { homo_alloc<homo_odd>(false); }
VC(M02, free_homo) { homo_free<homo>(false); }
// vc-opts (fail_)?new_homo {"bounded": "at most 4 chunks per block, sizes 1, 8, 20 and 24", "bytewise": "(?:chdr::\\w+_pool<[^()]*>::block|(?:std::)?byte)"}
VC(M02, new_homo) { homo_new<homo>(false); }
VC(M02, new_homo_odd) { homo_new<homo_odd>(false); }
VC(M04, fail_homo) { homo_alloc<homo>(true); }
VC(M04, fail_new_homo) { homo_new<homo_odd>(true); }
// ---- heterogeneous_pool
struct region { unsigned char* p; size_t n; };
static region vc_out[4], vc_in[4]; static unsigned vc_nout, vc_nin, vc_nclear; static unsigned char* vc_known = nullptr;
#ifndef VC_NATIVE
template <class K, class V> void vc_map_any(const K& lo, K& k, V& v) { size_t total = vc_u64(), d = vc_u64(); vc_assume(d < total && total < LIM); auto* o = (unsigned char*)vc_array(total, 1); v.data = o + d; v.size = vc_u64(); vc_assume(v.size >= 1 && v.size <= total - d); k = vc_u64(); vc_assume(k >= lo && k <= v.size); v.alignment = vc_u64(); }
template <class K, class V> void vc_map_taken(const K&, const V& v) { vc_out[vc_nout].p = v.data; vc_out[vc_nout].n = v.size; ++vc_nout; }
template <class K, class V> void vc_map_put(const K& k, const V& v) { vc_check(k >= 1 && k <= v.size, "the key of a free region does not exceed its size"); vc_in[vc_nin].p = v.data; vc_in[vc_nin].n = v.size; ++vc_nin; }
inline void vc_map_cleared() { ++vc_nclear; }
template <class P> struct any_het : any_pool<P> { using B = typename P::block; using any_pool<P>::n; using any_pool<P>::p; B* e; any_het() { auto& q = p(); n = vc_u64(); vc_assume(n < (size_t(1) << 29)); e = any_vector(q.m_blocks, n); if (vc_case(n > 0)) put_block(e + (n - 1), B(vc_u64(), vc_u64(), (uint8_t*)vc_array(1, 1))); vc_nout = vc_nin = vc_nclear = 0; } };
inline void inside(unsigned char* b, size_t n, void* r, size_t k) {       // [r, r + k) and what was put back are disjoint parts of [b, b + n)
  vc_check(vc_within(r, b, n), "the allocation starts in the region"); size_t off = (unsigned char*)r - b; vc_check(off + k <= n, "the allocation ends inside the region");
  if (vc_nin) { vc_check(vc_nin == 1, "one remainder"); vc_check(vc_within(vc_in[0].p, b, n), "the remainder starts in the region"); size_t o = vc_in[0].p - b; vc_check(vc_in[0].n >= 1 && o + vc_in[0].n <= n, "the remainder ends inside the region"); vc_check(o >= off + k || o + vc_in[0].n <= off, "the remainder is disjoint from the allocation"); } }
template <class P> void het_alloc(bool fails) { any_het<P> a; auto& p = a.p(); size_t k = vc_u64(); vc_assume(k >= 1); if (!fails) vc_assume(k < LIM); size_t i = vc_u64(), is = 0; if (vc_case(i < a.n)) is = a.e[i].size;
  vc_live_start(); vc_alloc_may_fail(fails); void* r = nullptr; bool threw = false; try { r = p.allocate(k, a.al); } catch (const std::bad_alloc&) { threw = true; } vc_alloc_may_fail(false);
  if (vc_case(i < a.n)) vc_check(p.m_blocks[i].size == is, "the listed blocks are unchanged"); vc_check(vc_nclear == 0, "the free regions are kept");
  if (threw) { vc_check(p.m_blocks.size() == a.n, "a failed allocation adds no block"); vc_check(p.m_stack_write == a.w, "a failed allocation takes no stack memory"); vc_check(vc_nout == 0 && vc_nin == 0, "a failed allocation keeps the free regions"); if (fails) vc_cover("failed"); return; }
  a.aligned(r);
  if (a.in_stack(r)) { a.stack_result(r, k); vc_check(p.m_blocks.size() == a.n && vc_nout == 0 && vc_nin == 0, "blocks and free regions are unchanged"); vc_cover("stack"); return; }
  vc_check(p.m_stack_write >= a.w && p.m_stack_write <= a.S, "the stack block is unchanged");
  if (vc_nout) { vc_check(vc_nout == 1 && p.m_blocks.size() == a.n, "one free region is used"); inside(vc_out[0].p, vc_out[0].n, r, k); vc_cover("free"); return; }
  vc_check(p.m_blocks.size() == a.n + 1, "a new block is listed"); auto& b = p.m_blocks.back(); vc_check(b.alignment == a.al, "the block remembers its alignment"); b.data[0] = 1; b.data[b.size - 1] = 1; inside(b.data, b.size, r, k); vc_cover("new"); }
template <class P> void het_free(bool) { any_het<P> a; auto& p = a.p(); size_t k = vc_u64(), tot = vc_u64(), d = vc_u64(); vc_assume(k >= 1 && tot < LIM && d < tot && k <= tot - d); auto* o = (unsigned char*)vc_array(tot, 1); unsigned char* q = o + d; size_t j = vc_u64(); vc_assume(j < a.n); size_t js = a.e[j].size; p.deallocate(q, k, a.al);
  vc_check(p.m_blocks.size() == a.n && p.m_blocks[j].size == js && p.m_stack_write == a.w && vc_nclear == 0, "blocks are unchanged"); vc_check(vc_nin <= 1, "at most one region becomes free"); if (vc_nin && !vc_nout) vc_check(vc_in[0].p == q && vc_in[0].n <= k, "the freed region is the released one"); vc_cover("end"); }
using het = chdr::heterogeneous_pool<>; using het_odd = chdr::heterogeneous_pool<100, 64, 3000>;
// vc-opts (alloc|free|fail)_het {"bytewise": "(?:chdr::\\w+_pool<[^()]*>::block|(?:std::)?byte)", "stateless": "heterogeneous_pool<.*>::"}
VC(M03, alloc_het) { het_alloc<het>(false); }
VC(M03, alloc_het_odd) { het_alloc<het_odd>(false); }
VC(M03, free_het) { het_free<het>(false); }
VC(M04, fail_het) { het_alloc<het>(true); }
VC(M04, fail_het_odd) { het_alloc<het_odd>(true); }
// ---- giving memory back: the blocks are released once each, with the alignment they were allocated with
template <class P> struct held { alignas(P) unsigned char mem[sizeof(P)]; P* p; size_t n; size_t sz[3]; unsigned char* d[3]; held() { vc_live_start(); p = ::new ((void*)mem) P(64); n = vc_pin(vc_u32_lt(4), 4); using B = typename P::block; constexpr size_t al = 32;
    for (size_t i = 0; i < n; ++i) { sz[i] = vc_u64(); vc_assume(sz[i] >= 96 && sz[i] < 200); d[i] = (unsigned char*)::operator new(sz[i], std::align_val_t(al)); if constexpr (sizeof(B) == 16) { p->m_blocks.emplace_back(sz[i], d[i]); p->m_alignment = al; } else p->m_blocks.emplace_back(sz[i], al, d[i]); }
    p->m_stack_write = vc_u64_lt(101); } };
template <class P> void drop() { held<P> h; auto& p = *h.p; unsigned how = vc_shard();
  if (how == 0) p.~P();
  else if (how == 1) { p.release(); vc_check(p.m_blocks.empty() && p.m_stack_write == 0, "a released pool holds nothing"); p.~P(); }
  else if (how == 2) { { P q(std::move(p)); vc_check(q.m_blocks.size() == h.n, "a moved pool holds the blocks"); vc_check(p.m_blocks.empty(), "the source holds none"); } p.~P(); }
  else { { P q(64); q = std::move(p); vc_check(q.m_blocks.size() == h.n, "an assigned pool holds the blocks"); vc_check(p.m_blocks.empty(), "the source holds none"); } p.~P(); }
  vc_check(vc_live() == 0, "all memory is given back"); vc_cover("end"); }
// vc-opts drop_ {"shards": 4}
VC(M01, drop_mono) { drop<mono_odd>(); }
VC(M02, drop_homo) { drop<homo_odd>(); }
VC(M03, drop_het) { drop<het_odd>(); }
VC(M01, reset_mono) { held<mono_odd> h; h.p->reset(); vc_check(h.p->m_blocks.empty() && h.p->m_stack_write == 0 && h.p->m_active_block_index == 0 && h.p->m_block_write == 0, "a reset pool starts over"); h.p->~mono_odd(); vc_check(vc_live() == 0, "all memory is given back"); vc_cover("end"); }
VC(M02, reset_homo) { held<homo_odd> h; auto& p = *h.p; p.m_initial_block_width = 40 + 8 * vc_pin(vc_u32_lt(4), 4); vc_assume(h.n < 3); p.reset(); vc_check(p.m_blocks.size() == h.n && p.m_stack_write == 0, "the blocks are kept");
  size_t m = p.m_free.size(), x = vc_pin(vc_u32_lt(8), 8), y = vc_pin(vc_u32_lt(8), 8); vc_assume(x < m); auto* c = p.m_free[x]; vc_check(((uintptr_t)c & 31) == 0, "a free chunk is aligned"); size_t b = h.n; for (size_t i = 0; i < h.n; ++i) if (vc_within(c, h.d[i], h.sz[i])) b = i; vc_check(b < h.n, "a free chunk starts in a block");
  size_t o = c - h.d[b], k = p.m_initial_block_width; vc_check(o + k <= h.sz[b], "a free chunk ends inside the block"); if (y < x) { auto* c2 = p.m_free[y]; if (vc_within(c2, h.d[b], h.sz[b])) { size_t o2 = c2 - h.d[b]; vc_check(o + k <= o2 || o2 + k <= o, "free chunks are disjoint"); } } vc_cover("end"); }
VC(M03, reset_het) { held<het_odd> h; auto& p = *h.p; vc_nin = vc_nout = vc_nclear = 0; p.reset(); vc_check(p.m_blocks.size() == h.n && p.m_stack_write == 0, "the blocks are kept"); vc_check(vc_nclear >= 1, "the free regions start over"); vc_check(vc_nin <= h.n, "free regions come from blocks");
  for (size_t i = 0; i < vc_nin; ++i) { size_t b = h.n; for (size_t j = 0; j < h.n; ++j) if (vc_within(vc_in[i].p, h.d[j], h.sz[j])) b = j; vc_check(b < h.n, "a free region starts in a block"); size_t o = vc_in[i].p - h.d[b]; vc_check(o + vc_in[i].n <= h.sz[b], "a free region ends inside its block");
    for (size_t j = 0; j < i; ++j) if (vc_within(vc_in[j].p, h.d[b], h.sz[b])) { size_t o2 = vc_in[j].p - h.d[b]; vc_check(o2 + vc_in[j].n <= o || o + vc_in[i].n <= o2, "free regions are disjoint"); } } vc_cover("end"); }
#endif
