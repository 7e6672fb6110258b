// M01-M04, bounded native runs through the public interface of the pools (the proofs are in pools.cpp).
#define VC_OWN_NEW
#include "chdr.hpp"
#include "vc.hpp"
#ifdef VC_NATIVE
#include <map>
#include <memory>
#include <sanitizer/asan_interface.h>
// counting global allocation functions with failure injection
namespace { long fail_in = -1; std::map<void*, std::pair<size_t, size_t>>* live; size_t bad_free = 0;
  struct hold { std::map<void*, std::pair<size_t, size_t>>* was; hold() : was(live) { live = nullptr; } ~hold() { live = was; } };
  void* get(size_t n, size_t a) {
    if (fail_in == 0) throw std::bad_alloc();
    if (fail_in > 0) --fail_in;
    if (n > (size_t(1) << 40)) throw std::bad_alloc();
    void* p = nullptr; if (posix_memalign(&p, a < 16 ? 16 : a, n ? n : 1) || !p) throw std::bad_alloc();
    if (live) { auto* l = live; live = nullptr; long f = fail_in; fail_in = -1; (*l)[p] = {n, a}; live = l; fail_in = f; }
    return p; }
  void put(void* p, size_t a) { if (!p) return; if (live) { auto* l = live; live = nullptr; auto it = l->find(p); if (it != l->end()) { if (it->second.second != a) ++bad_free; l->erase(it); } live = l; } std::free(p); } }
void* operator new(size_t n) { return get(n, 0); } void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void operator delete(void* p) noexcept { put(p, 0); } void operator delete(void* p, size_t) noexcept { put(p, 0); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, (size_t)a); } void operator delete(void* p, size_t, std::align_val_t a) noexcept { put(p, (size_t)a); }
struct piece { unsigned char* p; size_t n, a; unsigned char tag; };
// Every outstanding piece keeps its tag: overlapping pieces, or pieces outside their memory, are seen here or by the sanitizer.
struct shadow { std::vector<piece> v; unsigned char tag = 0;
  void add(void* q, size_t n, size_t a) { vc_check(q != nullptr, "an allocation is not null"); vc_check((uintptr_t)q % a == 0, "an allocation is aligned as asked"); auto* p = (unsigned char*)q;
    { hold h; for (auto& o : v) vc_check(p + n <= o.p || o.p + o.n <= p, "outstanding allocations are disjoint"); }
    std::memset(p, ++tag, n); hold h; v.push_back({p, n, a, tag}); }
  void same(const piece& x) { vc_check(x.p[0] == x.tag && x.p[x.n - 1] == x.tag && x.p[x.n / 2] == x.tag, "outstanding memory keeps its content"); }
  void all() { for (auto& x : v) same(x); }
  piece take(size_t i) { piece x = v[i]; same(x); v[i] = v.back(); v.pop_back(); return x; } };
size_t rnd(size_t n) { return vcrt::rng() % n; }
size_t rsize(size_t most) { size_t k; switch (rnd(6)) { case 0: k = 1 + rnd(8); break; case 1: case 2: k = 1 + rnd(64); break; case 3: k = size_t(1) << rnd(13); break; case 4: k = 1 + rnd(6000); break; default: k = 1 + rnd(700); } return k > most ? 1 + rnd(most) : k; }
template <class P> void history(const char* what, bool one_size, bool over, bool failing, size_t width) {
  std::map<void*, std::pair<size_t, size_t>> l; std::string log; bad_free = 0; fail_in = -1;
  { alignas(64) static unsigned char mem[sizeof(P) + 64]; P* p = nullptr; auto* place = mem + 16 * rnd(4);
    live = &l; p = ::new ((void*)place) P(width); shadow s; size_t n1 = rsize(one_size ? (width < 4096 ? width : 4096) : 5000), a1 = size_t(1) << rnd(over ? 8 : 5);
    size_t steps = 4 + rnd(failing ? 20 : 60);
    for (size_t k = 0; k < steps; ++k) {
      size_t op = rnd(20);
      if (op < 11) { size_t n = one_size ? n1 : rsize(1 << 17), a = one_size ? a1 : size_t(1) << rnd(over ? 8 : 5);
        { hold h; log += vc_fmt(" a%zu/%zu", n, a); vc_note(vc_fmt("%s:", what) + log, 60); }
        if (failing) fail_in = rnd(3);
        void* q = nullptr; bool threw = false; try { q = p->allocate(n, a); } catch (std::bad_alloc&) { threw = true; } fail_in = -1;
        if (!threw) s.add(q, n, a); else vc_check(failing || what[1] == 'e', "an allocation succeeds while memory is available"); }
      else if (op < 16 && !s.v.empty()) { piece x; { hold h; x = s.take(rnd(s.v.size())); log += vc_fmt(" d%zu", x.n); vc_note(vc_fmt("%s:", what) + log, 60); } p->deallocate(x.p, x.n, x.a); }
      else if (op == 16) { { hold h; log += " reset"; s.all(); s.v.clear(); } if (failing) fail_in = rnd(3); p->reset(); fail_in = -1; if (one_size && rnd(2) && 0) n1 = n1; }
      else if (op == 17) { { hold h; log += " release"; s.all(); s.v.clear(); } p->release(); }
      else if (op == 18 && !one_size && !failing) { { hold h; log += " huge"; vc_note(vc_fmt("%s:", what) + log, 60); } void* q = nullptr; size_t n = SIZE_MAX - rnd(40), a = size_t(1) << rnd(7);
        try { q = p->allocate(n, a); vc_check(q == nullptr, "a request that cannot be met is refused"); } catch (std::bad_alloc&) {} }
      hold h; s.all(); }
    { hold h; s.all(); } p->~P(); live = nullptr; { shadow t; std::swap(t, s); } }
  for (auto& x : l) if (x.second.second > 0) { vc_note(std::string(what) + ":" + log); vc_check(false, "every block is given back"); }
  vc_check(bad_free == 0, "a block is given back with the alignment it was allocated with");
}
template <class P> void histories(const char* w, bool one, bool failing) {
  static const size_t widths[] = {4096, 4096, 65536, 100000, 64, 1000, 37, 2, 512};
  while (vc_more()) { for (int i = 0; i < 32; ++i) { size_t wd = widths[rnd(one ? 6 : 9)]; bool over = rnd(3) == 0;
    history<P>(w, one, over, failing, wd); vc_ran(); } }
}
using chdr::monotonic_pool; using chdr::homogeneous_pool; using chdr::heterogeneous_pool; constexpr size_t ANY = SIZE_MAX;
VCB(M01, histories) { auto d = vcrt::deadline; auto t = std::chrono::steady_clock::now(); vcrt::deadline = t + (d - t) / 2; histories<monotonic_pool<>>("monotonic_pool<>", false, false); vcrt::deadline = d; histories<monotonic_pool<100, 64, 3000>>("monotonic_pool<100,64,3000>", false, false); }
VCB(M02, histories) { auto d = vcrt::deadline; auto t = std::chrono::steady_clock::now(); vcrt::deadline = t + (d - t) / 2; histories<homogeneous_pool<>>("homogeneous_pool<>", true, false); vcrt::deadline = d; histories<homogeneous_pool<100, 64>>("homogeneous_pool<100,64>", true, false); }
VCB(M03, histories) { auto d = vcrt::deadline; auto t = std::chrono::steady_clock::now(); vcrt::deadline = t + (d - t) / 2; histories<heterogeneous_pool<>>("heterogeneous_pool<>", false, false); vcrt::deadline = d; histories<heterogeneous_pool<100, 64, 3000>>("heterogeneous_pool<100,64,3000>", false, false); }
VCB(M04, failing) { auto d = vcrt::deadline; auto t = std::chrono::steady_clock::now(); auto part = (d - t) / 3;
  vcrt::deadline = t + part; histories<monotonic_pool<64>>("monotonic_pool<64>", false, true); vcrt::deadline = t + 2 * part; histories<homogeneous_pool<64>>("homogeneous_pool<64>", true, true); vcrt::deadline = d; histories<heterogeneous_pool<64>>("heterogeneous_pool<64>", false, true); }
#endif
