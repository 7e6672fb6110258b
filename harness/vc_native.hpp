// Native implementation of the harness language: replay / random / search.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <chrono>
#include <random>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <csignal>
#include <sys/wait.h>
#include <functional>
#include <set>
struct vc_stop { };
struct vc_reg { char kind; const char* name; void (*fn)(); vc_reg* next; static vc_reg*& head() { static vc_reg* h; return h; }
  vc_reg(char k, const char* n, void (*f)()) : kind(k), name(n), fn(f), next(head()) { head() = this; } };
namespace vcrt {
  inline int mode = 0;                     // 0 replay, 1 random
  inline std::vector<std::string> toks; inline size_t pos = 0;
  inline std::mt19937_64 rng;
  inline std::vector<std::string> log;     // inputs of the current run
  inline std::vector<void*> arrays;
  inline unsigned long long runs = 0, checks = 0, skipped = 0, covers = 0;
  inline std::string note;                 // description of the current case of a search
  inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now(), deadline;
  inline unsigned long seed = 1, shards = 1; inline bool thorough = false;
  inline bool more() { return std::chrono::steady_clock::now() < deadline; }
  inline unsigned long long next(unsigned w, const char* k) {
    unsigned long long v = 0;
    if (mode == 0) { if (pos < toks.size()) v = strtoull(toks[pos++].c_str(), nullptr, 10); }
    else {
      static thread_local int depth = 0; (void)depth;
      switch (rng() % 8) { case 0: case 1: case 2: v = rng() % 4; break; case 3: case 4: v = rng() % 12; break; case 5: v = rng() % 300; break;
        case 6: v = ~0ULL - rng() % 4; break; default: v = rng() >> (rng() % 64); }
      if (w == 1) v = rng() & 1;
    }
    if (w < 64) v &= (1ULL << w) - 1;
    log.push_back(std::string(k) + "=" + std::to_string(v));
    return v;
  }
  inline void fail(const char* what) {
    std::printf("FAILED %s\n", what);
    if (!note.empty()) std::printf("CASE %s\n", note.c_str());
    std::printf("INPUTS"); for (auto& s : log) std::printf(" %s", s.c_str()); std::printf("\n");
    std::fflush(stdout); _exit(1);
  }
}
#ifndef VC_OWN_NEW           // allocations too large to exist fail as they do without a sanitizer
inline void* vc_get(size_t n, size_t a) { if (n > (size_t(1) << 36)) throw std::bad_alloc(); void* p = nullptr; if (a < 16) a = 16; if (posix_memalign(&p, a, n ? n : 1)) throw std::bad_alloc(); return p; }
inline void vc_put(void* p) { for (auto* q : vcrt::arrays) if (p == q) return; std::free(p); }      // memory of vc_array is freed at the end
void* operator new(size_t n) { return vc_get(n, 16); } void* operator new[](size_t n) { return vc_get(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return vc_get(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return vc_get(n, (size_t)a); }
void operator delete(void* p) noexcept { vc_put(p); } void operator delete[](void* p) noexcept { vc_put(p); } void operator delete(void* p, size_t) noexcept { vc_put(p); } void operator delete[](void* p, size_t) noexcept { vc_put(p); }
void operator delete(void* p, std::align_val_t) noexcept { vc_put(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { vc_put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vc_put(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { vc_put(p); }
#endif
extern "C" {
  inline uint8_t vc_u8() { return (uint8_t)vcrt::next(8, "u8"); }
  inline uint16_t vc_u16() { return (uint16_t)vcrt::next(16, "u16"); }
  inline uint32_t vc_u32() { return (uint32_t)vcrt::next(32, "u32"); }
  inline uint64_t vc_u64() { return (uint64_t)vcrt::next(64, "u64"); }
  inline int32_t vc_i32() { return (int32_t)vcrt::next(32, "i32"); }
  inline bool vc_bool() { return vcrt::next(1, "b"); }
  inline uint32_t vc_u32_lt(uint32_t n) { auto v = vcrt::next(32, "u32"); return (uint32_t)(vcrt::mode ? v % n : v); }
  inline uint64_t vc_u64_lt(uint64_t n) { auto v = vcrt::next(64, "u64"); return vcrt::mode ? v % n : v; }
  inline void vc_assume(bool b) { if (!b) throw vc_stop(); }
  inline void vc_check(bool b, const char* l) { ++vcrt::checks; if (!b) vcrt::fail(l); }
  inline void vc_cover(const char*) { ++vcrt::covers; }
  inline bool vc_case(bool b) { return b; }
  inline uint32_t vc_shard() { auto v = vcrt::next(32, "shard"); return (uint32_t)(vcrt::mode ? v % vcrt::shards : v); }
  inline uint64_t vc_pin(uint64_t v, uint64_t) { return v; }
  inline void vc_nonneg(const unsigned __int128&, const unsigned __int128&) { }
  inline void* vc_array(size_t n, size_t es) {
    if (es && n > (size_t(1) << 26) / es) throw vc_stop();
    auto* p = (unsigned char*)std::malloc(n * es ? n * es : 1); vcrt::arrays.push_back(p);
    if (vcrt::mode == 0) {
      std::string t = vcrt::pos < vcrt::toks.size() ? vcrt::toks[vcrt::pos++] : std::string("A");
      for (size_t i = 0; i < n * es; ++i) { unsigned b = 0; if (1 + 2 * i + 1 < t.size()) { b = (unsigned)strtoul(t.substr(1 + 2 * i, 2).c_str(), nullptr, 16); } p[i] = (unsigned char)b; }
    } else for (size_t i = 0; i < n * es; ++i) p[i] = (i % es == 0 || vcrt::rng() % 16 == 0) ? (unsigned char)(vcrt::rng() % 5) : 0;
    std::string s = "arr["; for (size_t i = 0; i < n * es && i < 256; ++i) { char b[4]; std::snprintf(b, 4, "%02x", p[i]); s += b; } vcrt::log.push_back(s + "]");
    return p;
  }
  inline void vc_layout(void*, ...) { }
  inline void vc_abstract() { }
  inline bool vc_symbolic() { return false; }
  inline void vc_unreachable() { vcrt::fail("unreachable"); }
  inline uint64_t vc_key(uint64_t x) { return x >> 2; }
  inline void vc_heap_order(uint64_t* a, size_t n, size_t kd) { for (size_t k = 2; k <= n; ++k) { auto p = a[(k + kd - 2) / kd]; if (vc_key(a[k]) > vc_key(p)) a[k] = p; } }
  inline int64_t vc_occ(const uint64_t* a, size_t n, uint64_t x) { int64_t r = 0; for (size_t k = 1; k <= n; ++k) r += a[k] == x; return r; }
  inline void vc_alloc_may_fail(bool) { } inline void vc_live_start() { } inline int vc_live() { return 0; }
  inline bool vc_within(const void* p, const void* b, size_t n) { return (const char*)p >= (const char*)b && (const char*)p < (const char*)b + n; }
  inline void vc_throw(int i) { throw i; }
  inline void vc_throw_bad_alloc() { throw std::bad_alloc(); }
}
inline void vc_note(const std::string& s, unsigned secs = 20) { vcrt::note = s; alarm(secs); }
inline bool vc_more() { return vcrt::more(); }
inline void vc_ran() { ++vcrt::runs; }
template <class... A> inline std::string vc_fmt(const char* f, A... a) { char b[512]; std::snprintf(b, sizeof b, f, a...); return b; }

// A case run in a child process: a crash, a sanitizer report or a hang is a failure of that case.
// Returns false after reporting when the child failed.
template <class F> inline void vc_isolated(unsigned seconds, const std::string& what, F&& f) {
  std::fflush(stdout);
  pid_t p = fork();
  if (p == 0) { alarm(seconds); vcrt::note = what; try { f(); } catch (vc_stop&) { } catch (...) { vcrt::fail("no exception escapes"); } std::fflush(stdout); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { vcrt::note = what; vcrt::fail("the call returns (time limit)"); }
  std::printf("CHILD %s\n", what.c_str());
  vcrt::note = what; vcrt::fail(WIFSIGNALED(st) ? "no crash" : "the case passes (see above)");
}

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void vc_on_alarm(int) { vcrt::fail("the call returns (time limit of the case)"); }
inline void vc_on_death() { std::printf("FAILED sanitizer or crash\n"); if (!vcrt::note.empty()) std::printf("CASE %s\n", vcrt::note.c_str());
  std::printf("INPUTS"); for (auto& s : vcrt::log) std::printf(" %s", s.c_str()); std::printf("\n"); std::fflush(stdout); }
inline void vc_on_abort(int) { vc_on_death(); _exit(134); }

inline int vc_main(int argc, char** argv) {
  std::signal(SIGALRM, vc_on_alarm); std::signal(SIGABRT, vc_on_abort);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vc_on_death);
  std::string cmd = argc > 1 ? argv[1] : "list";
  if (cmd == "list") { for (auto* r = vc_reg::head(); r; r = r->next) std::printf("%c %s\n", r->kind, r->name); return 0; }
  std::string name = argv[2]; vc_reg* r = vc_reg::head(); while (r && name != r->name) r = r->next;
  if (!r) { std::fprintf(stderr, "no harness %s\n", name.c_str()); return 2; }
  auto secs = [&](double s) { vcrt::deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(s * 1000)); };
  auto once = [&] { vcrt::log.clear(); vcrt::pos = 0; bool ok = true;
    try { r->fn(); } catch (vc_stop&) { ok = false; } catch (std::exception& e) { vcrt::fail((std::string("no exception escapes: ") + e.what()).c_str()); } catch (...) { vcrt::fail("no exception escapes"); }
    for (auto* p : vcrt::arrays) std::free(p); vcrt::arrays.clear(); return ok; };
  if (cmd == "replay") {                   // replay <name> <file>
    std::ifstream in(argv[3]); std::string t; while (in >> t) vcrt::toks.push_back(t);
    vcrt::mode = 0; bool ok = once(); std::printf("%s checks=%llu\n", ok ? "PASSED" : "SKIPPED (an assumption does not hold natively)", vcrt::checks); return ok ? 0 : 3;
  }
  if (cmd == "random") {                   // random <name> <seed> <seconds> [shards]
    vcrt::mode = 1; vcrt::rng.seed(std::strtoull(argv[3], nullptr, 10)); secs(std::atof(argv[4])); if (argc > 5) vcrt::shards = std::strtoul(argv[5], nullptr, 10);
    while (vc_more()) { for (int i = 0; i < 64; ++i) { ++vcrt::runs; if (!once()) ++vcrt::skipped; } }
    std::printf("PASSED runs=%llu skipped=%llu checks=%llu\n", vcrt::runs, vcrt::skipped, vcrt::checks); return 0;
  }
  if (cmd == "search") {                   // search <name> <seed> <seconds> <tier>
    vcrt::mode = 1; vcrt::seed = std::strtoull(argv[3], nullptr, 10); vcrt::rng.seed(vcrt::seed); secs(std::atof(argv[4]));
    vcrt::thorough = argc > 5 && std::string(argv[5]) == "thorough";
    once(); std::printf("PASSED runs=%llu checks=%llu complete=%d\n", vcrt::runs, vcrt::checks, (int)vc_more()); return 0;
  }
  return 2;
}
