// A memory resource over the verifier's allocator, and allocation-failure injection.
#pragma once
extern "C++" { void* operator new(decltype(sizeof 0)); void operator delete(void*, decltype(sizeof 0)) noexcept; }
#include <memory_resource>
#include <new>
#include "vc.hpp"
struct any_resource : std::pmr::memory_resource {
  bool may_fail = false;
  void* do_allocate(size_t n, size_t) override { if (may_fail && vc_bool()) throw std::bad_alloc(); return ::operator new(n); }
  void do_deallocate(void* p, size_t n, size_t) override { release(p, n); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
#ifdef VC_NATIVE
  void release(void* p, size_t) { for (auto* q : vcrt::arrays) if (p == q) return; ::operator delete(p); }
#else
  void release(void* p, size_t n) { ::operator delete(p, n); }
#endif
};
inline void own(void*) {}
#ifdef VC_NATIVE
constexpr size_t VC_HUGE = size_t(1) << 20;      // keeps replayed and random sizes allocatable
#else
constexpr size_t VC_HUGE = size_t(1) << 40;      // an object of this many elements cannot exist
static any_resource vc_the_default;
extern "C" std::pmr::memory_resource* vc_default_resource() { return &vc_the_default; }
static void* vc_keep = (void*)&vc_default_resource;
#endif
