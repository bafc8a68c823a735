// Counts live allocations made with operator new.
#include <cstdlib>
#include <new>

#include "history.h"

#ifdef __SANITIZE_ADDRESS__
namespace vp {
long live_allocations() { return 0; }
} // namespace vp
#else
namespace vp {
namespace {
long live{0}; // one thread runs at a time; races at start-up do not matter
} // namespace
long live_allocations() { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
} // namespace vp

namespace {
void* get(std::size_t n, std::size_t a) {
    if (n == 0) { n = 1; }
    void* p = a <= alignof(std::max_align_t) ? std::malloc(n) : std::aligned_alloc(a, (n + a - 1) / a * a);
    if (p == nullptr) { std::abort(); }
    __atomic_fetch_add(&vp::live, 1, __ATOMIC_RELAXED);
    return p;
}
void put(void* p) {
    if (p == nullptr) { return; }
    __atomic_fetch_sub(&vp::live, 1, __ATOMIC_RELAXED);
    std::free(p);
}
} // namespace

void* operator new(std::size_t n) { return get(n, 1); }
void* operator new[](std::size_t n) { return get(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { put(p); }
#endif
