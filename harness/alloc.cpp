// Global operator new/delete: counts live blocks and can fail the k-th
// allocation made inside a fault window.  Not linked into sanitizer builds.
#include "engine.h"
#include <new>
#include <cstdlib>
#include <malloc.h>
namespace fault {
bool window = false; long countdown = 0; long seen = 0; bool fired = false; long live = 0;
bool measure = false; long bytes = 0, peak = 0;
}
#ifndef NO_ALLOC_HOOK
#define LIVE_ADD(x) __atomic_add_fetch(&fault::live, (long)(x), __ATOMIC_RELAXED)
static inline bool measuring() { return __builtin_expect(fault::measure, 0); }
static void* get(std::size_t n) {
    if (fault::window) {
        ++fault::seen;
        if (fault::countdown > 0 && --fault::countdown == 0) {
            fault::fired = true;
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    LIVE_ADD(1);
    if (measuring()) { fault::bytes += (long)malloc_usable_size(p); if (fault::bytes > fault::peak) fault::peak = fault::bytes; }
    return p;
}
static void put(void* p) { if (p) { LIVE_ADD(-1); if (measuring()) fault::bytes -= (long)malloc_usable_size(p); std::free(p); } }
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return 0; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
#endif
