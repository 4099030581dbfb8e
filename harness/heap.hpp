// Counts live heap blocks of the whole process (not under AddressSanitizer, whose own checks of new/delete stay on).
// Include in exactly one translation unit of a driver.
#pragma once
#include <cstdlib>
#include <new>
namespace vt { inline long g_heap = 0; inline int g_throw_alloc = 0; }
#if defined(VT_WRAP_MALLOC)            // linked with --wrap=malloc,--wrap=free: counts and fails direct calls of malloc, too
extern "C" {
void* __real_malloc(std::size_t);
void __real_free(void*);
void* __wrap_malloc(std::size_t n) {
    if (vt::g_throw_alloc > 0 && --vt::g_throw_alloc == 0) return nullptr;
    void* p = __real_malloc(n);
    if (p) ++vt::g_heap;
    return p;
}
void __wrap_free(void* p) { if (p) --vt::g_heap; __real_free(p); }
}
#define VT_MALLOC __real_malloc
#define VT_FREE __real_free
#else
#define VT_MALLOC std::malloc
#define VT_FREE std::free
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
void* operator new(std::size_t n) { void* p = VT_MALLOC(n ? n : 1); if (!p) throw std::bad_alloc(); ++vt::g_heap; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::align_val_t a) {
    std::size_t al = (std::size_t)a;
    void* p = std::aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al));
    if (!p) throw std::bad_alloc();
    ++vt::g_heap;
    return p;
}
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (p) --vt::g_heap; VT_FREE(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
#endif
