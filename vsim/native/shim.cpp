// Linked into the simulator's build of riptide's extension: every heap allocation of
// the extension goes through a table of hooks (none: the C library).
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);

typedef void* (*alloc_t)(size_t, size_t, int);
typedef int (*free_t)(void*);
typedef long (*size_of_t)(void*);
static alloc_t h_alloc = nullptr;
static free_t h_free = nullptr;
static size_of_t h_size = nullptr;

__attribute__((visibility("default"))) void vsim_set_hooks(alloc_t a, free_t f, size_of_t s)
{
    h_alloc = a;
    h_free = f;
    h_size = s;
}

static void* get(size_t n, size_t align, int zero)
{
    if (h_alloc) return h_alloc(n, align, zero);
    if (align > 16)
    {
        void* p = nullptr;
        if (__real_posix_memalign(&p, align, n)) return nullptr;
        if (zero) memset(p, 0, n);
        return p;
    }
    return zero ? __real_calloc(n ? n : 1, 1) : __real_malloc(n ? n : 1);
}

static void put(void* p)
{
    if (!p) return;
    if (h_free && h_free(p)) return;
    __real_free(p);
}

void* __wrap_malloc(size_t n) { return get(n, 16, 0); }
void __wrap_free(void* p) { put(p); }
void* __wrap_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return get(n, 16, 1);
}
void* __wrap_realloc(void* p, size_t n)
{
    if (!p) return get(n, 16, 0);
    long old = h_size ? h_size(p) : -1;
    if (old < 0) return __real_realloc(p, n);
    void* q = get(n, 16, 0);
    if (!q) return nullptr;
    memcpy(q, p, (size_t)old < n ? (size_t)old : n);
    put(p);
    return q;
}
int __wrap_posix_memalign(void** out, size_t align, size_t n)
{
    void* p = get(n, align < 16 ? 16 : align, 0);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* __wrap_aligned_alloc(size_t align, size_t n) { return get(n, align < 16 ? 16 : align, 0); }
void* __wrap_memalign(size_t align, size_t n) { return get(n, align < 16 ? 16 : align, 0); }
}

static void* must(size_t n, size_t align)
{
    void* p = get(n, align, 0);
    if (!p) throw std::bad_alloc();
    return p;
}

void* operator new(size_t n) { return must(n, 16); }
void* operator new[](size_t n) { return must(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 16, 0); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
#if __cpp_aligned_new
void* operator new(size_t n, std::align_val_t a) { return must(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return must(n, (size_t)a); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, (size_t)a, 0); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, (size_t)a, 0); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
#endif
