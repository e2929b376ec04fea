#include "memfault.hh"
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace {
std::atomic<size_t> min_{ SIZE_MAX };
std::atomic<uint64_t> first_{ 0 }, many_{ 0 }, seen_{ 0 }, refused_{ 0 };
std::atomic<int64_t> live_{ 0 }, peak_{ 0 }, blocks_{ 0 };

void*
get(size_t n, size_t align)
{
    if (n >= min_.load(std::memory_order_relaxed)) {
        const auto k = seen_.fetch_add(1);
        if (k >= first_ && k - first_ < many_) {
            ++refused_;
            return nullptr;
        }
    }
    return align > alignof(std::max_align_t) ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
}
void*
held(void* p)
{
    if (p) {
        const auto n = (int64_t)malloc_usable_size(p);
        const int64_t now = live_.fetch_add(n, std::memory_order_relaxed) + n;
        blocks_.fetch_add(1, std::memory_order_relaxed);
        int64_t was = peak_.load(std::memory_order_relaxed);
        while (now > was && !peak_.compare_exchange_weak(was, now)) {
        }
    }
    return p;
}
void
let_go(void* p)
{
    if (p) {
        live_.fetch_sub((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
        blocks_.fetch_sub(1, std::memory_order_relaxed);
    }
}
void*
must(size_t n, size_t align = 0)
{
    void* p = get(n, align);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void
put(void* p)
{
    free(p);
}
} // namespace

void* operator new(size_t n) { return must(n); }
void* operator new[](size_t n) { return must(n); }
void* operator new(size_t n, std::align_val_t a) { return must(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return must(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 0); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

void* malloc(size_t n) { return held(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return held(__libc_calloc(n, m)); }
void*
realloc(void* p, size_t n)
{
    const auto was = p ? (int64_t)malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q) {
        live_.fetch_add((int64_t)malloc_usable_size(q) - was, std::memory_order_relaxed);
        blocks_.fetch_add(!p, std::memory_order_relaxed);
    } else if (p && !n) {
        live_.fetch_sub(was, std::memory_order_relaxed);
        blocks_.fetch_sub(1, std::memory_order_relaxed);
    }
    return q;
}
void* memalign(size_t a, size_t n) { return held(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return held(__libc_memalign(a, n)); }
int
posix_memalign(void** out, size_t a, size_t n)
{
    void* p = held(__libc_memalign(a, n));
    if (!p) {
        return 12; // ENOMEM
    }
    *out = p;
    return 0;
}
void
free(void* p)
{
    let_go(p);
    __libc_free(p);
}
}

namespace mem {
void
arm(size_t min_bytes, uint64_t first, uint64_t how_many)
{
    seen_ = 0;
    refused_ = 0;
    first_ = first;
    many_ = how_many;
    min_ = min_bytes;
}
void disarm() { min_ = SIZE_MAX; }
uint64_t seen() { return seen_; }
uint64_t refused() { return refused_; }
int64_t live() { return live_; }
int64_t blocks() { return blocks_; }
int64_t peak() { return peak_; }
void reset_peak() { peak_ = live_.load(); }
} // namespace mem
