#include "perturb.hh"

#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

// The sanitizers' own interceptors, where there are any, must still be called.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define AZV_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define AZV_ASAN 1
#endif
#endif

namespace {
std::atomic<unsigned> every_{ 0 };
std::atomic<unsigned> max_us_{ 0 };
std::atomic<uint64_t> state_{ 1 }, ops_{ 0 }, delays_{ 0 };

#ifdef AZV_TSAN
#define NO_TSAN __attribute__((no_sanitize("thread")))
#else
#define NO_TSAN
#endif

NO_TSAN void
maybe()
{
    const unsigned e = every_.load(std::memory_order_relaxed);
    if (!e) {
        return;
    }
    ops_.fetch_add(1, std::memory_order_relaxed);
    uint64_t z = state_.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    if (z % e) {
        return;
    }
    delays_.fetch_add(1, std::memory_order_relaxed);
    z /= e;
    if (z % 4 == 0) {
        sched_yield();
        return;
    }
    timespec ts{ 0, (long)(z / 4 % (1 + max_us_.load(std::memory_order_relaxed))) * 1000 };
    nanosleep(&ts, nullptr);
}
std::atomic<bool> counting_{ false };
std::atomic<int64_t> running_{ 0 };
std::atomic<uint64_t> started_{ 0 };
struct Body
{
    void* (*f)(void*);
    void* arg;
};
NO_TSAN void*
counted(void* p)
{
    Body b = *(Body*)p;
    free(p);
    void* r = b.f(b.arg);
    running_.fetch_sub(1);
    return r;
}
std::atomic<int> may_start_{ -1 };
std::atomic<uint64_t> refused_{ 0 };
} // namespace

namespace prt {
void
limit_threads(int n)
{
    refused_ = 0;
    may_start_ = n;
}
void
count_threads(bool on)
{
    counting_ = on;
}
int64_t
running_threads()
{
    return running_;
}
uint64_t
started_threads()
{
    return started_;
}
uint64_t
refused_threads()
{
    return refused_;
}
void
on(uint64_t seed, unsigned every, unsigned max_us)
{
    ops_ = 0;
    delays_ = 0;
    state_ = seed;
    max_us_ = max_us;
    every_ = every;
}
void
off()
{
    every_ = 0;
}
uint64_t
operations()
{
    return ops_;
}
uint64_t
delays()
{
    return delays_;
}
} // namespace prt

extern "C" {
// used by shim/latch
NO_TSAN void
azv_perturb_point()
{
    maybe();
}

#ifdef AZV_TSAN
int __interceptor_pthread_mutex_lock(pthread_mutex_t*);
int __interceptor_pthread_mutex_unlock(pthread_mutex_t*);
int __interceptor_pthread_cond_signal(pthread_cond_t*);
int __interceptor_pthread_cond_broadcast(pthread_cond_t*);
int __interceptor_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
#define REAL(name) __interceptor_##name
#else
#define REAL(name)                                                                                                                        \
    ([] {                                                                                                                                 \
        static std::atomic<decltype(&name)> p{ nullptr };                                                                                 \
        auto f = p.load(std::memory_order_relaxed);                                                                                       \
        if (!f) {                                                                                                                         \
            f = (decltype(&name))dlsym(RTLD_NEXT, #name);                                                                                 \
            p.store(f, std::memory_order_relaxed);                                                                                        \
        }                                                                                                                                 \
        return f;                                                                                                                         \
    }())
#endif

#if defined(AZV_TSAN) || defined(AZV_ASAN)
int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
#define REAL_CREATE __interceptor_pthread_create
#else
#define REAL_CREATE REAL(pthread_create)
#endif

NO_TSAN int
pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    int left = may_start_.load(std::memory_order_relaxed);
    while (left > 0 && !may_start_.compare_exchange_weak(left, left - 1)) {
    }
    if (left == 0) {
        refused_.fetch_add(1, std::memory_order_relaxed);
        return EAGAIN;
    }
    if (counting_.load(std::memory_order_relaxed)) {
        if (auto* b = (Body*)malloc(sizeof(Body))) {
            *b = { f, arg };
            running_.fetch_add(1);
            started_.fetch_add(1);
            const int rc = REAL_CREATE(t, a, counted, b);
            if (rc) {
                running_.fetch_sub(1);
                free(b);
            }
            return rc;
        }
    }
    return REAL_CREATE(t, a, f, arg);
}
NO_TSAN int
pthread_mutex_lock(pthread_mutex_t* m)
{
    maybe();
    return REAL(pthread_mutex_lock)(m);
}
NO_TSAN int
pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = REAL(pthread_mutex_unlock)(m);
    maybe();
    return r;
}
// between a thread's finding that it has to wait and its waiting
NO_TSAN int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    maybe();
    return REAL(pthread_cond_wait)(c, m);
}
NO_TSAN int
pthread_cond_signal(pthread_cond_t* c)
{
    maybe();
    return REAL(pthread_cond_signal)(c);
}
NO_TSAN int
pthread_cond_broadcast(pthread_cond_t* c)
{
    maybe();
    return REAL(pthread_cond_broadcast)(c);
}
}
