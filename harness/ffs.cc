#include "ffs.hh"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fsf {
namespace {
std::atomic<bool> armed{ false };
std::mutex m;
std::string root;
Decide decide;
uint64_t n_calls[NOps], n_faults, n_partials;
thread_local bool inside = false;

template<typename F>
F
real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(ret, name, ...)                                                                                                              \
    static std::atomic<ret (*)(__VA_ARGS__)> real_p{ nullptr };                                                                           \
    auto real_f = real_p.load(std::memory_order_acquire);                                                                                 \
    if (!real_f) {                                                                                                                        \
        real_f = real<ret (*)(__VA_ARGS__)>(#name);                                                                                       \
        real_p.store(real_f, std::memory_order_release);                                                                                  \
    }

std::string
fd_path(int fd)
{
    char link[64], buf[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf);
    return n > 0 ? std::string(buf, (size_t)n) : std::string();
}

bool
ask(Op op, const std::string& path, Action& out)
{
    {
        std::scoped_lock l(m);
        if (!armed || path.compare(0, root.size(), root) != 0) {
            return false;
        }
        uint64_t nth = n_calls[op]++;
        out = decide ? decide(op, path, nth) : Action{};
        if (out.err) {
            ++n_faults;
        }
        if (out.partial) {
            ++n_partials;
        }
    }
    if (out.delay_us) {
        usleep(out.delay_us);
    }
    if (out.gate) {
        out.gate();
    }
    return true;
}

bool
on(Op op, const char* path, Action& a)
{
    if (!armed.load(std::memory_order_acquire) || inside || !path) {
        return false;
    }
    inside = true;
    bool r = ask(op, path, a);
    inside = false;
    return r;
}
bool
on_fd(int fd, Action& a)
{
    if (!armed.load(std::memory_order_acquire) || inside || fd < 0 || fd == 1 || fd == 2) {
        return false;
    }
    inside = true;
    auto p = fd_path(fd);
    bool r = !p.empty() && ask(Write, p, a);
    inside = false;
    return r;
}
} // namespace

void
arm(const std::string& r, Decide d)
{
    std::scoped_lock l(m);
    root = r;
    decide = std::move(d);
    memset(n_calls, 0, sizeof n_calls);
    n_faults = n_partials = 0;
    armed = true;
}
void
disarm()
{
    std::scoped_lock l(m);
    armed = false;
    decide = nullptr;
}
uint64_t
calls(Op o)
{
    std::scoped_lock l(m);
    return n_calls[o];
}
uint64_t
faults()
{
    std::scoped_lock l(m);
    return n_faults;
}
uint64_t
partials()
{
    std::scoped_lock l(m);
    return n_partials;
}
} // namespace fsf

using namespace fsf;

extern "C" {
#define OPEN_BODY(NAME)                                                                                                                   \
    mode_t mode = 0;                                                                                                                      \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                                                                  \
        va_list ap;                                                                                                                       \
        va_start(ap, flags);                                                                                                              \
        mode = va_arg(ap, mode_t);                                                                                                        \
        va_end(ap);                                                                                                                       \
    }                                                                                                                                     \
    Action a;                                                                                                                             \
    if ((flags & (O_WRONLY | O_RDWR | O_CREAT)) && on(Open, path, a) && a.err) {                                                          \
        errno = a.err;                                                                                                                    \
        return -1;                                                                                                                        \
    }

int
open(const char* path, int flags, ...)
{
    REAL(int, open, const char*, int, ...)
    OPEN_BODY(open)
    return real_f(path, flags, mode);
}
int
open64(const char* path, int flags, ...)
{
    REAL(int, open64, const char*, int, ...)
    OPEN_BODY(open64)
    return real_f(path, flags, mode);
}
int
openat(int dir, const char* path, int flags, ...)
{
    REAL(int, openat, int, const char*, int, ...)
    OPEN_BODY(openat)
    return real_f(dir, path, flags, mode);
}
int
openat64(int dir, const char* path, int flags, ...)
{
    REAL(int, openat64, int, const char*, int, ...)
    OPEN_BODY(openat64)
    return real_f(dir, path, flags, mode);
}
FILE*
fopen(const char* path, const char* mode)
{
    REAL(FILE*, fopen, const char*, const char*)
    Action a;
    if (mode && strpbrk(mode, "wa+") && on(Open, path, a) && a.err) {
        errno = a.err;
        return nullptr;
    }
    return real_f(path, mode);
}
FILE*
fopen64(const char* path, const char* mode)
{
    REAL(FILE*, fopen64, const char*, const char*)
    Action a;
    if (mode && strpbrk(mode, "wa+") && on(Open, path, a) && a.err) {
        errno = a.err;
        return nullptr;
    }
    return real_f(path, mode);
}
int
mkdir(const char* path, mode_t mode)
{
    REAL(int, mkdir, const char*, mode_t)
    Action a;
    if (on(Mkdir, path, a) && a.err) {
        errno = a.err;
        return -1;
    }
    return real_f(path, mode);
}
ssize_t
write(int fd, const void* b, size_t n)
{
    REAL(ssize_t, write, int, const void*, size_t)
    Action a;
    if (on_fd(fd, a)) {
        if (a.err) {
            errno = a.err;
            return -1;
        }
        if (a.partial && n > 1) {
            n = n / 2;
        }
    }
    return real_f(fd, b, n);
}
ssize_t
writev(int fd, const struct iovec* v, int cnt)
{
    REAL(ssize_t, writev, int, const struct iovec*, int)
    Action a;
    if (on_fd(fd, a)) {
        if (a.err) {
            errno = a.err;
            return -1;
        }
        if (a.partial) {
            REAL(ssize_t, write, int, const void*, size_t)
            for (int i = 0; i < cnt; ++i) {
                if (v[i].iov_len) {
                    return real_f(fd, v[i].iov_base, v[i].iov_len > 1 ? v[i].iov_len / 2 : 1);
                }
            }
        }
    }
    return real_f(fd, v, cnt);
}
#define PW(NAME)                                                                                                                          \
    ssize_t NAME(int fd, const void* b, size_t n, off_t off)                                                                              \
    {                                                                                                                                     \
        REAL(ssize_t, NAME, int, const void*, size_t, off_t)                                                                              \
        Action a;                                                                                                                         \
        if (on_fd(fd, a)) {                                                                                                               \
            if (a.err) {                                                                                                                  \
                errno = a.err;                                                                                                            \
                return -1;                                                                                                                \
            }                                                                                                                             \
            if (a.partial && n > 1) {                                                                                                     \
                n = n / 2;                                                                                                                \
            }                                                                                                                             \
        }                                                                                                                                 \
        return real_f(fd, b, n, off);                                                                                                     \
    }
PW(pwrite)
PW(pwrite64)
#define PWV(NAME)                                                                                                                         \
    ssize_t NAME(int fd, const struct iovec* v, int cnt, off_t off)                                                                       \
    {                                                                                                                                     \
        REAL(ssize_t, NAME, int, const struct iovec*, int, off_t)                                                                         \
        Action a;                                                                                                                         \
        if (on_fd(fd, a)) {                                                                                                               \
            if (a.err) {                                                                                                                  \
                errno = a.err;                                                                                                            \
                return -1;                                                                                                                \
            }                                                                                                                             \
            if (a.partial) {                                                                                                              \
                REAL(ssize_t, pwrite64, int, const void*, size_t, off_t)                                                                  \
                for (int i = 0; i < cnt; ++i) {                                                                                           \
                    if (v[i].iov_len) {                                                                                                   \
                        return real_f(fd, v[i].iov_base, v[i].iov_len > 1 ? v[i].iov_len / 2 : 1, off);                                   \
                    }                                                                                                                     \
                }                                                                                                                         \
            }                                                                                                                             \
        }                                                                                                                                 \
        return real_f(fd, v, cnt, off);                                                                                                   \
    }
PWV(pwritev)
PWV(pwritev64)
}
