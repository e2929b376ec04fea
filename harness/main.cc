#include "perturb.hh"
#include "reg.hh"
#include <climits>
#include <csignal>
#include <dlfcn.h>
#include <sched.h>
#include <thread>
#include <unistd.h>

std::map<std::string, hx::CaseFn>&
hx::registry()
{
    static std::map<std::string, CaseFn> r;
    return r;
}

// How many processors the library thinks there are, and so how many worker threads and S3 connections it uses: glibc counts those of
// the machine, whatever the affinity of the process.
extern "C" int
get_nprocs(void) noexcept
{
    if (unsigned n = hx::processors) {
        return (int)n;
    }
    cpu_set_t set;
    return sched_getaffinity(0, sizeof set, &set) ? 1 : CPU_COUNT(&set);
}

// The classification functions of the C library are defined for EOF and the values of an unsigned char only: for others they read
// outside their tables, which the tables of glibc hide. Undefined behaviour no sanitizer knows of.
namespace {
std::atomic<uint64_t> classified{ 0 }, misclassified{ 0 };
std::atomic<int> misfit{ 0 };
std::atomic<const char*> misused{ nullptr };

int
classify(const char* name, int c, int (*real)(int))
{
    ++classified;
    if (c < -1 || c > UCHAR_MAX) { // -1 is EOF
        misfit = c;
        misused = name;
        ++misclassified;
    }
    return real(c);
}
} // namespace

#define AZV_CTYPE(fn)                                                                                                                  \
    extern "C" int fn(int c) noexcept                                                                                                  \
    {                                                                                                                                  \
        static auto real = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, #fn));                                                      \
        return classify(#fn, c, real);                                                                                                 \
    }
AZV_CTYPE(isspace)
AZV_CTYPE(isblank)
AZV_CTYPE(isalpha)
AZV_CTYPE(isalnum)
AZV_CTYPE(iscntrl)
AZV_CTYPE(isgraph)
AZV_CTYPE(isprint)
AZV_CTYPE(ispunct)
AZV_CTYPE(isupper)
AZV_CTYPE(islower)
AZV_CTYPE(toupper)
AZV_CTYPE(tolower)

int
main(int argc, char** argv)
{
    auto a = hx::parse_args(argc, argv);
    auto it = hx::registry().find(a.sub);
    if (it == hx::registry().end()) {
        fprintf(stderr, "unknown subcommand '%s'\n", a.sub.c_str());
        return 2;
    }
    signal(SIGPIPE, SIG_IGN);
    hx::CaseFn fn = [inner = it->second](const hx::Args& args, uint64_t index, hx::Rng& r, hx::CaseReport& rep) {
        hx::Rng p(hx::mix(args.seed * 131 + index * 7 + 5));
        hx::processors = p.pick({ 1u, 1u, 2u, 2u, 3u, 4u, 5u, 8u, 8u, 13u });
        if (std::thread::hardware_concurrency() != hx::processors) {
            fprintf(stderr, "cannot set the number of processors\n");
            _exit(2);
        }
        const bool judge = args.extra.count("--ctype");
        classified = misclassified = 0;
        inner(args, index, r, rep);
        if (judge) {
            rep.count("characters_classified", classified);
            if (misclassified) {
                rep.bad("ub.ctype", std::string(misused) + " was called with " + std::to_string(misfit) + ", which is neither EOF nor an unsigned char (" +
                                      std::to_string(misclassified) + " calls)");
            }
        }
    };
    if (a.extra.count("--perturb")) {
        fn = [inner = fn](const hx::Args& args, uint64_t index, hx::Rng& r, hx::CaseReport& rep) {
            hx::Rng p(hx::mix(args.seed * 77 + index));
            prt::on(p.next(), p.pick({ 2u, 5u, 20u }), p.pick({ 0u, 30u, 300u }));
            inner(args, index, r, rep);
            rep.count("perturbed_operations", prt::operations());
            rep.count("delays_injected", prt::delays());
            prt::off();
        };
    }
    return hx::run_cases(a, fn);
}
