// The thread pool: every accepted job exactly once, errors reported exactly once, nothing after stop.
#include "perturb.hh"
#include "reg.hh"
#include "thread.pool.hh"
#include <dirent.h>
#include <sys/syscall.h>
using namespace hx;

namespace {
size_t
thread_count()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (auto* e = readdir(d)) {
            n += e->d_name[0] != '.';
        }
        closedir(d);
    }
    return n;
}

bool
eventually(const std::function<bool()>& f, int ms = 20000)
{
    for (int i = 0; i < ms * 2; ++i) {
        if (f()) {
            return true;
        }
        usleep(500);
    }
    return f();
}

size_t
quiet_thread_count()
{
    static const size_t n = [] {
        std::thread([] {}).join(); // a sanitizer's own thread starts with the first thread
        usleep(50000);             // a joined thread is listed a little longer
        return thread_count();
    }();
    return n;
}

struct Job
{
    std::atomic<int> runs{ 0 };
    std::atomic<int> runs_at_stop{ -1 };
    std::atomic<int> accepted{ -1 }; // -1: never submitted
    bool fails = false, with_message = true;
    int children = 0;
};

// everything the pool did, kept alive longer than the pool
struct World
{
    std::mutex m;
    std::map<std::string, int> errors; // message -> times
    std::set<pid_t> tids;
    std::deque<Job> jobs;
    std::atomic<bool> gone{ false };
    std::atomic<int> late{ 0 };
    std::atomic<uint64_t> executed{ 0 };
    std::atomic<int> concurrent{ 0 }, max_concurrent{ 0 };
};

void
record_run(World& w, Job& j)
{
    if (w.gone) {
        ++w.late;
    }
    ++j.runs;
    ++w.executed;
    int c = ++w.concurrent, mx = w.max_concurrent;
    while (c > mx && !w.max_concurrent.compare_exchange_weak(mx, c)) {
    }
    std::scoped_lock l(w.m);
    w.tids.insert((pid_t)syscall(SYS_gettid));
}
} // namespace

HX_CASE(tpool)
{
    auto wp = std::make_shared<World>();
    World& w = *wp;
    const unsigned want = r.pick({ 0u, 1u, 1u, 2u, 3u, 4u, 8u, 17u, 1000u });
    const int producers = (int)r.range(0, 4);
    const int per = (int)r.pick({ 0, 1, 2, 5, 20, 100 });
    const bool concurrent_stop = r.chance(40);   // stop while producers push
    const bool wait_first = !concurrent_stop && r.chance(50); // all jobs must finish without anybody stopping the pool
    const bool just_destroy = !wait_first && r.chance(25);    // no stop call: the destructor drops what is queued
    const bool nested = !just_destroy && r.chance(30);
    const int fail_percent = (int)r.pick({ 0, 0, 10, 60, 100 });
    const unsigned max_sleep = r.pick({ 0u, 0u, 20u, 300u });
    const bool slow_handler = r.chance(20);
    const uint64_t salt = r.next();
    const int total = std::max(1, producers) * per;
    for (int i = 0; i < total * 2; ++i) {
        auto& j = w.jobs.emplace_back();
        j.fails = (int)(mix(salt + i) % 100) < fail_percent;
        j.with_message = mix(salt + i + 7) % 8 != 0;
    }
    if (index % 2) {
        prt::on(r.next(), r.pick({ 2u, 6u }), r.pick({ 0u, 50u, 400u }));
    }
    rep.sample = { { "threads", want }, { "producers", producers }, { "jobs", total }, { "fail%", fail_percent }, { "nested", nested },
                   { "mode", just_destroy ? "destroy" : concurrent_stop ? "concurrent stop" : wait_first ? "wait, stop" : "stop" } };

    const size_t threads_before = quiet_thread_count();
    const pid_t self = (pid_t)syscall(SYS_gettid);
    std::set<pid_t> not_workers{ self };
    const int allowed = r.chance(12) ? (int)r.range(0, 3) : -1; // the system may refuse to start threads
    rep.sample["allowed"] = allowed;
    do {
        std::unique_ptr<zarr::ThreadPool> pool;
        prt::limit_threads(allowed);
        try {
            pool = std::make_unique<zarr::ThreadPool>(want, [wp, slow_handler](const std::string& msg) {
                if (slow_handler) {
                    usleep(200);
                }
                std::scoped_lock l(wp->m);
                ++wp->errors[msg];
            });
        } catch (const std::exception&) {
        }
        rep.count("threads_refused", prt::refused_threads());
        prt::limit_threads(-1);
        if (!pool) {
            // without a single worker there is no pool
            rep.count("pools_refused");
            if (allowed != 0) {
                rep.bad("tpool.no-pool", "the pool could not be constructed although the system starts threads");
            }
            break;
        }
        const size_t now = thread_count(), started = now > threads_before ? now - threads_before : 0;
        if (started > std::max(1u, want)) {
            rep.bad("tpool.too-many-threads", std::to_string(started) + " threads for a request of " + std::to_string(want));
        }
        if (started < 1) {
            rep.bad("tpool.no-thread", "the pool started no thread");
        }
        zarr::ThreadPool* p = pool.get();
        std::function<zarr::ThreadPool::Task(int)> make = [&, wp](int id) -> zarr::ThreadPool::Task {
            return [wp, id, max_sleep, salt, nested, total, p, &make](std::string& err) {
                World& w = *wp;
                Job& j = w.jobs[id];
                record_run(w, j);
                if (max_sleep) {
                    usleep((unsigned)(mix(salt ^ id) % (max_sleep + 1)));
                }
                if (nested && id < total && mix(salt + 31 * id) % 3 == 0) {
                    // a job may submit another one
                    w.jobs[total + id].accepted = p->push_job(make(total + id));
                }
                const bool fails = j.fails;
                if (j.with_message) {
                    err = (fails ? "job " : "unused ") + std::to_string(id);
                }
                --w.concurrent;
                return !fails;
            };
        };
        std::vector<std::thread> ps;
        std::atomic<int> pushed{ 0 };
        auto produce = [&](int k) {
            for (int i = 0; i < per; ++i) {
                const int id = k * per + i;
                w.jobs[id].accepted = p->push_job(make(id));
                ++pushed;
                if (mix(salt + id * 3) % 9 == 0) {
                    std::this_thread::yield();
                }
            }
        };
        for (int k = 0; k < producers; ++k) {
            ps.emplace_back([&, k] {
                {
                    std::scoped_lock l(w.m);
                    not_workers.insert((pid_t)syscall(SYS_gettid));
                }
                produce(k);
            });
        }
        if (producers == 0) {
            produce(0);
        }
        auto join = [&] {
            for (auto& t : ps) {
                if (t.joinable()) {
                    t.join();
                }
            }
        };
        if (!concurrent_stop || just_destroy) {
            join();
        } else if (total > 0) {
            const int until = (int)r.range(0, total);
            while (pushed < until) {
                std::this_thread::yield();
            }
        }
        if (wait_first) {
            const bool ok = eventually([&] {
                for (auto& j : w.jobs) {
                    if (j.accepted == 1 && j.runs == 0) {
                        return false;
                    }
                }
                return true;
            });
            if (!ok) {
                rep.bad("tpool.not-run", "accepted jobs did not run within 20 s while the pool was idle");
            }
        }
        if (!just_destroy) {
            p->await_stop();
            for (auto& j : w.jobs) {
                j.runs_at_stop = j.runs.load();
            }
            const auto after_stop = w.executed.load();
            if (w.concurrent != 0) {
                rep.bad("tpool.running-after-stop", std::to_string(w.concurrent) + " jobs were running when stop returned");
            }
            // producers, except nested pushes which are over, may still be pushing: they are refused from now on
            bool late_accepted = false;
            for (int i = 0; i < 3; ++i) {
                late_accepted = p->push_job([wp](std::string&) {
                    ++wp->late;
                    return true;
                }) || late_accepted;
            }
            if (late_accepted) {
                rep.bad("tpool.accepted-after-stop", "a job was accepted after stop");
            }
            join();
            {
                const auto n_errors = [&] { std::scoped_lock l(w.m); int n = 0; for (auto& [k, v] : w.errors) n += v; return n; }();
                p->await_stop();
                if (r.chance(30)) {
                    p->await_stop();
                }
                usleep(r.pick({ 0u, 300u }));
                if (w.executed != after_stop) {
                    rep.bad("tpool.late-job", "jobs ran after stop returned");
                }
                std::scoped_lock l(w.m);
                int n = 0;
                for (auto& [k, v] : w.errors) {
                    n += v;
                }
                if (n != n_errors) {
                    rep.bad("tpool.late-error", "an error was reported after stop returned");
                }
            }
            if (!eventually([&] { return thread_count() <= threads_before; }, 5000)) {
                rep.bad("tpool.threads-left", std::to_string(thread_count() - threads_before) + " threads are alive after stop");
            }
        }
        const auto before_destroy = std::chrono::steady_clock::now();
        pool.reset();
        w.gone = true;
        (void)before_destroy;
    } while (false);
    prt::off();
    if (just_destroy) {
        usleep(500);
    }
    if (!eventually([&] { return thread_count() <= threads_before; }, 5000)) {
        rep.bad("tpool.threads-left", std::to_string(thread_count() - threads_before) + " threads are alive after destruction");
    }
    if (w.late != 0) {
        rep.bad("tpool.late-job", std::to_string(w.late) + " jobs ran although they were refused or the pool was gone");
    }
    uint64_t accepted = 0, refused = 0, failed = 0;
    std::map<std::string, int> want_errors;
    for (size_t i = 0; i < w.jobs.size(); ++i) {
        auto& j = w.jobs[i];
        accepted += j.accepted == 1;
        refused += j.accepted == 0;
        const int runs = j.runs;
        if (j.accepted != 1 && runs) {
            rep.bad("tpool.refused-ran", "job " + std::to_string(i) + " was refused and ran");
        }
        if (runs > 1) {
            rep.bad("tpool.ran-twice", "job " + std::to_string(i) + " ran " + std::to_string(runs) + " times");
        }
        if (!just_destroy && j.accepted == 1 && runs == 0) {
            rep.bad("tpool.not-run", "job " + std::to_string(i) + " was accepted and never ran");
        }
        if (!just_destroy && j.accepted == 1 && j.runs_at_stop != 1) {
            rep.bad("tpool.not-run", "job " + std::to_string(i) + " had run " + std::to_string(j.runs_at_stop) + " times when stop returned");
        }
        if (runs && j.fails) {
            ++failed;
            want_errors[j.with_message ? "job " + std::to_string(i) : ""] += runs;
        }
        if (rep.viol.size() > 5) {
            break;
        }
    }
    if (rep.viol.size() <= 5 && want_errors != w.errors) {
        std::string diff;
        for (auto& [k, v] : want_errors) {
            if (!w.errors.count(k) || w.errors[k] != v) {
                diff = "'" + k + "' reported " + std::to_string(w.errors.count(k) ? w.errors[k] : 0) + " times instead of " + std::to_string(v);
            }
        }
        for (auto& [k, v] : w.errors) {
            if (!want_errors.count(k)) {
                diff = "unexpected report '" + k + "'";
            }
        }
        rep.bad("tpool.errors", diff);
    }
    for (auto t : w.tids) {
        if (not_workers.count(t) && producers == 0) {
            rep.bad("tpool.on-caller", "a job ran on the submitting thread");
        }
    }
    if (w.tids.count(self)) {
        rep.bad("tpool.on-caller", "a job ran on the thread that owns the pool");
    }
    if (w.tids.size() > std::max(1u, want)) {
        rep.bad("tpool.too-many-threads", std::to_string(w.tids.size()) + " threads ran jobs, " + std::to_string(want) + " were requested");
    }
    if (w.max_concurrent > (int)std::max(1u, want)) {
        rep.bad("tpool.too-many-threads", std::to_string(w.max_concurrent) + " jobs ran at once, " + std::to_string(want) + " threads were requested");
    }
    rep.count("jobs_accepted", accepted);
    rep.count("jobs_refused", refused);
    rep.count("jobs_executed", w.executed);
    rep.count("jobs_failed", failed);
    rep.count("worker_threads", w.tids.size());
    rep.count(just_destroy ? "pools_destroyed_with_jobs" : "pools_stopped");
    if (just_destroy && accepted > w.executed) {
        rep.count("queued_jobs_dropped", accepted - w.executed);
    }
    rep.sigs.push_back(std::to_string(want) + "/" + std::to_string(producers) + "/" + std::to_string(per) + "/" + std::to_string(fail_percent) + "/" +
                       (nested ? "n" : "") + (just_destroy ? "d" : concurrent_stop ? "c" : wait_first ? "w" : "s") + (refused ? "r" : "") +
                       std::to_string(w.tids.size()));
}

// No accepted job waits while a worker has nothing to do: jobs that wait for each other all start.
HX_CASE(tpool_idle)
{
    const size_t threads_before = quiet_thread_count();
    hx::processors = r.pick({ 1u, 2u, 3u, 8u, 64u });
    const unsigned want = r.pick({ 1u, 2u, 3u, 4u, 8u });
    const int rounds = (int)r.range(1, 6), producers = (int)r.range(1, 3);
    const bool chain = r.chance(30); // each job submits the next
    const unsigned pause = r.pick({ 0u, 0u, 50u, 400u });
    const bool failing = r.chance(40); // some of the jobs fail, and wait in the error handler
    if (index % 2) {
        prt::on(r.next(), r.pick({ 2u, 6u }), r.pick({ 0u, 50u, 400u }));
    }
    rep.sample = { { "threads", want }, { "processors", hx::processors.load() }, { "rounds", rounds }, { "producers", producers }, { "chain", chain } };
    struct Gate
    {
        std::mutex m;
        std::condition_variable cv;
        int round = 0;
        std::atomic<int> running{ 0 };
    };
    auto gate = std::make_shared<Gate>();
    size_t most = 0;
    {
        const auto wait_at_gate = [gate](int k) {
            std::unique_lock l(gate->m);
            gate->cv.wait(l, [&] { return gate->round >= k; });
            --gate->running;
        };
        zarr::ThreadPool pool(want, [wait_at_gate](const std::string& msg) {
            if (!msg.empty()) {
                wait_at_gate(std::stoi(msg));
            }
        });
        std::function<bool(int, int)> push = [&pool, gate, &push, chain, wait_at_gate, failing](int k, int left) {
            return pool.push_job([gate, k, left, &push, chain, wait_at_gate, failing](std::string& err) {
                ++gate->running;
                if (chain && left > 1) {
                    push(k, left - 1);
                }
                if (failing && left % 2 == 0) { // whoever handles errors may take its time too
                    err = std::to_string(k);
                    return false;
                }
                wait_at_gate(k);
                return true;
            });
        };
        for (int k = 1; k <= rounds && rep.viol.empty(); ++k) {
            // short jobs before, so that workers are anywhere in their cycle
            auto brief = std::make_shared<std::atomic<int>>(0);
            std::vector<std::thread> ps;
            const int n_brief = (int)r.range(0, 12), n = (int)r.range(1, want);
            for (int q = 0; q < producers; ++q) {
                ps.emplace_back([&pool, brief, n_brief, salt = r.next()] {
                    for (int i = 0; i < n_brief; ++i) {
                        if (pool.push_job([brief](std::string&) { return ++*brief % 3 != 0; }) && mix(salt + i) % 4 == 0) {
                            usleep(20);
                        }
                    }
                });
            }
            if (r.chance(50)) {
                for (auto& t : ps) {
                    t.join();
                }
                ps.clear();
            }
            if (chain) {
                push(k, n);
            } else {
                for (int i = 0; i < n; ++i) {
                    push(k, i + 1);
                    if (pause) {
                        usleep((unsigned)(r.next() % pause));
                    }
                }
            }
            for (auto& t : ps) {
                t.join();
            }
            size_t workers = 0;
            const bool met = eventually([&] {
                const size_t now = thread_count();
                workers = now > threads_before ? now - threads_before : 0;
                return gate->running >= (int)std::min<size_t>((size_t)n, workers) && (gate->running > 0 || n == 0);
            });
            most = std::max<size_t>(most, (size_t)gate->running);
            if (!met) {
                rep.bad("tpool.idle", std::to_string(gate->running) + " of " + std::to_string(n) + " accepted jobs run on " + std::to_string(workers) +
                                        " workers, the others wait although workers are idle (round " + std::to_string(k) + ")");
            }
            {
                std::scoped_lock l(gate->m);
                gate->round = rep.viol.empty() ? k : rounds + 1;
                gate->cv.notify_all();
            }
            if (!eventually([&] { return gate->running == 0 || chain; })) {
                rep.bad("tpool.not-run", "the waiting jobs did not end");
            }
            rep.count("rounds");
            rep.count("waiting_jobs", n);
        }
        {
            std::scoped_lock l(gate->m);
            gate->round = rounds + 1;
            gate->cv.notify_all();
        }
        pool.await_stop();
    }
    prt::off();
    rep.sigs.push_back("idle " + std::to_string(want) + "/" + std::to_string(hx::processors.load()) + "/" + std::to_string(most) + (chain ? "c" : "") + std::to_string(producers));
}
