// The same stream under other schedules, and several streams at once.
#include "ffs.hh"
#include "perturb.hh"
#include "reg.hh"
#include "s3common.hh"
#include <condition_variable>
using namespace hx;

namespace {
struct Cpus
{
    const unsigned old = processors;
    explicit Cpus(int n) { processors = n; }
    ~Cpus() { processors = old; }
};

void
same(const Store& want, const Store& got, const std::string& ctx, const char* key, CaseReport& rep)
{
    for (auto& [k, v] : want) {
        auto it = got.find(k);
        if (it == got.end()) {
            rep.bad(key, ctx + ": " + k + " is missing");
            return;
        }
        if (it->second != v) {
            rep.bad(key, ctx + ": " + k + " differs, " + std::to_string(it->second.size()) + " bytes instead of " + std::to_string(v.size()));
            return;
        }
    }
    for (auto& [k, v] : got) {
        if (!want.count(k)) {
            rep.bad(key, ctx + ": " + k + " exists only there");
            return;
        }
    }
    rep.count("store_comparisons");
}

Case
sched_case(Rng& r, int version = 0)
{
    GenOpts o;
    o.version = version;
    o.max_yx = 20;
    o.max_chunks = 80;
    o.max_stream = 600 << 10;
    o.compressed_percent = 35;
    o.multiscale_percent = 20;
    o.chunk1_ok = false;
    Case c;
    do {
        c = gen_case(r, o);
    } while (c.frames == 0);
    if (c.multiscale) {
        c.pattern = 5;
    }
    return c;
}

struct Job
{
    Case c;
    bool s3 = false, faulted = false;
    std::string path; // or prefix
    Bytes data;
    Cuts cuts;
    Store want;
    // outcome
    bool created = false, failed = false, wrong = false;
};

void
run(Job& j)
{
    S3Opts so;
    auto* s = create(j.c, j.path, j.s3 ? &so : nullptr);
    j.created = s;
    if (!s) {
        return;
    }
    auto rr = append_all(s, j.data.data(), j.cuts);
    j.failed = rr.append_failed;
    j.wrong = !rr.wrong.empty();
    ZarrStream_destroy(s);
}

Store
result(const Job& j)
{
    return j.s3 ? strip_prefix(svc().objects("az-bucket"), j.path) : load_dir(j.path);
}

Job
make_job(Rng& r, const TempDir& td, const std::string& name, CaseReport& rep)
{
    Job j;
    j.c = sched_case(r);
    j.s3 = r.chance(40);
    j.data = stream_bytes(j.c, j.c.frames);
    j.cuts = gen_cuts(r, j.data.size(), j.c.frame_bytes(), (int)r.range(0, 3));
    auto ref = stream_to_dir(j.c, td / ("ref-" + name), j.data, j.cuts, rep, "reference store");
    j.want = ref.store;
    j.path = j.s3 ? name : td / name;
    return j;
}
} // namespace

HX_CASE(schedules)
{
    Case c = sched_case(r);
    const bool s3 = r.chance(25);
    rep.sample = case_json(c);
    rep.sample["s3"] = s3;
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.range(0, 3));
    auto ref = stream_to_dir(c, td / "ref.zarr", data, cuts, rep, "reference store");
    if (!ref.ok) {
        return;
    }
    verify(c, ref.store, rep, "reference store");
    for (int k = 0; k < 6; ++k) {
        const int cpus = k == 0 ? 1 : (int)r.range(1, 12);
        const int limit = r.chance(30) ? (int)r.range(1, 3) : -1;
        const bool slow = r.chance(50);
        const unsigned every = r.pick({ 1u, 3u, 10u }), us = r.pick({ 0u, 50u, 400u });
        std::string ctx = "on " + std::to_string(cpus) + " processors" + (limit >= 0 ? ", at most " + std::to_string(limit) + " threads" : "");
        Job j;
        j.c = c;
        j.s3 = s3;
        j.path = s3 ? "s.zarr" : td / ("k" + std::to_string(k) + ".zarr");
        j.data = data;
        j.cuts = cuts;
        Cpus cp(cpus);
        auto delays = std::make_shared<std::atomic<uint64_t>>(r.next());
        if (s3) {
            svc_reset();
            if (slow) {
                svc().set_delay([delays](azs3::Op, uint64_t seq) {
                    auto v = mix(delays->load() + seq);
                    if (v % 4 == 0) {
                        usleep(v / 4 % 500);
                    }
                });
            }
        } else if (slow) {
            fsf::arm(td.p.string(), [delays](fsf::Op o, const std::string&, uint64_t n) {
                fsf::Action a;
                auto v = mix(delays->load() + n * 4 + o);
                if (v % 6 == 0) {
                    a.delay_us = (unsigned)(v / 6 % 500);
                }
                return a;
            });
        }
        prt::limit_threads(limit);
        prt::on(r.next(), every, us);
        std::string err;
        {
            LogCapture cap;
            run(j);
            err = cap.err();
        }
        rep.count("perturbed_operations", prt::operations());
        rep.count("delays_injected", prt::delays());
        prt::off();
        rep.count("threads_refused", prt::refused_threads());
        prt::limit_threads(-1);
        fsf::disarm();
        if (!j.created || j.wrong || !err.empty()) {
            rep.bad("schedule.failed", ctx + ": the stream failed: " + err.substr(0, 300));
        } else {
            same(ref.store, result(j), ctx, "schedule.differs", rep);
        }
        if (!s3) {
            fs::remove_all(j.path);
        }
        rep.count("schedules");
        rep.sigs.push_back("sched " + std::to_string(cpus) + (limit >= 0 ? "L" + std::to_string(limit) : "") + (slow ? " slow" : "") + (s3 ? " s3" : " fs") + " v" +
                           std::to_string(c.version) + (c.compressed ? "z" : "") + (c.multiscale ? "m" : "") + " " + std::to_string(every) + "/" + std::to_string(us));
    }
}

// Several streams in one process, some of them failing, while the log level changes.
HX_CASE(streams)
{
    TempDir td(args, index);
    svc_reset();
    const int n = (int)r.range(2, 5);
    std::vector<Job> jobs;
    static const char* names[] = { "s", "s.zarr", "s-2", "ss", "s.zarr.2" };
    for (int i = 0; i < n; ++i) {
        jobs.push_back(make_job(r, td, names[i], rep));
        if (jobs.back().want.empty()) {
            return;
        }
    }
    const int faulted = r.chance(50) ? (int)r.range(0, (uint64_t)n - 1) : -1;
    std::string bad_path = "\x01", bad_prefix = "\x01";
    uint64_t at = r.range(0, 12), many = r.chance(50) ? 1 : 1u << 30;
    int op = (int)r.range(0, 2);
    if (faulted >= 0) {
        jobs[faulted].faulted = true;
        (jobs[faulted].s3 ? bad_prefix : bad_path) = jobs[faulted].path + "/";
    }
    rep.sample["streams"] = n;
    rep.sample["faulted"] = faulted;
    for (auto& j : jobs) {
        rep.sample["cases"].push_back(case_json(j.c));
    }
    const uint64_t salt = r.next();
    auto count = std::make_shared<std::atomic<uint64_t>>(0);
    auto hits = std::make_shared<std::atomic<uint64_t>>(0);
    auto decide = [=](bool ours) {
        if (!ours) {
            return false;
        }
        auto k = (*count)++;
        if (k < at || k - at >= many) {
            return false;
        }
        ++*hits;
        return true;
    };
    svc().set_fault([=](azs3::Op, uint64_t, const std::string& key) {
        return decide(key.rfind(bad_prefix, 0) == 0) ? azs3::Fault::Error : azs3::Fault::None;
    });
    svc().set_delay([salt](azs3::Op, uint64_t seq) {
        auto v = mix(salt + seq);
        if (v % 8 == 0) {
            usleep(v / 8 % 300);
        }
    });
    // what watches the system calls takes a lock, and so orders the threads: go without it half of the time
    const bool watched = faulted >= 0 || r.chance(50);
    if (watched) fsf::arm(td.p.string(), [=](fsf::Op o, const std::string& p, uint64_t k) {
        fsf::Action a;
        if ((int)o == op && decide(p.rfind(bad_path, 0) == 0)) {
            a.err = ENOSPC;
        }
        auto v = mix(salt ^ (k * 4 + o));
        if (v % 10 == 0) {
            a.delay_us = (unsigned)(v / 10 % 300);
        }
        return a;
    });
    const bool levels = r.chance(40);
    prt::on(r.next(), r.pick({ 2u, 10u, 50u }), r.pick({ 0u, 50u, 300u }));
    {
        LogCapture cap;
        std::atomic<bool> done{ false };
        std::vector<std::thread> ts;
        for (auto& j : jobs) {
            ts.emplace_back([&j] { run(j); });
        }
        std::thread lv([&] {
            for (int i = 0; levels && !done; ++i) {
                Zarr_set_log_level((ZarrLogLevel)(i % ZarrLogLevelCount));
                (void)Zarr_get_log_level();
                usleep(100);
            }
        });
        for (auto& t : ts) {
            t.join();
        }
        done = true;
        lv.join();
        Zarr_set_log_level(ZarrLogLevel_Info);
    }
    rep.count("perturbed_operations", prt::operations());
    rep.count("delays_injected", prt::delays());
    prt::off();
    fsf::disarm();
    svc().set_fault(nullptr);
    svc().set_delay(nullptr);
    if (!svc().violations().empty()) {
        rep.bad("schedule.s3", svc().violations()[0]);
    }
    for (int i = 0; i < n; ++i) {
        auto& j = jobs[i];
        const std::string ctx = "stream " + std::to_string(i) + " of " + std::to_string(n) + (j.s3 ? " (S3)" : " (files)");
        if (j.faulted && *hits) {
            rep.count("faulted_streams");
            continue;
        }
        if (!j.created || j.wrong) {
            rep.bad("schedule.affected", ctx + " failed" + (faulted >= 0 ? ", the faults were in stream " + std::to_string(faulted) : ", there were no faults"));
            continue;
        }
        same(j.want, result(j), ctx + (faulted >= 0 ? ", with faults in stream " + std::to_string(faulted) : ""), "schedule.affected", rep);
        rep.count("concurrent_streams");
    }
    std::string sg = "streams " + std::to_string(n) + (faulted >= 0 ? *hits ? " faulted" : " spared" : "") + (levels ? " levels" : "");
    for (auto& j : jobs) {
        sg += j.s3 ? " s" : " f";
        sg += std::to_string(j.c.version) + (j.c.compressed ? "z" : "") + (j.c.multiscale ? "m" : "");
    }
    rep.sigs.push_back(sg);
}

// One stream's device blocks; the others must get on.
HX_CASE(blocked)
{
    TempDir td(args, index);
    svc_reset();
    Job a, b;
    do {
        a = make_job(r, td, "a", rep);
        fs::remove_all(td / "ref-a");
    } while (a.data.size() < 2);
    b = make_job(r, td, "b", rep);
    if (a.want.empty() || b.want.empty()) {
        return;
    }
    rep.sample["blocked"] = case_json(a.c);
    rep.sample["other"] = case_json(b.c);
    std::mutex m;
    std::condition_variable cv;
    bool open = false, reached = false;
    const uint64_t at = r.range(0, 6);
    std::atomic<uint64_t> k{ 0 };
    auto wait = [&] {
        if (k++ < at) {
            return;
        }
        std::unique_lock l(m);
        reached = true;
        cv.notify_all();
        cv.wait(l, [&] { return open; });
    };
    if (a.s3) {
        svc().set_gate([&](azs3::Op, const std::string& key) {
            if (key.rfind("a/", 0) == 0) {
                wait();
            }
        });
    } else {
        fsf::arm(a.path, [&](fsf::Op, const std::string&, uint64_t) {
            fsf::Action x;
            x.gate = wait;
            return x;
        });
    }
    bool b_done = false, stuck = false;
    {
        LogCapture cap;
        bool a_done = false;
        std::thread ta([&] {
            run(a);
            std::scoped_lock l(m);
            a_done = true;
            cv.notify_all();
        });
        {
            std::unique_lock l(m);
            cv.wait(l, [&] { return reached || a_done; });
        }
        std::thread tb([&] {
            run(b);
            std::scoped_lock l(m);
            b_done = true;
            cv.notify_all();
        });
        {
            std::unique_lock l(m);
            stuck = !cv.wait_for(l, std::chrono::seconds(40), [&] { return b_done; });
            open = true;
            cv.notify_all();
        }
        ta.join();
        tb.join();
    }
    fsf::disarm();
    svc().set_gate(nullptr);
    if (reached) {
        rep.count("blocked_streams");
    }
    if (stuck) {
        rep.bad("schedule.blocked", std::string("a stream made no progress for 40 s because another one's ") + (a.s3 ? "S3 request" : "file operation") + " was blocked");
    }
    for (auto* j : { &a, &b }) {
        const char* who = j == &a ? "the blocked stream" : "the other stream";
        if (!j->created || j->wrong) {
            rep.bad("schedule.affected", std::string(who) + " failed");
        } else {
            same(j->want, result(*j), who, "schedule.affected", rep);
        }
    }
    rep.sigs.push_back(std::string("blocked ") + (a.s3 ? "s3" : "fs") + " " + std::to_string(at) + " other " + (b.s3 ? "s3" : "fs") + " v" + std::to_string(a.c.version) +
                       std::to_string(b.c.version));
}
