// The pool of S3 connections, and S3 sinks fed with writes of any size.
#include "perturb.hh"
#include "reg.hh"
#include "s3.connection.hh"
#include "s3common.hh"
#include "sink.creator.hh"
#include <condition_variable>
using namespace hx;

namespace {
struct Ledger
{
    std::mutex m;
    std::set<zarr::S3Connection*> out, ever;
    size_t max_out = 0;
    uint64_t gets = 0, waits = 0;
    std::vector<Problem> pr;

    void took(zarr::S3Connection* c)
    {
        std::scoped_lock l(m);
        ++gets;
        if (!c) {
            pr.push_back({ "pool.null", "get_connection returned nothing" });
            return;
        }
        if (!out.insert(c).second) {
            pr.push_back({ "pool.shared", "a connection was handed to two users at once" });
        }
        ever.insert(c);
        max_out = std::max(max_out, out.size());
    }
    void giving(zarr::S3Connection* c)
    {
        std::scoped_lock l(m);
        out.erase(c);
    }
};

bool
within(int ms, const std::function<bool()>& f)
{
    for (int i = 0; i < ms * 5; ++i) {
        if (f()) {
            return true;
        }
        usleep(200);
    }
    return f();
}
} // namespace

HX_CASE(s3_pool)
{
    svc_reset();
    LogCapture cap;
    const size_t n = r.pick<size_t>({ 1, 1, 2, 3, 4, 8 });
    const int n_threads = (int)r.pick({ 1, 2, 3, 6, 10 });
    const int cycles = (int)r.range(1, 60);
    const unsigned hold = r.pick({ 0u, 0u, 20u, 200u });
    const bool use = r.chance(50);
    const int bad_percent = (int)r.pick({ 0, 0, 0, 30, 100 });
    const uint64_t salt = r.next();
    rep.sample = { { "connections", n }, { "threads", n_threads }, { "cycles", cycles }, { "hold_us", hold }, { "use", use }, { "invalid%", bad_percent } };
    if (index % 2) {
        prt::on(r.next(), r.pick({ 2u, 5u }), r.pick({ 0u, 60u }));
    }
    std::atomic<size_t> refused{ 0 };
    if (bad_percent) {
        svc().set_fault([&](azs3::Op op, uint64_t nth, const std::string&) {
            if (op == azs3::Op::ListBuckets && (int)(mix(salt + nth) % 100) < bad_percent) {
                ++refused;
                return azs3::Fault::Error;
            }
            return azs3::Fault::None;
        });
    }
    std::shared_ptr<Ledger> ledger = std::make_shared<Ledger>();
    std::unique_ptr<zarr::S3ConnectionPool> pool;
    const size_t ask = r.chance(4) ? 0 : n;
    try {
        pool = std::make_unique<zarr::S3ConnectionPool>(ask, "http://localhost:9000", "user", "secret-key");
    } catch (const std::exception&) {
        rep.count("pools_refused");
    }
    svc().set_fault(nullptr);
    if (!pool) {
        if (refused < ask) {
            rep.bad("pool.refused", "no pool although " + std::to_string(ask - refused) + " of " + std::to_string(ask) + " connections are valid");
        }
        prt::off();
        rep.sigs.push_back("refused " + std::to_string(ask));
        return;
    }
    if (ask == 0 || refused == ask) {
        rep.bad("pool.empty", "a pool without a single valid connection was created");
        prt::off();
        return;
    }
    Ledger& L = *ledger;
    // phase 1: free for all
    std::atomic<int> finished{ 0 };
    std::atomic<uint64_t> progress{ 0 };
    std::vector<std::thread> ts;
    for (int t = 0; t < n_threads; ++t) {
        ts.emplace_back([&, t] {
            Rng q(mix(salt + 1000 + t));
            for (int k = 0; k < cycles; ++k) {
                auto c = pool->get_connection();
                L.took(c.get());
                if (!c) {
                    break;
                }
                if (use) {
                    std::vector<uint8_t> d(3, 7);
                    (void)c->put_object("az-bucket", "p/" + std::to_string(t) + "/" + std::to_string(k % 4), d);
                }
                if (hold) {
                    usleep((unsigned)(q.next() % (hold + 1)));
                }
                L.giving(c.get());
                pool->return_connection(std::move(c));
                ++progress;
            }
            ++finished;
        });
    }
    if (!within(20000, [&] { return finished == n_threads; })) {
        // the threads cannot be released any more: leave with the process
        rep.bad("pool.stuck", std::to_string(n_threads - finished) + " of " + std::to_string(n_threads) +
                                " users wait forever although every user returned what it took");
        auto* leak = new std::vector<std::thread>(std::move(ts));
        (void)leak;
        (void)pool.release();
        prt::off();
        return;
    }
    for (auto& t : ts) {
        t.join();
    }
    // phase 2: take all there are; one more request waits until one is returned, and then gets it
    std::vector<std::unique_ptr<zarr::S3Connection>> held;
    size_t size = 0;
    bool ok = true;
    {
        auto taker = std::make_shared<std::atomic<int>>(0);
        const size_t expect = std::max<size_t>(1, ask - refused);
        // what the pool holds now is what it can hand out without waiting
        for (size_t k = 0; k < expect && ok; ++k) {
            auto slot = std::make_shared<std::unique_ptr<zarr::S3Connection>>();
            auto done = std::make_shared<std::atomic<bool>>(false);
            std::thread th([slot, done, p = pool.get()] {
                *slot = p->get_connection();
                *done = true;
            });
            if (!within(15000, [&] { return done->load(); })) {
                rep.bad("pool.lost", "only " + std::to_string(k) + " of " + std::to_string(expect) + " connections are left after all were returned");
                th.detach();
                ok = false;
                break;
            }
            th.join();
            L.took(slot->get());
            held.push_back(std::move(*slot));
        }
        size = held.size();
        const int waiters = ok ? (int)r.range(1, 4) : 0;
        std::vector<std::thread> ws;
        auto got = std::make_shared<std::vector<std::unique_ptr<zarr::S3Connection>>>(waiters);
        auto n_got = std::make_shared<std::atomic<int>>(0);
        auto hands = std::make_shared<std::mutex>();
        for (int k = 0; k < waiters; ++k) {
            ws.emplace_back([=, p = pool.get()] {
                auto c = p->get_connection();
                std::scoped_lock l(*hands);
                (*got)[k] = std::move(c);
                ++*n_got;
            });
        }
        if (waiters) {
            usleep(r.pick({ 0u, 500u, 3000u }));
            if (*n_got != 0) {
                std::scoped_lock l(*hands);
                for (auto& c : *got) {
                    if (c) {
                        L.took(c.get());
                    }
                }
                rep.bad("pool.extra", "the pool handed out more connections than it has, or nothing, while all were out");
            }
        }
        // returning k of them lets k waiters go on
        int returned = 0;
        for (int k = 0; k < waiters && ok; ++k) {
            if (held.empty()) {
                // take back what a waiter got
                std::scoped_lock l(*hands);
                for (auto& c : *got) {
                    if (c) {
                        held.push_back(std::move(c));
                        break;
                    }
                }
            }
            if (held.empty()) {
                break;
            }
            L.giving(held.back().get());
            pool->return_connection(std::move(held.back()));
            held.pop_back();
            ++returned;
            if (!within(15000, [&] { return *n_got >= returned; })) {
                rep.bad("pool.stuck", "a waiting user did not get the connection that was returned");
                ok = false;
            }
        }
        if (!ok) {
            for (auto& w : ws) {
                w.detach();
            }
            (void)pool.release();
            prt::off();
            rep.add(L.pr, "users");
            return;
        }
        for (auto& w : ws) {
            w.join();
        }
        for (auto& c : *got) {
            if (c) {
                L.took(c.get());
                L.giving(c.get());
                held.push_back(std::move(c));
            }
        }
        std::set<zarr::S3Connection*> distinct;
        for (auto& h : held) {
            distinct.insert(h.get());
        }
        if (distinct.size() != held.size()) {
            rep.bad("pool.shared", "the same connection was handed out twice");
        }
        for (auto& h : held) {
            pool->return_connection(std::move(h));
        }
        rep.count("waiters", waiters);
    }
    if (L.max_out > size || L.ever.size() > size) {
        rep.bad("pool.extra", std::to_string(L.ever.size()) + " different connections were seen in a pool of " + std::to_string(size));
    }
    prt::off();
    pool.reset();
    rep.add(L.pr, "users");
    for (auto& v : svc().violations()) {
        rep.bad("pool.used-twice", v);
    }
    if (svc().live_clients() != 0) {
        rep.bad("pool.leak", std::to_string(svc().live_clients()) + " connections are open after the pool was destroyed");
    }
    rep.count("gets", L.gets);
    rep.count("cycles", progress);
    rep.count("max_held_at_once", L.max_out);
    rep.sigs.push_back(std::to_string(n) + "/" + std::to_string(n_threads) + "/" + std::to_string(hold) + (use ? "u" : "") + "/" +
                       std::to_string(L.max_out) + "/" + std::to_string(refused));
}

HX_CASE(s3_sink)
{
    svc_reset();
    LogCapture cap;
    constexpr size_t part = 5 << 20;
    auto pool = std::make_shared<zarr::S3ConnectionPool>(r.range(1, 3), "http://localhost:9000", "user", "secret-key");
    auto threads = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
    zarr::SinkCreator creator(threads, pool);
    const std::string key = "pre/" + r.pick<std::string>({ "obj", "0/0/0", "c0/0", "a b" });
    auto sink = creator.make_sink("az-bucket", key);
    if (!sink) {
        rep.bad("s3sink.open", "no sink for an existing bucket");
        return;
    }
    const size_t total = r.pick<size_t>({ 0, 1, 1000, part - 1, part, part + 1, 2 * part - 1, 2 * part, 2 * part + 1, 3 * part, (size_t)r.range(1, 3 * part),
                                          (size_t)r.range(1, 100000) });
    const int style = (int)r.range(0, 4);
    std::string want;
    want.reserve(total);
    json sizes = json::array();
    bool gaps = r.chance(20), ok = true;
    uint64_t seed = r.next();
    while (want.size() < total && ok) {
        size_t n = 0;
        switch (style) {
            case 0: n = total; break;
            case 1: n = r.range(1, 100000); break;
            case 2: n = r.pick<size_t>({ part - 1, part, part + 1, 1, 7, 2 * part }); break;
            case 3: n = r.range(1, part); break;
            default: n = r.chance(20) ? 0 : 65536; break;
        }
        n = std::min(n, total - want.size());
        if (gaps && r.chance(30) && n > 2) {
            // a gap reads as zeros, as in a file
            const size_t gap = r.range(1, n - 1);
            want.append(gap, '\0');
            n -= gap;
        }
        std::unique_ptr<std::byte[]> p(new std::byte[n ? n : 1]);
        for (size_t i = 0; i < n; i += 8) {
            const uint64_t v = mix(seed++) | 0x0101010101010101ull;
            memcpy(p.get() + i, &v, std::min<size_t>(8, n - i));
        }
        const size_t off = want.size();
        want.append((char*)p.get(), n);
        try {
            ok = sink->write(off, { p.get(), n });
        } catch (const std::exception& e) {
            ok = false;
        }
        memset(p.get(), 0xee, n);
        rep.count("writes");
        if (sizes.size() < 12) {
            sizes.push_back(n);
        }
    }
    if (!ok) {
        rep.bad("s3sink.write", "a write failed without any fault");
        return;
    }
    if (!zarr::finalize_sink(std::move(sink))) {
        rep.bad("s3sink.finalize", "finalizing failed without any fault");
        return;
    }
    std::vector<Problem> pr;
    auto ups = check_protocol("az-bucket", "pre", pr, rep);
    for (auto& [id, u] : ups) {
        if (u.creates != 1 || u.completes_ok != 1) {
            pr.push_back({ "s3.upload-open", "created " + std::to_string(u.creates) + " times, completed " + std::to_string(u.completes_ok) + " times" });
        }
    }
    auto objs = svc().objects("az-bucket");
    const bool there = objs.count(key);
    if (want.empty() ? there && !objs[key].empty() : !there || objs[key] != want) {
        std::string d = there ? std::to_string(objs[key].size()) + " bytes" : "missing";
        if (there && objs[key].size() == want.size()) {
            size_t i = 0;
            while (objs[key][i] == want[i]) {
                ++i;
            }
            d = "different at " + std::to_string(i);
        }
        pr.push_back({ "s3sink.content", "the object is " + d + ", " + std::to_string(want.size()) + " bytes were written" });
    }
    if (objs.size() > 1) {
        pr.push_back({ "s3sink.extra", "another object appeared" });
    }
    pool.reset();
    rep.add(pr, std::to_string(want.size()) + " bytes in writes of " + sizes.dump());
    rep.count("bytes", want.size());
    rep.sample = { { "total", total }, { "style", style }, { "gaps", gaps }, { "first_writes", sizes } };
    rep.sigs.push_back(std::to_string(style) + (gaps ? "g" : "") + "/" + std::to_string(total / part) + (total % part == 0 ? "=" : total % part == 1 ? "+" : total % part == part - 1 ? "-" : "~"));
}

// The users of the pool within the library give back what they took, whatever becomes of their requests.
HX_CASE(s3_users)
{
    svc_reset();
    LogCapture cap;
    constexpr size_t part = 5 << 20;
    const size_t n = r.pick<size_t>({ 1, 1, 2, 3, 5 });
    const int n_threads = (int)r.pick({ 1, 1, 2, 3, 6 });
    const unsigned one_in = r.pick({ 2u, 3u, 6u, 15u });
    const bool big = index % 3 == 0;
    const uint64_t salt = r.next();
    rep.sample = { { "connections", n }, { "threads", n_threads }, { "one_in", one_in }, { "multipart", big } };
    auto pool = std::make_shared<zarr::S3ConnectionPool>(n, "http://localhost:9000", "user", "secret-key");
    auto hits = std::make_shared<std::atomic<uint64_t>>(0);
    svc().set_fault([=](azs3::Op o, uint64_t nth, const std::string&) {
        const uint64_t v = mix(salt + (uint64_t)o * 1000003 + nth);
        if (v % one_in) {
            return azs3::Fault::None;
        }
        ++*hits;
        return (azs3::Fault)(1 + (v >> 20) % 4);
    });
    auto workers = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
    auto finished = std::make_shared<std::atomic<int>>(0), failures = std::make_shared<std::atomic<int>>(0), wholes = std::make_shared<std::atomic<int>>(0);
    std::vector<std::thread> ts;
    for (int t = 0; t < n_threads; ++t) {
        ts.emplace_back([=] {
            Rng q(mix(salt + 77 + t));
            std::vector<std::byte> buf(big ? part + 1000 : 3000, std::byte(t + 1));
            for (int k = 0; k < (big ? 2 : 6); ++k) {
                bool ok = true;
                try {
                    zarr::SinkCreator creator(workers, pool);
                    const std::string key = "u/" + std::to_string(t) + "/" + std::to_string(k);
                    std::vector<std::unique_ptr<zarr::Sink>> sinks;
                    if (q.chance(30)) {
                        std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> named;
                        ok = creator.make_metadata_sinks(q.chance(50) ? 2 : 3, "az-bucket", key, named);
                        for (auto& [name, s] : named) {
                            sinks.push_back(std::move(s));
                        }
                    } else {
                        sinks.push_back(creator.make_sink("az-bucket", key));
                    }
                    for (auto& s : sinks) {
                        if (!s) {
                            ok = false;
                            continue;
                        }
                        size_t off = 0;
                        for (int w = (int)q.range(0, big ? 3 : 4); w > 0; --w) {
                            const size_t m = big && q.chance(60) ? buf.size() : q.range(1, 3000);
                            try {
                                ok = s->write(off, { buf.data(), m }) && ok;
                            } catch (const std::exception&) {
                                ok = false;
                            }
                            off += m;
                        }
                        if (q.chance(10)) {
                            s.reset(); // given up
                        } else {
                            try {
                                ok = zarr::finalize_sink(std::move(s)) && ok;
                            } catch (const std::exception&) {
                                ok = false;
                            }
                        }
                    }
                } catch (const std::exception&) {
                    ok = false;
                }
                ++*(ok ? wholes : failures);
            }
            ++*finished;
        });
    }
    const auto give_up = [&](const std::string& why) {
        // connections of our own let the threads go on
        rep.bad("pool.not-returned", why);
        svc().set_fault(nullptr);
        for (int k = 0; k < 2000 && *finished < n_threads; ++k) {
            pool->return_connection(std::make_unique<zarr::S3Connection>("http://localhost:9000", "user", "secret-key"));
            usleep(1000);
        }
    };
    if (!within(30000, [&] { return *finished == n_threads; })) {
        give_up(std::to_string(n_threads - *finished) + " of " + std::to_string(n_threads) + " users wait for a connection that nobody returns");
    }
    for (auto& t : ts) {
        t.join();
    }
    svc().set_fault(nullptr);
    if (rep.viol.empty()) {
        std::vector<std::unique_ptr<zarr::S3Connection>> held;
        std::mutex m;
        std::atomic<size_t> got{ 0 };
        std::thread taker([&] {
            for (size_t k = 0; k < n; ++k) {
                auto c = pool->get_connection();
                std::scoped_lock l(m);
                held.push_back(std::move(c));
                ++got;
            }
        });
        if (!within(10000, [&] { return got == n; })) {
            rep.bad("pool.not-returned", "only " + std::to_string(got) + " of " + std::to_string(n) + " connections are back in the pool after " + std::to_string(*failures) + " failures");
            for (size_t k = got; k < n; ++k) {
                pool->return_connection(std::make_unique<zarr::S3Connection>("http://localhost:9000", "user", "secret-key"));
            }
        }
        taker.join();
        std::set<zarr::S3Connection*> distinct;
        for (auto& h : held) {
            if (!h) {
                rep.bad("pool.null", "an empty connection is in the pool");
            } else if (!distinct.insert(h.get()).second) {
                rep.bad("pool.shared", "the same connection was handed out twice");
            }
        }
    }
    for (auto& v : svc().violations()) {
        rep.bad("pool.used-twice", v);
    }
    pool.reset();
    if (svc().live_clients() != 0) {
        rep.bad("pool.leak", std::to_string(svc().live_clients()) + " connections are open after the pool was destroyed");
    }
    rep.count("requests_failed", *hits);
    rep.count("users_failed", *failures);
    rep.count("users_served", *wholes);
    rep.sigs.push_back("users " + std::to_string(n) + "/" + std::to_string(n_threads) + "/" + std::to_string(one_in) + (big ? "m" : "") + "/" + std::to_string(std::min<int>(*failures, 9)));
}

// A sink whose requests fail, in the hands of a client who carries on: what is published holds everything whose write succeeded.
HX_CASE(s3_sink_faults)
{
    svc_reset();
    LogCapture cap;
    constexpr size_t part = 5 << 20;
    auto pool = std::make_shared<zarr::S3ConnectionPool>(r.range(1, 2), "http://localhost:9000", "user", "secret-key");
    auto threads = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
    const std::string key = "pre/obj";
    auto sink = zarr::SinkCreator(threads, pool).make_sink("az-bucket", key);
    if (!sink) {
        rep.bad("s3sink.open", "no sink for an existing bucket");
        return;
    }
    static const azs3::Op ops[] = { azs3::Op::PutObject, azs3::Op::CreateMultipartUpload, azs3::Op::UploadPart, azs3::Op::CompleteMultipartUpload };
    const auto op = ops[r.range(0, 3)];
    const int kind = (int)r.range(1, 4), mode = (int)r.range(0, 2);
    const uint64_t nth = r.range(0, op == azs3::Op::UploadPart ? 3 : 0), salt = r.next();
    auto hits = std::make_shared<std::atomic<uint64_t>>(0);
    svc().set_fault([=](azs3::Op o, uint64_t n, const std::string&) {
        const bool hit = mode == 0 ? o == op && n == nth : mode == 1 ? o == op && n >= nth : o != azs3::Op::ListBuckets && mix(salt + n * 8 + (uint64_t)o) % 4 == 0;
        if (!hit) {
            return azs3::Fault::None;
        }
        ++*hits;
        return (azs3::Fault)kind;
    });
    const size_t total = op == azs3::Op::PutObject ? r.range(1, part - 1) : r.range(part, 4 * part);
    std::string want(total, '\0');
    for (size_t i = 0; i < total; i += 8) {
        const uint64_t v = mix(salt + i) | 0x0101010101010101ull;
        memcpy(want.data() + i, &v, std::min<size_t>(8, total - i));
    }
    std::vector<std::pair<size_t, size_t>> good;
    size_t off = 0, failures = 0;
    json sizes = json::array();
    while (off < total && failures < 5) {
        const size_t n = std::min<size_t>(total - off, r.pick<size_t>({ part, part / 2, part + 1, (size_t)r.range(1, part), (size_t)r.range(1, 3 * part) }));
        bool ok = false;
        try {
            ok = sink->write(off, { (const std::byte*)want.data() + off, n });
        } catch (const std::exception&) {
        }
        sizes.push_back(n);
        if (ok) {
            good.emplace_back(off, n);
            off += n;
        } else {
            ++failures;
            if (r.chance(60)) { // or the same once more
                off += n;
            }
        }
    }
    bool finalized = false;
    try {
        finalized = zarr::finalize_sink(std::move(sink));
    } catch (const std::exception&) {
    }
    svc().set_fault(nullptr);
    std::vector<Problem> pr;
    check_protocol("az-bucket", "pre", pr, rep);
    auto objs = svc().objects("az-bucket");
    const bool there = objs.count(key);
    if (there) {
        for (auto& [o, n] : good) {
            if (objs[key].size() < o + n || objs[key].compare(o, n, want, o, n) != 0) {
                pr.push_back({ "s3sink.incomplete-published", "the published object of " + std::to_string(objs[key].size()) + " bytes lacks the " + std::to_string(n) +
                                                                " bytes written at " + std::to_string(o) });
                break;
            }
        }
    }
    if (finalized && !failures && (!there || objs[key] != want)) {
        pr.push_back({ "s3sink.silent", "every write and the end succeeded, and the object is " + (there ? std::to_string(objs[key].size()) + " bytes" : "missing") });
    }
    if (!finalized || failures ? cap.err().empty() && !*hits : false) {
        pr.push_back({ "s3sink.failed", "failed without any fault" });
    }
    sink.reset();
    pool.reset();
    if (svc().live_clients() != 0) {
        pr.push_back({ "s3.connections-left", std::to_string(svc().live_clients()) + " connections are open at the end" });
    }
    const std::string ctx = std::string(azs3::op_name(op)) + " #" + std::to_string(nth) + " kind " + std::to_string(kind) + " mode " + std::to_string(mode);
    rep.add(pr, ctx + ", writes of " + sizes.dump());
    rep.sample = { { "fault", ctx }, { "writes", sizes } };
    rep.count("sink_faults", *hits);
    rep.count(there ? "published" : "withheld");
    rep.sigs.push_back(ctx + (failures ? " f" + std::to_string(failures) : "") + (finalized ? " end" : "") + (there ? " there" : ""));
}
