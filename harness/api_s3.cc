// S3 stores: equal to filesystem stores, by a valid protocol, and with every failure contained and reported.
#include "s3common.hh"
#include "reg.hh"
using namespace hx;

namespace {
Case
s3_case(Rng& r, bool big)
{
    GenOpts o;
    o.max_yx = 16;
    o.max_dims = 5;
    o.max_chunks = 14;
    o.max_stream = 300 << 10;
    o.max_frames = 40;
    o.compressed_percent = 25;
    o.multiscale_percent = 25;
    Case c = gen_case(r, o);
    if (big) {
        // objects around multiples of the 5 MiB part size
        c.dims.resize(3);
        c.dims[0] = { "t", ZarrDimensionType_Time, 0, (uint32_t)r.range(1, 2), (uint32_t)r.range(1, 3) };
        const uint32_t w = r.pick({ 1024u, 1280u, 1023u });
        c.dtype = r.pick({ ZarrDataType_uint16, ZarrDataType_float64, ZarrDataType_uint64, ZarrDataType_int64 });
        const uint64_t bytes = (uint64_t)r.range(1, 2) * (5 << 20) / c.dims[0].chunk;
        const uint32_t h = (uint32_t)std::max<uint64_t>(1, bytes / w / c.itemsize() + r.pick({ 0, 0, 1, -1, 37 }));
        c.dims[1] = { "y", ZarrDimensionType_Space, h, h, 1 };
        c.dims[2] = { "x", ZarrDimensionType_Space, w, w, 1 };
        c.multiscale = false;
        c.compressed = r.chance(10);
        c.frames = r.range(1, 2 * c.dims[0].chunk + 1);
        c.pattern = 0;
    }
    return c;
}

std::string
random_prefix(Rng& r)
{
    return r.pick<std::string>({ "s.zarr", "a/b/s.zarr", "data set", "x", "acq-\xc3\xa9", "s.zarr.v3/run_1" });
}

// other people's objects in the bucket
Store
foreign_objects(const std::string& prefix)
{
    return { { prefix + "-other", "1" }, { prefix + ".zattrs", "2" }, { "zarr.json", "3" }, { "unrelated/0/.zarray", "4" }, { "0/0/0/0", "5" } };
}
void
plant(const Store& objs)
{
    // through the service's own client interface, before anything is recorded
    std::atomic<int> busy{ 0 };
    for (auto& [k, v] : objs) {
        svc().call(azs3::Op::PutObject, busy, "az-bucket", k, {}, 0, v);
    }
}
} // namespace

HX_CASE(s3_equal)
{
    const bool big = index % 6 == 0;
    Case c = s3_case(r, big);
    if (index % 24 == 1) {
        deepen(c);
    }
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto ref = stream_to_dir(c, td / "s.zarr", data, gen_cuts(r, data.size(), c.frame_bytes(), 2), rep, "filesystem store");
    if (!ref.ok) {
        return;
    }
    const auto prefix = random_prefix(r);
    auto foreign = foreign_objects(prefix);
    foreign.erase(prefix + "/");
    svc_reset();
    plant(foreign);
    const auto planted = svc().events().size();
    (void)planted;
    if (r.chance(40)) {
        auto delays = std::make_shared<std::atomic<uint64_t>>(r.next());
        svc().set_delay([delays](azs3::Op, uint64_t seq) {
            auto v = mix(delays->load() + seq);
            if (v % 3 == 0) {
                usleep(v / 3 % 400);
            }
        });
    }
    // drop the planting from the record
    const uint64_t skip = foreign.size();
    const S3Opts so = gen_s3(r);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.range(0, 3));
    // white space around a setting is no part of it
    S3Opts given = so;
    auto given_prefix = prefix;
    if (r.chance(25)) {
        const auto padded = [&](std::string& s) { s = r.pick<std::string>({ "", " ", "\t", "  \n" }) + s + r.pick<std::string>({ "", " ", "\n", "\t " }); };
        padded(given.endpoint);
        padded(given.bucket);
        padded(given.key);
        padded(given.secret);
        padded(given_prefix);
        rep.count("padded_settings");
    }
    auto run = stream_to_s3(c, given_prefix, data, cuts, given);
    svc().set_delay(nullptr);
    if (!run.created || run.append_failed || run.wrong_count || !run.log.empty()) {
        rep.bad("s3.stream-failed", "the S3 stream failed without any fault: " + run.log.substr(0, 400));
        return;
    }
    std::vector<Problem> pr;
    {
        // the record starts with our own requests
        auto events = svc().events();
        uint64_t n = 0;
        for (auto& e : events) {
            if (foreign.count(e.key)) {
                ++n;
            }
        }
        if (n > skip) {
            pr.push_back({ "s3.outside-prefix", "a request for an object of somebody else" });
        }
    }
    check_callers(so, pr);
    rep.count("callers_checked", svc().callers().size());
    std::vector<Problem> proto;
    auto ups = check_protocol("az-bucket", prefix, proto, rep);
    for (auto& p : proto) {
        bool ours = false;
        for (auto& [k, v] : foreign) {
            ours = ours || p.msg.find("PutObject of key '" + k + "'") == 0;
        }
        if (!ours) {
            pr.push_back(p);
        }
    }
    for (auto& [id, u] : ups) {
        if (u.completes_ok != 1 || u.creates != 1) {
            pr.push_back({ "s3.upload-open", "upload of " + u.key + " created " + std::to_string(u.creates) + " times, completed " +
                                               std::to_string(u.completes_ok) + " times" });
        }
        if (u.last_part_at > u.completed_at) {
            pr.push_back({ "s3.part-after-complete", u.key });
        }
    }
    auto objects = svc().objects("az-bucket");
    compare_stores(ref.store, strip_prefix(objects, prefix), "in the bucket", pr);
    for (auto& [k, v] : foreign) {
        if (!objects.count(k) || objects[k] != v) {
            pr.push_back({ "s3.foreign-object", "object " + k + " of somebody else was changed" });
        }
    }
    if (objects.size() != ref.store.size() + foreign.size()) {
        pr.push_back({ "s3.extra", std::to_string(objects.size()) + " objects in the bucket, expected " +
                                     std::to_string(ref.store.size() + foreign.size()) });
    }
    if (svc().live_clients() != 0) {
        pr.push_back({ "s3.connections-left", std::to_string(svc().live_clients()) + " connections are open after the stream was destroyed" });
    }
    rep.add(pr, "prefix '" + prefix + "'");
    rep.count("objects", ref.store.size());
    rep.count("streams");
    rep.sigs.push_back((big ? "big " : "") + std::to_string(std::min<size_t>(ups.size(), 3)) + signature(c));
}

HX_CASE(s3_faults)
{
    const bool big = index % 4 == 0;
    Case c = s3_case(r, big);
    if (big) {
        c.frames = std::min<uint64_t>(c.frames, 2);
    }
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto ref = stream_to_dir(c, td / "s.zarr", data, gen_cuts(r, data.size(), c.frame_bytes(), 2), rep, "filesystem store");
    if (!ref.ok) {
        return;
    }
    const std::string prefix = "s.zarr";
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), 0);
    // how many requests of each kind there are
    svc_reset();
    auto dry = stream_to_s3(c, prefix, data, cuts, {});
    if (dry.reported()) {
        rep.bad("s3.stream-failed", "the S3 stream failed without any fault: " + dry.log.substr(0, 400));
        return;
    }
    uint64_t counts[(int)azs3::Op::Count] = {};
    for (auto& e : svc().events()) {
        ++counts[(int)e.op];
    }
    std::vector<azs3::Op> ops;
    for (int o = 0; o < (int)azs3::Op::Count; ++o) {
        if (counts[o]) {
            ops.push_back((azs3::Op)o);
        }
    }
    const int trials = args.thorough() ? 60 : big ? 6 : 16;
    for (int t = 0; t < trials && rep.viol.size() < 6; ++t) {
        const auto op = r.pick(ops);
        const auto fault = r.pick({ azs3::Fault::Error, azs3::Fault::EmptyReply, azs3::Fault::LostReply, azs3::Fault::Throw });
        const int mode = (int)r.range(0, 3); // once, from then on, every other, random requests of any kind
        const uint64_t nth = r.chance(30) ? counts[(int)op] - 1 : r.range(0, counts[(int)op] - 1);
        const uint64_t salt = r.next();
        static const char* fn[] = { "none", "error", "empty reply", "lost reply", "exception" };
        static const char* mn[] = { "once", "from then on", "every other time", "at random with every kind" };
        const std::string ctx = std::string(azs3::op_name(op)) + " #" + std::to_string(nth) + " " + fn[(int)fault] + " " + mn[mode];
        svc_reset();
        auto hits = std::make_shared<std::atomic<uint64_t>>(0);
        svc().set_fault([=](azs3::Op o, uint64_t n, const std::string&) {
            bool hit = false;
            switch (mode) {
                case 0: hit = o == op && n == nth; break;
                case 1: hit = o == op && n >= nth; break;
                case 2: hit = o == op && n >= nth && (n - nth) % 2 == 0; break;
                default: hit = mix(salt + (uint64_t)o * 1000003 + n) % 7 == 0 && o != azs3::Op::ListBuckets; break;
            }
            if (!hit) {
                return azs3::Fault::None;
            }
            ++*hits;
            return mode == 3 ? (azs3::Fault)(1 + mix(salt + n * 31 + (uint64_t)o) % 4) : fault;
        });
        auto run = stream_to_s3(c, prefix, data, cuts, {});
        svc().set_fault(nullptr);
        rep.count("fault_plans");
        rep.count("faults_injected", *hits);
        rep.count(!run.created ? "reported_by_create" : run.append_failed ? "reported_by_append" : !run.log.empty() ? "reported_by_log" : *hits ? "not_reported" : "never_hit");
        std::vector<Problem> pr;
        check_protocol("az-bucket", prefix, pr, rep);
        auto stored = strip_prefix(svc().objects("az-bucket"), prefix);
        if (!run.reported()) {
            compare_stores(ref.store, stored, "although nothing was reported", pr);
        } else {
            // whatever was published is a complete object of this stream; group documents and whole chunks have one content only
            for (auto& [k, v] : stored) {
                auto it = ref.store.find(k);
                if (it == ref.store.end()) {
                    continue; // after a reported failure a layer may have been written again under the next name
                } else if (!c.multiscale && c.version == 2 && !c.compressed && k.find('.') == std::string::npos && v.size() != it->second.size()) {
                    pr.push_back({ "s3.incomplete-published", "chunk " + k + " has " + std::to_string(v.size()) + " bytes instead of " +
                                                                std::to_string(it->second.size()) });
                } else if (!run.append_failed && run.created && v != it->second) {
                    pr.push_back({ "s3.differs", k + " differs although every append succeeded" });
                }
            }
        }
        if (run.wrong_count) {
            pr.push_back({ "s3.append-count", "a successful append reported another number of bytes" });
        }
        if (svc().live_clients() != 0) {
            pr.push_back({ "s3.connections-left", std::to_string(svc().live_clients()) + " connections are open after the stream was destroyed" });
        }
        rep.add(pr, ctx);
        rep.sigs.push_back(ctx.substr(0, ctx.find(' ')) + fn[(int)fault] + mn[mode] + (big ? "big" : "") + " v" + std::to_string(c.version) +
                           (nth == 0 ? "first" : nth + 1 == counts[(int)op] ? "last" : "mid") +
                           (!run.created ? "create" : run.append_failed ? "append" : !run.log.empty() ? "log" : "none"));
    }
    // later operations of the process still work
    svc_reset();
    auto again = stream_to_s3(c, prefix, data, cuts, {});
    std::vector<Problem> pr;
    if (again.reported()) {
        pr.push_back({ "s3.not-recovered", "a stream without faults failed afterwards: " + again.log.substr(0, 300) });
    }
    compare_stores(ref.store, strip_prefix(svc().objects("az-bucket"), prefix), "in a later stream", pr);
    rep.add(pr, "after the faults");
}
