// File system failures at every point: injected into the system calls, and real ones made by the kernel.
#include "drive.hh"
#include "ffs.hh"
#include "reg.hh"
#include <csignal>
#include <dirent.h>
using namespace hx;

namespace {
struct FsRun
{
    bool created = false, append_failed = false, wrong_count = false;
    uint64_t acked = 0;
    std::string log;
    std::vector<Problem> pr; // what a reader missed after a successful append
    bool reported() const { return !created || append_failed || !log.empty(); }
};

using Levels = std::vector<Array>;

// the levels above the first as a run without faults leaves them, of streams whose frames are planes
Levels
levels_above(const Case& c, const Store& st)
{
    Levels all;
    std::vector<Problem> pr;
    for (int k = 1; c.multiscale && c.dims.size() == 3 && st.count(c.version == 2 ? std::to_string(k) + "/.zarray" : "meta/root/" + std::to_string(k) + ".array.json"); ++k) {
        auto a = read_array(st, c.version, k, pr);
        if (!a || a->shape[0] == 0) {
            break;
        }
        all.push_back(*a);
    }
    return all;
}

// What a reader must find at the levels above after n acknowledged frames.
void
check_levels(const Case& c, const Store& st, const Levels& levels, uint64_t n, std::vector<Problem>& pr, CaseReport& rep)
{
    for (size_t i = 0; i < levels.size(); ++i) {
        const auto& want = levels[i];
        const uint64_t mine = want.chunks[0] * (c.version == 3 ? want.cps[0] : 1);
        const uint64_t f = (n >> (i + 1)) / mine * mine;
        if (f == 0) {
            break;
        }
        std::vector<Problem> p;
        auto got = read_array(st, c.version, (int)i + 1, p);
        if (!got) {
            pr.insert(pr.end(), p.begin(), p.end());
            return;
        }
        const size_t fb = want.data.size() / want.shape[0];
        const std::string what = "level " + std::to_string(i + 1) + " after " + std::to_string(n) + " acknowledged frames: ";
        if (got->shape[0] < f || got->data.size() < f * fb) {
            pr.push_back({ "prefix.level-shape", what + "shape " + json(got->shape).dump() + ", " + std::to_string(f) + " of its frames are complete" });
        } else if (!std::equal(want.data.begin(), want.data.begin() + f * fb, got->data.begin())) {
            pr.push_back({ "prefix.level-data", what + "its first " + std::to_string(f) + " frames differ" });
        }
        rep.count("acknowledged_level_layers_checked");
    }
}

// after_create runs between creation and the first append
FsRun
stream_under_fault(const Case& c,
                   const std::string& path,
                   const Bytes& data,
                   const Cuts& cuts,
                   CaseReport& rep,
                   const std::function<void()>& before = nullptr,
                   const std::function<void()>& after_create = nullptr,
                   const std::function<void()>& after = nullptr,
                   const Levels& levels = {})
{
    FsRun run;
    LogCapture cap;
    const uint64_t layer = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
    if (before) {
        before();
    }
    auto* s = create(c, path);
    run.created = s != nullptr;
    if (s) {
        if (after_create) {
            after_create();
        }
        size_t off = 0, failed = 0;
        for (auto n : cuts) {
            size_t out = 0;
            auto code = ZarrStream_append(s, data.data() + off, n, &out);
            if (code != ZarrStatusCode_Success) {
                run.append_failed = true;
                if (++failed > 3) {
                    break;
                }
            } else if (!run.append_failed) {
                run.wrong_count = run.wrong_count || out != n;
                const uint64_t was = run.acked / c.frame_bytes() / layer;
                run.acked += n;
                const uint64_t now = run.acked / c.frame_bytes();
                if (now / layer != was && run.pr.empty()) {
                    check_prefix(c, load_dir(path), durable_frames(c, now), run.pr);
                    rep.count("acknowledged_layers_checked");
                }
                if (!levels.empty() && now != (run.acked - n) / c.frame_bytes() && run.pr.empty()) {
                    check_levels(c, load_dir(path), levels, now, run.pr, rep);
                }
            }
            off += n;
        }
        ZarrStream_destroy(s);
    }
    if (after) {
        after();
    }
    run.log = cap.err();
    return run;
}

Case
fs_case(Rng& r, bool pyramid = false)
{
    GenOpts o;
    o.max_yx = 12;
    o.max_dims = 5;
    o.max_chunks = 24;
    o.max_stream = 128 << 10;
    o.max_frames = 40;
    o.compressed_percent = 25;
    o.multiscale_percent = pyramid ? 100 : 20;
    if (pyramid) {
        o.max_dims = 3;
    }
    Case c;
    do {
        c = gen_case(r, o);
    } while (c.frames == 0 && r.chance(80));
    return c;
}

void
judge(const FsRun& run, const Store& want, const std::string& path, bool hit, const std::string& ctx, CaseReport& rep)
{
    std::vector<Problem> pr = run.pr;
    rep.count(!hit ? "never_hit" : !run.created ? "reported_by_create" : run.append_failed ? "reported_by_append" : !run.log.empty() ? "reported_by_log" : "survived");
    if (run.wrong_count) {
        pr.push_back({ "fs.append-count", "a successful append reported another number of bytes" });
    }
    if (!run.reported()) {
        auto got = load_dir(path);
        for (auto& [k, v] : want) {
            auto it = got.find(k);
            if (it == got.end()) {
                pr.push_back({ "fs.silent-loss", k + " is missing although nothing was reported" });
            } else if (it->second != v) {
                pr.push_back({ "fs.silent-damage", k + " has wrong contents (" + std::to_string(it->second.size()) + " bytes, expected " +
                                                     std::to_string(v.size()) + ") although nothing was reported" });
            }
        }
        for (auto& [k, v] : got) {
            if (!want.count(k)) {
                pr.push_back({ "fs.stray", k + " should not exist" });
            }
        }
    }
    if (!hit && run.reported()) {
        pr.push_back({ "fs.failed-without-fault", run.log.substr(0, 400) });
    }
    rep.add(pr, ctx);
}
} // namespace

HX_CASE(fs_faults)
{
    Case c = fs_case(r, index % 5 == 4);
    rep.sample = case_json(c);
    TempDir td(args, index);
    const auto path = td / "s.zarr";
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.pick({ 0, 0, 2, 3 }));
    fsf::arm(td.p.string(), nullptr);
    auto ref = stream_to_dir(c, path, data, cuts, rep, "without faults");
    uint64_t counts[fsf::NOps];
    std::vector<fsf::Op> ops;
    for (int o = 0; o < fsf::NOps; ++o) {
        counts[o] = fsf::calls((fsf::Op)o);
        if (counts[o]) {
            ops.push_back((fsf::Op)o);
        }
    }
    fsf::disarm();
    if (!ref.ok) {
        return;
    }
    if (!counts[fsf::Open] || !counts[fsf::Write]) {
        rep.inconclusive = "no system call was seen";
        return;
    }
    rep.count("system_calls_seen", counts[0] + counts[1] + counts[2]);
    const auto levels = levels_above(c, ref.store);
    const int trials = args.thorough() ? 120 : 14;
    for (int t = 0; t < trials && rep.viol.size() < 6; ++t) {
        const auto op = r.pick(ops);
        const int mode = (int)r.range(0, 2);
        const uint64_t nth = r.chance(30) ? counts[op] - 1 : r.range(0, counts[op] - 1);
        const bool partial = op == fsf::Write && r.chance(25);
        const int err = op == fsf::Open    ? r.pick({ EACCES, EMFILE, ENOSPC, EIO, ENFILE, EROFS })
                        : op == fsf::Mkdir ? r.pick({ EACCES, ENOSPC, EROFS, EIO, EMLINK })
                                           : r.pick({ ENOSPC, EIO, EFBIG, EDQUOT, ENOSPC });
        static const char* on[] = { "open", "write", "mkdir" };
        static const char* mn[] = { "once", "from then on", "every third time" };
        const std::string ctx = std::string(on[op]) + " #" + std::to_string(nth) + "/" + std::to_string(counts[op]) + " " +
                                (partial ? "short" : strerror(err)) + " " + mn[mode];
        fs::remove_all(path);
        uint64_t hits = 0;
        auto run = stream_under_fault(
          c, path, data, cuts, rep,
          [&] {
              fsf::arm(td.p.string(), [=](fsf::Op o, const std::string&, uint64_t n) {
                  fsf::Action a;
                  const bool hit = o == op && (mode == 0 ? n == nth : mode == 1 ? n >= nth : n >= nth && (n - nth) % 3 == 0);
                  if (hit && partial) {
                      a.partial = true;
                  } else if (hit) {
                      a.err = err;
                  }
                  return a;
              });
          },
          nullptr,
          [&] {
              hits = fsf::faults() + fsf::partials();
              fsf::disarm();
          },
          levels);
        rep.count("fault_plans");
        rep.count("faults_injected", hits);
        judge(run, ref.store, path, hits > 0, ctx, rep);
        rep.sigs.push_back(std::string(on[op]) + (partial ? "short" : strerror(err)) + mn[mode] + (nth == 0 ? "first" : nth + 1 == counts[op] ? "last" : "mid") +
                           " v" + std::to_string(c.version) + (c.multiscale ? "ms" : "") + (c.compressed ? "z" : "") +
                           (!run.created ? "create" : run.append_failed ? "append" : !run.log.empty() ? "log" : "none"));
        // a failed stream may leave directories without permission problems only, so this always works
        std::error_code ec;
        fs::remove_all(path, ec);
    }
    auto again = stream_to_dir(c, path, data, cuts, rep, "after the faults");
    if (again.ok && again.store != ref.store) {
        rep.bad("fs.not-recovered", "a stream without faults left another store afterwards");
    }
}

// The kernel says no.
HX_CASE(fs_real)
{
    Case c;
    do {
        c = fs_case(r);
    } while (c.frames == 0 || c.multiscale);
    rep.sample = case_json(c);
    TempDir td(args, index);
    const auto path = td / "s.zarr";
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.pick({ 0, 1, 2, 3 }));
    auto ref = stream_to_dir(c, path, data, cuts, rep, "without faults");
    if (!ref.ok) {
        return;
    }
    fs::remove_all(path);
    // pick one of the files a complete run leaves below an array
    std::vector<std::string> files;
    for (auto& [k, v] : ref.store) {
        auto docs = group_docs(c.version);
        if (std::find(docs.begin(), docs.end(), k) == docs.end() && k != "0/.zattrs") {
            files.push_back(k);
        }
    }
    if (files.empty()) {
        return;
    }
    const auto victim = r.pick(files);
    int kind = (int)(mix(index) % 7);
    if (geteuid() == 0 && kind == 3) {
        kind = 0; // permissions do not bind root
    }
    rep.sample["victim"] = victim;
    rlimit old{};
    std::function<void()> before, planted, after;
    std::string ctx;
    bool must_report = true;
    switch (kind) {
        case 0:
            ctx = "a directory in place of " + victim;
            planted = [&] { fs::create_directories(fs::path(path) / victim); };
            break;
        case 1: {
            auto dir = fs::path(victim).parent_path();
            ctx = "a file in place of directory " + dir.string();
            must_report = false;
            planted = [&, dir] {
                auto p = fs::path(path) / dir;
                if (!fs::exists(p)) {
                    fs::create_directories(p.parent_path());
                    std::ofstream(p) << "x";
                    must_report = true;
                }
            };
            break;
        }
        case 2:
            ctx = victim + " is a full device";
            must_report = !ref.store[victim].empty();
            planted = [&] {
                auto p = fs::path(path) / victim;
                fs::create_directories(p.parent_path());
                fs::create_symlink("/dev/full", p);
            };
            break;
        case 3: {
            auto dir = fs::path(victim).parent_path();
            ctx = "no permission to write to " + dir.string();
            planted = [&, dir] {
                auto p = fs::path(path) / dir;
                fs::create_directories(p);
                ::chmod(p.c_str(), 0555);
            };
            after = [&, dir] { ::chmod((fs::path(path) / dir).c_str(), 0755); };
            break;
        }
        case 4:
        case 5: {
            size_t largest = 0;
            for (auto& k : files) {
                largest = std::max(largest, ref.store[k].size());
            }
            const rlim_t lim = r.range(1, largest - 1);
            ctx = "files limited to " + std::to_string(lim) + " bytes";
            auto set = [&, lim] {
                getrlimit(RLIMIT_FSIZE, &old);
                rlimit now{ lim, old.rlim_max };
                signal(SIGXFSZ, SIG_IGN);
                setrlimit(RLIMIT_FSIZE, &now);
            };
            (kind == 4 ? before : planted) = set;
            after = [&] { setrlimit(RLIMIT_FSIZE, &old); };
            break;
        }
        default: {
            ctx = "few file descriptors";
            must_report = false;
            const int spare = (int)r.range(0, 8);
            auto set = [&, spare] {
                int used = 0;
                if (auto* d = opendir("/proc/self/fd")) {
                    while (auto* e = readdir(d)) {
                        used = std::max(used, atoi(e->d_name));
                    }
                    closedir(d);
                }
                getrlimit(RLIMIT_NOFILE, &old);
                rlimit now{ (rlim_t)(used + spare), old.rlim_max };
                setrlimit(RLIMIT_NOFILE, &now);
            };
            (r.chance(30) ? before : planted) = set;
            after = [&] { setrlimit(RLIMIT_NOFILE, &old); };
            // with so few descriptors our own reader cannot look in between; cut the stream so that it does not try
            cuts = gen_cuts(r, data.size(), c.frame_bytes(), 1);
            break;
        }
    }
    FsRun run;
    if (kind >= 6) {
        LogCapture cap;
        if (before) before();
        auto* s = create(c, path);
        run.created = s != nullptr;
        if (s) {
            if (planted) planted();
            size_t out = 0;
            run.append_failed = ZarrStream_append(s, data.data(), data.size(), &out) != ZarrStatusCode_Success;
            ZarrStream_destroy(s);
        }
        if (run.created || before) after();
        run.log = cap.err();
    } else {
        run = stream_under_fault(c, path, data, cuts, rep, before, planted, after);
        if (!run.created && !before && after) {
            after();
        }
    }
    rep.count("kernel_faults");
    static const char* names[] = { "directory", "not_a_directory", "device_full", "permission", "file_size", "file_size", "descriptors" };
    rep.count(("kernel_" + std::string(names[kind])).c_str());
    if (must_report && !run.reported()) {
        rep.bad("fs.silent", ctx + ": nothing was reported");
    }
    judge(run, ref.store, path, true, ctx, rep);
    rep.sigs.push_back(std::string(names[kind]) + " v" + std::to_string(c.version) + (c.compressed ? "z" : "") +
                       (!run.created ? "create" : run.append_failed ? "append" : !run.log.empty() ? "log" : "none") + std::to_string(index % 50));
    fs::remove_all(path);
}
