// What a stream leaves behind: threads, descriptors, connections, memory.
#include "ffs.hh"
#include "memfault.hh"
#include "perturb.hh"
#include "reg.hh"
#include "s3common.hh"
#include <dirent.h>
using namespace hx;

namespace {
size_t
entries(const char* dir, std::string* list = nullptr)
{
    size_t n = 0;
    DIR* d = opendir(dir);
    if (!d) {
        return 0;
    }
    while (auto* e = readdir(d)) {
        if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) {
            continue;
        }
        ++n;
        if (list) {
            char buf[512];
            ssize_t k = readlink((std::string(dir) + "/" + e->d_name).c_str(), buf, sizeof buf);
            *list += " " + std::string(e->d_name) + (k > 0 ? "->" + std::string(buf, (size_t)k) : "");
        }
    }
    closedir(d);
    return n;
}
size_t
descriptors(std::string* list = nullptr)
{
    return entries("/proc/self/fd", list);
}
size_t
threads()
{
    return entries("/proc/self/task");
}

enum Mode
{
    Success,
    Abandoned,
    FsFaults,
    S3Success,
    S3Faults,
    Invalid,
    FewThreads,
    Unwritable,
    NoMemory,
    DestroyFaults,
    NModes
};
const char* mode_name[] = { "success", "abandoned", "fs-faults", "s3", "s3-faults", "invalid", "few-threads", "unwritable", "no-memory", "destroy-faults" };

struct Plan
{
    Case c;
    Mode mode;
    Bytes data;
    Cuts cuts;
    uint64_t at, many;
    int op, kind;
    bool carry_on;
    std::string dir;
};

struct Seen
{
    bool created = false, failed = false, error = false;
    uint64_t faults = 0;
};

Seen
cycle(const Plan& p, CaseReport* rep)
{
    Seen seen;
    const bool s3 = p.mode == S3Success || p.mode == S3Faults;
    std::string path = p.dir + "/s.zarr";
    if (p.mode == Invalid) {
        path = p.kind == 0 ? p.dir + "/no/such/parent/s.zarr" : path;
    } else if (p.mode == Unwritable) {
        path = p.kind == 0 ? "/proc/s.zarr" : p.dir + "/locked/s.zarr";
    }
    if (s3) {
        svc_reset();
        path = "s.zarr";
        if (p.mode == S3Faults) {
            svc().set_fault([&p, &seen](azs3::Op, uint64_t n, const std::string&) {
                if (n >= p.at && n < p.at + p.many) {
                    ++seen.faults;
                    return p.kind == 0 ? azs3::Fault::Error : p.kind == 1 ? azs3::Fault::Throw : p.kind == 2 ? azs3::Fault::EmptyReply : azs3::Fault::LostReply;
                }
                return azs3::Fault::None;
            });
        }
    }
    {
        S3Opts so;
        Case c = p.c;
        if (p.mode == Invalid && p.kind == 1) {
            c.dims[1].chunk = 0;
        }
        LogCapture cap;
        Settings st(c, path, s3 ? &so : nullptr);
        // dimensions through the library's own allocation, twice: the second replaces the first
        ZarrStreamSettings own = st.s;
        own.dimensions = nullptr;
        own.dimension_count = 0;
        if (ZarrStreamSettings_create_dimension_array(&own, 3) == ZarrStatusCode_Success &&
            ZarrStreamSettings_create_dimension_array(&own, c.dims.size()) == ZarrStatusCode_Success) {
            memcpy(own.dimensions, st.dims.get(), c.dims.size() * sizeof(*own.dimensions));
        }
        if (p.mode == FewThreads) {
            prt::limit_threads((int)p.at % 9);
        }
        if (p.mode == NoMemory) {
            mem::arm(2048, p.at, p.many);
        }
        if (p.mode == FsFaults || p.mode == DestroyFaults) {
            fsf::arm(p.dir, [&p](fsf::Op o, const std::string&, uint64_t n) {
                fsf::Action a;
                if (p.mode == FsFaults && (int)o == p.op && n >= p.at && n < p.at + p.many) {
                    a.err = o == fsf::Open ? EMFILE : ENOSPC;
                }
                return a;
            });
        }
        auto* s = ZarrStream_create(&own);
        ZarrStreamSettings_destroy_dimension_array(&own);
        seen.created = s;
        if (s) {
            size_t off = 0;
            for (auto n : p.cuts) {
                size_t out = 0;
                if (ZarrStream_append(s, p.data.data() + off, n, &out) != ZarrStatusCode_Success) {
                    seen.failed = true;
                    if (!p.carry_on) {
                        break;
                    }
                }
                off += n;
            }
            if (p.mode == DestroyFaults) {
                fsf::arm(p.dir, [](fsf::Op, const std::string&, uint64_t) {
                    fsf::Action a;
                    a.err = EIO;
                    return a;
                });
            }
            ZarrStream_destroy(s);
        }
        mem::disarm();
        prt::limit_threads(-1);
        if (p.mode == FsFaults || p.mode == DestroyFaults) {
            seen.faults = fsf::faults();
            fsf::disarm();
        }
        seen.error = !cap.err().empty();
        if (p.mode == NoMemory) {
            seen.faults = mem::refused();
        }
        if (p.mode == FewThreads) {
            seen.faults = prt::refused_threads();
        }
    }
    if (rep) {
        // a thread that is joined is gone at once, as far as we counted; the kernel may need a moment longer
        if (prt::running_threads() != 0) {
            rep->bad("resources.threads", std::string(mode_name[p.mode]) + ": " + std::to_string(prt::running_threads()) + " threads are still running");
        }
    }
    if (s3) {
        if (rep && svc().live_clients() != 0) {
            rep->bad("resources.connections", std::string(mode_name[p.mode]) + ": " + std::to_string(svc().live_clients()) + " connections are still open");
        }
        svc_reset();
    }
    std::error_code ec;
    fs::remove_all(p.dir + "/s.zarr", ec);
    return seen;
}

Case
small_case(Rng& r, int version)
{
    GenOpts o;
    o.version = version;
    o.max_yx = 16;
    o.max_chunks = 30;
    o.max_stream = 200 << 10;
    o.compressed_percent = 30;
    o.multiscale_percent = 30;
    o.chunk1_ok = false;
    Case c = gen_case(r, o);
    if (c.multiscale) {
        c.pattern = 5;
    }
    return c;
}
} // namespace

HX_CASE(resources)
{
    Plan p;
    p.mode = (Mode)(index % NModes);
    p.c = small_case(r, 0);
    TempDir td(args, index);
    p.dir = td.p.string();
    if (p.mode == Unwritable) {
        fs::create_directory(td.p / "locked");
        fs::permissions(td.p / "locked", fs::perms::owner_read | fs::perms::owner_exec);
    }
    p.data = stream_bytes(p.c, p.c.frames);
    if (p.mode == Abandoned || r.chance(15)) {
        p.data.resize(r.range(0, p.data.size()));
    }
    p.cuts = gen_cuts(r, p.data.size(), p.c.frame_bytes(), (int)r.range(0, 3));
    p.at = p.mode == S3Faults ? (r.chance(50) ? r.range(0, 4) : r.range(0, 40)) : r.range(0, 30);
    p.many = r.chance(50) ? 1 : r.chance(50) ? 2 : 1u << 30;
    p.op = (int)r.range(0, 2);
    p.kind = (int)r.range(0, p.mode == S3Faults ? 3 : 1);
    p.carry_on = r.chance(40);
    if (p.mode == NoMemory) {
        p.at = r.range(0, 60);
    }
    rep.sample = case_json(p.c);
    rep.sample["mode"] = mode_name[p.mode];
    rep.sample["plan"] = { p.at, p.many, p.op, p.kind, p.carry_on };

    prt::count_threads(true);
    cycle(p, nullptr);
    cycle(p, nullptr);
    const auto fds = descriptors();
    const auto tasks = threads();
    std::vector<int64_t> bytes, blocks;
    auto growing = [](const std::vector<int64_t>& v) {
        for (size_t i = 1; i < v.size(); ++i) {
            if (v[i] <= v[i - 1]) {
                return false;
            }
        }
        return true;
    };
    Seen seen;
    bytes.reserve(64);
    blocks.reserve(64);
    auto measure = [&](int cycles) {
        bytes.clear();
        blocks.clear();
        bytes.push_back(mem::live());
        blocks.push_back(mem::blocks());
        for (int i = 0; i < cycles; ++i) {
            seen = cycle(p, &rep);
            bytes.push_back(mem::live());
            blocks.push_back(mem::blocks());
            rep.count("cycles");
            if (!growing(bytes)) {
                return; // no need to go on
            }
        }
    };
    measure(5);
    if (growing(bytes)) {
        measure(10); // settled by now, if it ever does
    }
    rep.count("memory_comparisons");
    rep.count(seen.created ? "streams_created" : "streams_not_created");
    rep.count("cycles_with_failed_appends", seen.failed);
    rep.count("cycles_with_logged_errors", seen.error);
    rep.count("faults", seen.faults);
    const std::string ctx = std::string("mode ") + mode_name[p.mode] + (seen.created ? "" : ", not created") + (seen.failed ? ", append failed" : "");
    if (growing(bytes)) {
        rep.bad("resources.memory", ctx + ": each of 10 equal cycles keeps more memory: " + json(bytes).dump() + " bytes in " + json(blocks).dump() + " blocks");
    }
    std::string list;
    if (descriptors(&list) != fds) {
        rep.bad("resources.descriptors", ctx + ": " + std::to_string(fds) + " descriptors were open before, now:" + list);
    }
    for (int i = 0; threads() != tasks && i < 2000; ++i) {
        usleep(1000);
    }
    if (threads() > tasks) {
        rep.bad("resources.threads", ctx + ": " + std::to_string(tasks) + " threads before, " + std::to_string(threads()) + " after");
    }
    prt::count_threads(false);
    rep.sigs.push_back(std::string("res ") + mode_name[p.mode] + " v" + std::to_string(p.c.version) + (p.c.compressed ? " z" : "") + (p.c.multiscale ? " ms" : "") +
                       (seen.created ? " c" : " n") + (seen.failed ? "f" : "") + (seen.error ? "e" : "") + std::to_string(p.kind) + std::to_string(p.op) + (p.carry_on ? "+" : ""));
}

// Memory, descriptors and threads while a long stream runs.
HX_CASE(bounded)
{
    GenOpts o;
    o.max_yx = 10;
    o.max_dims = 4;
    o.max_chunks = 24;
    o.max_frames = 400;
    o.compressed_percent = 30;
    o.multiscale_percent = 25;
    o.chunk1_ok = false;
    Case c;
    uint64_t unit;
    const bool s3 = index % 3 == 0;
    do {
        c = gen_case(r, o);
        c.dims[0].array = 0;
        unit = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
    } while (unit > 12 || c.frame_bytes() > 2000);
    const uint64_t unit2 = c.multiscale ? unit * 4 : unit; // all levels settle
    const uint64_t early = 10, late = args.thorough() ? 600 : 120;
    c.pattern = c.multiscale ? 5 : 0;
    rep.sample = case_json(c);
    TempDir td(args, index);
    svc_reset();
    svc().set_lite(true);
    auto layer = stream_bytes(c, unit2);
    const size_t piece = r.chance(50) ? c.frame_bytes() : layer.size();
    LogCapture cap;
    prt::count_threads(true);
    S3Opts so;
    auto* s = create(c, s3 ? "s.zarr" : td / "s.zarr", s3 ? &so : nullptr);
    if (!s) {
        rep.bad("create.failed", cap.err().substr(0, 300));
        return;
    }
    struct Look
    {
        int64_t live = INT64_MAX, peak = 0;
        size_t fds = SIZE_MAX;
        int64_t threads = INT64_MAX;
    } a, b;
    bool ok = true;
    for (uint64_t k = 0; ok && k < late; ++k) {
        if (k == early || k == late - 10) {
            mem::reset_peak();
        }
        for (size_t off = 0; ok && off < layer.size(); off += piece) {
            size_t out = 0;
            ok = ZarrStream_append(s, layer.data() + off, piece, &out) == ZarrStatusCode_Success && out == piece;
        }
        Look* l = k >= early && k < early + 10 ? &a : k >= late - 10 ? &b : nullptr;
        if (l) {
            l->live = std::min(l->live, mem::live());
            l->peak = std::max(l->peak, mem::peak());
            l->fds = std::min(l->fds, descriptors());
            l->threads = std::min(l->threads, prt::running_threads());
            rep.count("samples");
        }
        rep.count("layers");
    }
    if (!ok) {
        rep.bad("append.failed", "an append of a long stream failed: " + cap.err().substr(0, 300));
    } else {
        const int64_t layers = (int64_t)(late - early - 10);
        // less than 16 bytes for each layer is noise
        if (b.live - a.live > 16 * layers) {
            rep.bad("resources.growth", "the stream held " + std::to_string(a.live) + " bytes after " + std::to_string(early) + " layers and " + std::to_string(b.live) +
                                          " after " + std::to_string(late) + (s3 ? " (S3)" : ""));
        }
        if (b.peak > 2 * a.peak + (256 << 10)) {
            rep.bad("resources.growth", "at most " + std::to_string(a.peak) + " bytes around layer " + std::to_string(early) + ", " + std::to_string(b.peak) + " around layer " +
                                          std::to_string(late));
        }
        if (b.fds > a.fds) {
            rep.bad("resources.descriptors", std::to_string(a.fds) + " descriptors after " + std::to_string(early) + " layers, " + std::to_string(b.fds) + " after " + std::to_string(late));
        }
        if (b.threads > a.threads) {
            rep.bad("resources.threads", std::to_string(a.threads) + " threads after " + std::to_string(early) + " layers, " + std::to_string(b.threads) + " after " + std::to_string(late));
        }
    }
    ZarrStream_destroy(s);
    if (prt::running_threads() != 0) {
        rep.bad("resources.threads", std::to_string(prt::running_threads()) + " threads are still running");
    }
    prt::count_threads(false);
    rep.count("long_streams");
    svc_reset();
    rep.sigs.push_back(std::string("bounded ") + (s3 ? "s3 " : "fs ") + signature(c));
}
