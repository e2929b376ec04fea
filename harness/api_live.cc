// What an append that returned success has put on disk: seen by a reader while the stream is open, and after SIGKILL.
#include "drive.hh"
#include "reg.hh"
#include <csignal>
using namespace hx;

namespace {
GenOpts
small(Rng& r)
{
    GenOpts o;
    o.max_yx = 10;
    o.max_dims = 5;
    o.max_chunks = 60;
    o.max_stream = 256 << 10;
    o.max_frames = 60;
    o.compressed_percent = 25;
    return o;
}

// frames level k holds once n frames of level 0 have been appended, and those of them that must be on disk
uint64_t
level_frames(uint64_t n, int k)
{
    return n >> k;
}

struct Snapshot
{
    int lod;
    uint64_t frames;
    Bytes data; // the durable prefix, as a reader saw it
    uint64_t at;
};

// One reader's visit after n acknowledged frames.
void
visit(const Case& c, const std::string& path, uint64_t n, int levels, CaseReport& rep, const std::string& ctx, std::vector<Snapshot>* snaps)
{
    auto st = load_dir(path);
    std::vector<Problem> pr;
    check_group_docs(st, c.version, pr);
    check_prefix(c, st, durable_frames(c, n), pr);
    rep.count("reader_visits");
    rep.count("durable_frames_checked", durable_frames(c, n));
    const uint64_t layer = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
    for (int k = 1; k < levels; ++k) {
        if (level_frames(n, k) < layer) {
            continue;
        }
        auto a = read_array(st, c.version, k, pr);
        if (!a) {
            continue;
        }
        // a level's chunks are clamped to its array, so its layers may be thinner than those of level 0
        const uint64_t mine = a->chunks[0] * (c.version == 3 ? a->cps[0] : 1);
        const uint64_t f = level_frames(n, k) / mine * mine;
        if (a->shape[0] * c.inner() < f) {
            pr.push_back({ "prefix.level-shape", "level " + std::to_string(k) + " has shape " + json(a->shape).dump() + ", " +
                                                   std::to_string(f) + " of its frames are complete" });
        } else if (snaps && a->shape[0] > 0) {
            const size_t fb = a->data.size() / (a->shape[0] * c.inner());
            snaps->push_back({ k, f, Bytes(a->data.begin(), a->data.begin() + f * fb), n });
            rep.count("level_prefixes_seen");
        }
    }
    rep.add(pr, ctx);
}
} // namespace

HX_CASE(live)
{
    auto o = small(r);
    const bool ms = index % 4 == 3;
    if (ms) {
        o.min_dims = o.max_dims = 3;
        o.multiscale_percent = 100;
    }
    Case c;
    uint64_t layer;
    do {
        c = gen_case(r, o);
        layer = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
    } while (layer > 24 || (ms && layer > 6));
    if (ms) {
        if (index % 16 == 3) {
            deepen(c);
            layer = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
        }
        c.pattern = 5;
    }
    c.frames = std::min<uint64_t>(ms ? 8 * layer + 3 : 3 * layer + 2, 64);
    const size_t fb = c.frame_bytes();
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto path = td / "s.zarr";
    LogCapture cap;
    auto* s = create(c, path);
    if (!s) {
        rep.bad("create.failed", cap.err().substr(0, 300));
        return;
    }
    visit(c, path, 0, 0, rep, "after create", nullptr);
    int levels = 0; // how many levels the stream has, from its own metadata
    {
        auto st = load_dir(path);
        std::vector<Problem> pr;
        auto j = parse_doc(st, c.version == 2 ? ".zattrs" : "meta/root.group.json", pr, "group-doc");
        try {
            const auto& at = c.version == 2 ? *j : j->at("attributes");
            levels = (int)at.at("multiscales").at(0).at("datasets").size();
        } catch (...) {
            levels = 1;
        }
    }
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), fb, (int)(index % 4 == 0 ? 0 : r.range(0, 6)));
    size_t off = 0;
    uint64_t seen = 0;
    bool fine = true;
    std::vector<Snapshot> snaps;
    for (auto n : cuts) {
        size_t out = 0;
        if (ZarrStream_append(s, data.data() + off, n, &out) != ZarrStatusCode_Success || out != n) {
            rep.bad("append.failed", "append of " + std::to_string(n) + " bytes failed: " + cap.err().substr(0, 300));
            fine = false;
            break;
        }
        off += n;
        const uint64_t acked = off / fb;
        if (acked / layer != seen / layer || r.chance(10)) {
            visit(c, path, acked, levels, rep, "after " + std::to_string(acked) + " acknowledged frames", ms ? &snaps : nullptr);
        }
        seen = acked;
        if (rep.viol.size() > 5) {
            break;
        }
    }
    ZarrStream_destroy(s);
    rep.count("streams");
    rep.sigs.push_back(signature(c));
    if (fine && rep.viol.empty() && !snaps.empty()) {
        auto st = load_dir(path);
        std::map<int, Array> finals;
        for (auto& sn : snaps) {
            if (!finals.count(sn.lod)) {
                std::vector<Problem> pr;
                auto a = read_array(st, c.version, sn.lod, pr);
                rep.add(pr, "finished store");
                if (!a) {
                    return;
                }
                finals[sn.lod] = std::move(*a);
            }
            auto& a = finals[sn.lod];
            if (a.data.size() < sn.data.size() || memcmp(a.data.data(), sn.data.data(), sn.data.size())) {
                rep.bad("prefix.level-data", "level " + std::to_string(sn.lod) + ": the first " + std::to_string(sn.frames) +
                                               " frames, seen after " + std::to_string(sn.at) +
                                               " frames were acknowledged, are not those of the finished store");
            }
        }
    }
}

// The writer is a child process that reports every acknowledged append through a pipe and is killed at a random moment.
HX_CASE(sigkill)
{
    auto o = small(r);
    o.max_frames = 400;
    Case c;
    uint64_t layer;
    do {
        c = gen_case(r, o);
        layer = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
    } while (layer > 12);
    c.frames = 40 * layer;
    c.has_custom = false;
    const size_t fb = c.frame_bytes();
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto path = td / "s.zarr";
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), fb, (int)r.range(0, 3) == 1 ? 2 : (int)r.range(2, 4));
    int p[2];
    if (pipe(p)) {
        rep.inconclusive = "pipe failed";
        return;
    }
    const bool by_time = r.chance(50);
    const uint64_t kill_after_us = r.range(0, 30000);
    const uint64_t kill_after_acks = r.range(0, cuts.size());
    rep.sample["kill"] = by_time ? "after " + std::to_string(kill_after_us) + " us" : "after " + std::to_string(kill_after_acks) + " acks";
    pid_t pid = fork();
    if (pid == 0) {
        ::close(p[0]);
        int nul = ::open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        auto* s = create(c, path);
        if (!s) {
            _exit(3);
        }
        uint64_t off = 0;
        if (::write(p[1], &off, sizeof off) != sizeof off) {
            _exit(4);
        }
        for (auto n : cuts) {
            size_t out = 0;
            if (ZarrStream_append(s, data.data() + off, n, &out) != ZarrStatusCode_Success) {
                _exit(5);
            }
            off += n;
            if (::write(p[1], &off, sizeof off) != sizeof off) {
                _exit(4);
            }
        }
        pause();
        _exit(0);
    }
    ::close(p[1]);
    uint64_t acked = 0, acks = 0, v;
    bool created = false;
    auto take = [&]() {
        ssize_t n = ::read(p[0], &v, sizeof v);
        if (n != sizeof v) {
            return false;
        }
        acked = v;
        acks += created;
        created = true;
        return true;
    };
    bool open = take();
    if (by_time) {
        usleep(kill_after_us);
    } else {
        while (open && acks < kill_after_acks) {
            open = take();
        }
    }
    ::kill(pid, SIGKILL);
    while (open && take()) {
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ::close(p[0]);
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL) {
        rep.bad("writer.failed", "the writer ended by itself with status " + std::to_string(st));
        return;
    }
    if (!created) {
        return;
    }
    visit(c, path, acked / fb, 0, rep, "killed after " + std::to_string(acked / fb) + " acknowledged frames", nullptr);
    rep.count("kills");
    rep.count(acks == cuts.size() ? "killed_idle" : "killed_mid_stream");
    rep.sigs.push_back((by_time ? "time " : "acks ") + std::to_string(std::min<uint64_t>(acked / fb / layer, 40)) + " " + signature(c));
}
