// Memory that cannot be had: allocations of buffers that fail, and settings that ask for more than there is.
#include "drive.hh"
#include "memfault.hh"
#include "reg.hh"
#include "s3common.hh"
#include <malloc.h>
using namespace hx;

namespace {
bool
known(ZarrStatusCode c)
{
    return (int)c >= 0 && c < ZarrStatusCodeCount;
}
} // namespace

// The k-th allocation of buffer size fails, or all from there on.
HX_CASE(no_memory)
{
    GenOpts o;
    o.max_yx = 60;
    o.max_dims = 4;
    o.max_chunks = 16;
    o.max_chunk_mem = 1 << 20;
    o.max_stream = 600 << 10;
    o.max_frames = 60;
    o.compressed_percent = 40;
    o.multiscale_percent = 30;
    Case c;
    do {
        c = gen_case(r, o);
    } while (c.frames == 0);
    const bool s3 = r.chance(25);
    TempDir td(args, index);
    S3Opts so;
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.pick({ 0, 1, 2, 3 }));
    const size_t min_bytes = r.pick<size_t>({ 2048, 4096, 16384 });
    auto stream = [&](const std::string& path, CaseReport& rp, bool& created, bool& failed, uint64_t& acked, std::string& log) {
        LogCapture cap;
        svc_reset();
        auto* s = create(c, path, s3 ? &so : nullptr);
        created = s != nullptr;
        if (s) {
            size_t off = 0, fails = 0;
            for (auto n : cuts) {
                size_t out = 0;
                auto code = ZarrStream_append(s, data.data() + off, n, &out);
                if (!known(code)) {
                    rp.bad("memory.status", "append returned " + std::to_string(code));
                }
                if (code != ZarrStatusCode_Success) {
                    failed = true;
                    if (++fails > 3) {
                        break;
                    }
                } else if (!failed) {
                    acked += out;
                }
                off += n;
            }
            ZarrStream_destroy(s);
        }
        mem::disarm();
        log = cap.err();
    };
    auto load = [&](const std::string& path) { return s3 ? strip_prefix(svc().objects("az-bucket"), path) : load_dir(path); };
    bool created = false, failed = false;
    uint64_t acked = 0;
    std::string log;
    // how many such allocations are there?
    mem::arm(min_bytes, UINT64_MAX, 0);
    stream(s3 ? "ref" : td / "ref", rep, created, failed, acked, log);
    const auto total = mem::seen();
    const auto want = load(s3 ? "ref" : td / "ref");
    if (!created || failed) {
        rep.bad("memory.reference", "the stream fails with all the memory there is: " + log.substr(0, 300));
        return;
    }
    if (total == 0) {
        rep.count("nothing_to_refuse");
        return;
    }
    const uint64_t at = r.next() % total, many = r.chance(40) ? 1 : r.chance(30) ? r.range(2, 6) : UINT64_MAX;
    rep.sample = { { "case", case_json(c) }, { "s3", s3 }, { "min_bytes", min_bytes }, { "at", at }, { "of", total }, { "many", many == UINT64_MAX ? -1 : (int)many } };
    created = failed = false;
    acked = 0;
    const auto path = s3 ? std::string("run") : td / "run";
    mem::arm(min_bytes, at, many);
    stream(path, rep, created, failed, acked, log);
    rep.count("allocations_refused", mem::refused());
    rep.count(!created ? "reported_by_create" : failed ? "reported_by_append" : !log.empty() ? "reported_by_log" : "survived");
    if (created && !failed && log.empty() && load(path) != want) {
        rep.bad("memory.silent", "memory could not be had, nothing was reported, and the store differs");
    }
    if (svc().live_clients() != 0) {
        rep.bad("memory.connections", "connections are still open");
    }
    rep.sigs.push_back(std::to_string(c.version) + (s3 ? "s3" : "fs") + (c.compressed ? "z" : "") + (c.multiscale ? "m" : "") + (!created ? "C" : failed ? "A" : log.empty() ? "-" : "L") +
                       std::to_string(std::min<uint64_t>(at, 40)) + (many == 1 ? "o" : "m"));
}

// Settings asking for more than the process may have (the address space is limited by the caller).
HX_CASE(impossible)
{
    svc_reset();
    TempDir td(args, index);
    LogCapture cap;
    Case c;
    c.seed = r.next();
    c.version = r.pick({ 2, 3 });
    c.dtype = (ZarrDataType)r.range(0, ZarrDataTypeCount - 1);
    const int nd = (int)r.range(3, 6);
    for (int i = 0; i < nd; ++i) {
        Dim d{ std::string(1, (char)('a' + i)), i >= nd - 2 ? ZarrDimensionType_Space : ZarrDimensionType_Other, i ? 2u : 0u, 1, 1 };
        c.dims.push_back(d);
    }
    c.multiscale = r.chance(20);
    c.compressed = r.chance(20);
    const bool s3 = r.chance(20);
    const uint32_t big = r.pick({ 0x80000000u, 0xffffffffu, 0x40000000u, 0x10000u, 0x20000u, 0x1000000u });
    const int kind = (int)r.range(0, 3);
    double need = 0;
    bool small_frame = true;
    for (int tries = 0;; ++tries) {
        for (auto& d : c.dims) {
            d.chunk = 1;
            d.shard = 1;
        }
        for (int i = 1; i < nd; ++i) {
            c.dims[i].array = 2;
        }
        double chunk = (double)c.itemsize(), chunks = 1, slots = 1;
        const int n_big = (int)r.range(1, nd);
        if (kind == 0) {
            // huge chunks
            for (int k = 0; k < n_big; ++k) {
                c.dims[r.next() % nd].chunk = tries > 20 ? 0x80000000u : big;
            }
        } else if (kind == 1) {
            // a huge number of chunks; the frame stays small
            for (int k = 0; k < n_big; ++k) {
                if (nd > 3) {
                    c.dims[r.range(1, nd - 3)].array = tries > 20 ? 0x80000000u : big;
                }
            }
        } else if (kind == 2) {
            // huge frames
            c.dims[r.range(nd - 2, nd - 1)].array = big;
            if (r.chance(70)) {
                c.dims[nd - 1].array = c.dims[nd - 2].array = big;
            }
            c.dims[nd - 1].chunk = r.pick({ 1u, big });
            c.dims[nd - 2].chunk = r.pick({ 1u, big });
            small_frame = false;
        } else {
            // huge shards
            c.version = 3;
            for (int k = 0; k < n_big; ++k) {
                c.dims[r.next() % nd].shard = tries > 20 ? 0x80000000u : big;
            }
        }
        for (int i = 0; i < nd; ++i) {
            chunk *= c.dims[i].chunk;
            chunks *= i ? std::ceil((double)c.dims[i].array / c.dims[i].chunk) : 1;
            slots *= c.dims[i].shard;
        }
        need = std::max(chunk * chunks, kind == 3 ? slots * 16 : chunks * 8);
        if (need > 1e12) {
            break;
        }
        if (tries > 60) {
            return;
        }
    }
    rep.sample = { { "kind", kind }, { "needs", need }, { "case", case_json(c) }, { "s3", s3 } };
    S3Opts so;
    auto* s = create(c, s3 ? "p/s" : td / "s.zarr", s3 ? &so : nullptr);
    rep.count(s ? "created" : "reported_by_create");
    if (s) {
        Bytes frame(small_frame ? c.frame_bytes() * 2 : 100000, 3);
        size_t out = 0;
        const auto code = ZarrStream_append(s, frame.data(), frame.size(), &out);
        if (!known(code)) {
            rep.bad("memory.status", "append returned " + std::to_string(code));
        }
        if (small_frame && code == ZarrStatusCode_Success && kind != 3) {
            rep.bad("memory.accepted", "frames were accepted although their chunks need " + std::to_string(need) + " bytes");
        }
        rep.count(code == ZarrStatusCode_Success ? "append_succeeded" : "reported_by_append");
        if (code != ZarrStatusCode_Success && ZarrStream_append(s, frame.data(), frame.size(), &out) == ZarrStatusCode_Success && small_frame) {
            rep.bad("memory.accepted", "frames were accepted after a failure although their chunks need " + std::to_string(need) + " bytes");
        }
        ZarrStream_destroy(s);
        if (small_frame && code == ZarrStatusCode_Success && kind == 3 && cap.err().empty()) {
            // fine only if what is there is right, which it cannot be
            rep.bad("memory.silent", "shard indexes of " + std::to_string(need) + " bytes cannot have been written, but nothing was reported");
        }
    }
    if (malloc_trim(0), mem::live() > (1 << 28)) {
        rep.bad("memory.kept", std::to_string(mem::live()) + " bytes are still held after the failure");
    }
    rep.sigs.push_back(std::to_string(kind) + std::to_string(nd) + std::to_string(c.version) + (c.multiscale ? "m" : "") + (c.compressed ? "z" : "") + (s3 ? "s" : "") + std::to_string(big) + (s ? "c" : "n"));
}

// Metadata and names of any size and depth.
HX_CASE(deep)
{
    svc_reset();
    TempDir td(args, index);
    LogCapture cap;
    Case c;
    c.seed = r.next();
    c.version = r.pick({ 2, 3 });
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1, 1 }, { "y", ZarrDimensionType_Space, 2, 2, 1 }, { "x", ZarrDimensionType_Space, 2, 2, 1 } };
    c.frames = 1;
    const size_t n = r.pick<size_t>({ 10, 500, 1000, 20000, 1000000 });
    const int kind = n == 20000 ? (int)r.range(0, 1) : n > 20000 ? (int)r.range(2, 3) : (int)r.range(0, 3);
    c.has_custom = kind != 3;
    switch (kind) {
        case 0: c.custom = std::string(n, '[') + std::string(n, ']'); break;
        case 1:
            for (size_t i = 0; i < n; ++i) {
                c.custom += "{\"a\":";
            }
            c.custom += "1" + std::string(n, '}');
            break;
        case 2: c.custom = "\"" + std::string(n, 'x') + "\""; break;
        default: c.dims[0].name = std::string(n, 'n'); break;
    }
    rep.sample = { { "kind", kind }, { "size", n } };
    auto* s = create(c, td / "s.zarr");
    rep.count(s ? "created" : "refused");
    if (s) {
        Bytes f(c.frame_bytes(), 1);
        size_t out = 0;
        auto code = ZarrStream_append(s, f.data(), f.size(), &out);
        ZarrStream_destroy(s);
        if (code != ZarrStatusCode_Success || !cap.err().empty()) {
            rep.bad("deep.failed", "a stream with large metadata failed: " + cap.err().substr(0, 300));
        } else {
            auto st = load_dir(td / "s.zarr");
            if (kind < 3) {
                auto& doc = c.version == 2 ? st["acquire.json"] : st["meta/acquire.json"];
                doc.erase(std::remove_if(doc.begin(), doc.end(), [](char ch) { return ch == ' ' || ch == '\n'; }), doc.end());
                if (doc != c.custom) {
                    rep.bad("deep.metadata", "custom metadata of size " + std::to_string(c.custom.size()) + " did not survive");
                }
            }
        }
    } else if (kind >= 2 || n <= 1000) {
        rep.bad("deep.refused", "refused: " + cap.err().substr(0, 300));
    }
    rep.sigs.push_back(std::to_string(kind) + "/" + std::to_string(n) + "/" + std::to_string(c.version));
}
