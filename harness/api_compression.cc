// Compression must be transparent, and be the compression that was asked for.
#include "drive.hh"
#include "reg.hh"
#include <dlfcn.h>
using namespace hx;

// ------------------------------------------------------------------------------- failing compressions, on request
namespace {
std::atomic<bool> armed{ false };
std::atomic<uint64_t> calls{ 0 }, failed{ 0 }, first{ 0 }, many{ 0 };
std::atomic<int> result{ 0 };
} // namespace
extern "C" int
blosc_compress_ctx(int clevel, int doshuffle, size_t typesize, size_t nbytes, const void* src, void* dest, size_t destsize,
                   const char* compressor, size_t blocksize, int numinternalthreads)
{
    static auto real = reinterpret_cast<decltype(&blosc_compress_ctx)>(dlsym(RTLD_NEXT, "blosc_compress_ctx"));
    if (armed) {
        const auto k = calls++;
        if (k >= first && k - first < many) {
            ++failed;
            if (result > 0) { // a reply that is positive but shorter than the header
                memset(dest, 0, (size_t)std::min<size_t>(destsize, 16));
            }
            return result;
        }
    }
    return real(clevel, doshuffle, typesize, nbytes, src, dest, destsize, compressor, blocksize, numinternalthreads);
}

namespace {
int
reference(int level, int shuffle, size_t typesize, const std::string& raw, std::string& out, const char* codec, int threads = 1)
{
    out.resize(raw.size() + BLOSC_MAX_OVERHEAD);
    int n = blosc_compress_ctx(level, shuffle, typesize, raw.size(), raw.data(), out.data(), out.size(), codec, 0, threads);
    out.resize(n > 0 ? n : 0);
    return n;
}

// every stored chunk of one array, as stored
std::map<std::string, std::string>
stored_chunks(const Store& st, int version, int lod, const Array& a)
{
    std::map<std::string, std::string> out;
    const auto L = std::to_string(lod);
    for (auto& k : a.used_keys) {
        if (k.size() > 5 && (k.substr(k.size() - 5) == ".json" || k.substr(k.size() - 7) == ".zarray")) {
            continue;
        }
        const auto& v = st.at(k);
        if (version == 2) {
            out[k] = v;
            continue;
        }
        uint64_t slots = 1;
        for (auto n : a.cps) {
            slots *= n;
        }
        if (v.size() < 16 * slots) {
            continue;
        }
        std::vector<uint64_t> idx(2 * slots);
        memcpy(idx.data(), v.data() + v.size() - 16 * slots, 16 * slots);
        for (uint64_t s = 0; s < slots; ++s) {
            const auto off = idx[2 * s], len = idx[2 * s + 1];
            if (off == ~0ull && len == ~0ull) {
                continue;
            }
            if (off <= v.size() && len <= v.size() - off) {
                out[k + " slot " + std::to_string(s)] = v.substr(off, len);
            }
        }
    }
    return out;
}

int
levels_of(const Store& st, int version)
{
    int n = 0;
    while (st.count(version == 2 ? std::to_string(n) + "/.zarray" : "meta/root/" + std::to_string(n) + ".array.json")) {
        ++n;
    }
    return n;
}

void
compare(const Case& c, const Store& plain, const Store& packed, CaseReport& rep)
{
    const int levels = levels_of(plain, c.version);
    if (levels_of(packed, c.version) != levels) {
        rep.bad("compression.levels", "the compressed store has another number of arrays");
        return;
    }
    const char* codec = c.codec == ZarrCompressionCodec_BloscLZ4 ? "lz4" : "zstd";
    for (int lod = 0; lod < levels; ++lod) {
        std::vector<Problem> pr;
        auto a = read_array(plain, c.version, lod, pr), b = read_array(packed, c.version, lod, pr);
        rep.add(pr, "level " + std::to_string(lod));
        if (!a || !b) {
            return;
        }
        if (a->compressed) {
            rep.bad("compression.metadata", "level " + std::to_string(lod) + " of the uncompressed store has a compressor");
        }
        if (!b->compressed || b->cname != codec || b->clevel != c.level || b->shuffle != c.shuffle) {
            rep.bad("compression.metadata", "level " + std::to_string(lod) + ": the compressor in the metadata is not the configured one: " + b->meta.dump());
        }
        auto raw = stored_chunks(plain, c.version, lod, *a), z = stored_chunks(packed, c.version, lod, *b);
        for (auto& [k, v] : z) {
            if (!raw.count(k)) {
                rep.bad("compression.extra-chunk", k + " exists only in the compressed store");
            }
        }
        for (auto& [k, want] : raw) {
            auto it = z.find(k);
            if (it == z.end()) {
                rep.bad("compression.missing-chunk", k + " is missing in the compressed store");
                continue;
            }
            const auto& got = it->second;
            size_t nbytes = 0, cbytes = 0, block = 0;
            if (got.size() < BLOSC_MIN_HEADER_LENGTH) {
                rep.bad("compression.header", k + " has " + std::to_string(got.size()) + " bytes");
                continue;
            }
            std::unique_ptr<char[]> copy(new char[got.size()]);
            memcpy(copy.get(), got.data(), got.size());
            blosc_cbuffer_sizes(copy.get(), &nbytes, &cbytes, &block);
            if (nbytes != want.size() || cbytes != got.size()) {
                rep.bad("compression.header", k + ": the header says " + std::to_string(nbytes) + " <- " + std::to_string(cbytes) + " bytes, the chunk is " +
                                                std::to_string(want.size()) + " <- " + std::to_string(got.size()));
                continue;
            }
            std::string back(nbytes, '\x5a');
            if (blosc_decompress_ctx(copy.get(), back.data(), nbytes, 1) != (int)nbytes || back != want) {
                rep.bad("compression.data", k + " does not decompress to the bytes of the uncompressed store");
                continue;
            }
            rep.count("chunks_decompressed");
            rep.count("raw_bytes", nbytes);
            rep.count("stored_bytes", cbytes);
            std::string ref;
            if (reference(c.level, c.shuffle, c.itemsize(), want, ref, codec) <= 0) {
                continue;
            }
            // shuffle bits and codec format; a chunk kept as it was (memcpy) says nothing about the codec
            const unsigned f = (uint8_t)got[2], g = (uint8_t)ref[2];
            if ((f & 0x2) != (g & 0x2)) {
                rep.count("kept_raw_differently");
            }
            if ((f & 0x05) != (g & 0x05)) {
                rep.bad("compression.shuffle", k + ": header flags " + std::to_string(f) + ", shuffle mode " + std::to_string(c.shuffle) + " gives " + std::to_string(g));
            }
            if ((f & 0xe0) != (g & 0xe0)) {
                rep.bad("compression.codec", k + ": header flags " + std::to_string(f) + ", codec " + codec + " gives " + std::to_string(g));
            }
            if (got[3] != ref[3]) {
                rep.bad("compression.typesize", k + ": element size " + std::to_string((uint8_t)got[3]) + ", expected " + std::to_string((uint8_t)ref[3]));
            }
            if (got == ref) {
                rep.count("chunks_as_reference");
            } else {
                // the same as some other setting would give is a wrong setting; anything else is a free choice (block size, threads)
                for (int l = 0; l <= 9; ++l) {
                    std::string other;
                    if (l != c.level && reference(l, c.shuffle, c.itemsize(), want, other, codec) > 0 && other == got) {
                        rep.bad("compression.level", k + " is what level " + std::to_string(l) + " gives, not level " + std::to_string(c.level));
                        break;
                    }
                }
            }
        }
    }
}

Case
gen(Rng& r, uint64_t index, bool big)
{
    GenOpts o;
    o.compressed_percent = 0;
    o.max_dims = 4;
    o.multiscale_percent = index % 5 == 0 ? 100 : 0;
    o.chunk1_ok = o.multiscale_percent == 0;
    if (big) {
        o.max_yx = 420;
        o.max_chunk_mem = 6 << 20;
        o.max_stream = 6 << 20;
        o.max_chunks = 30;
    }
    Case c;
    do {
        c = gen_case(r, o);
    } while (c.frames == 0 || (big && c.frame_bytes() < 60000));
    if (c.multiscale) {
        if (index % 15 == 0) {
            deepen(c);
        }
        c.pattern = 5;
    } else if (r.chance(20)) {
        c.pattern = 4;
    }
    return c;
}
} // namespace

// One stream with and without compression; the settings walk through the whole product.
HX_CASE(compression)
{
    const bool big = index % 10 == 3;
    Case c = gen(r, index, big);
    // 600 combinations of codec, level, shuffle and type, visited in an order of the seed's choosing
    const uint64_t k = (index * 7 + args.seed * 131) % 600;
    c.codec = 1 + (int)(k % 2);
    c.level = (int)(k / 2 % 10);
    c.shuffle = (int)(k / 20 % 3);
    c.compressor = ZarrCompressor_Blosc1;
    const auto t = (ZarrDataType)(k / 60);
    if (t != c.dtype) {
        // keep the stream within its bounds
        const size_t was = c.itemsize();
        c.dtype = t;
        if (c.itemsize() > was) {
            c.frames = std::max<uint64_t>(1, c.frames * was / c.itemsize());
        }
    }
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    const bool constant = r.chance(10);
    if (constant) {
        const uint8_t v = (uint8_t)r.pick({ 0, 0, 1, 255 });
        std::fill(data.begin(), data.end(), v);
    }
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), 2);
    Case plain = c;
    plain.compressed = false;
    c.compressed = true;
    rep.sample = case_json(c);
    rep.sample["constant"] = constant;
    auto a = stream_to_dir(plain, td / "plain.zarr", data, cuts, rep, "uncompressed store");
    auto b = stream_to_dir(c, td / "packed.zarr", data, cuts, rep, "compressed store");
    if (!a.ok || !b.ok) {
        return;
    }
    compare(c, a.store, b.store, rep);
    if (!constant) {
        verify(c, b.store, rep, "compressed store");
    }
    rep.count("streams", 2);
    rep.count("settings_tried");
    rep.sigs.push_back("z" + std::to_string(c.codec) + std::to_string(c.level) + std::to_string(c.shuffle) + " t" + std::to_string(c.dtype) + " p" +
                       std::to_string(constant ? 9 : c.pattern) + " v" + std::to_string(c.version) + (big ? " big" : "") + (c.multiscale ? " ms" : ""));

    // compressor None: the other fields do not matter
    Case none = c;
    none.compressor = ZarrCompressor_None;
    none.codec = (int)r.range(0, 2);
    none.level = (int)r.range(0, 9);
    none.shuffle = (int)r.range(0, 2);
    auto n = stream_to_dir(none, td / "none.zarr", data, cuts, rep, "store with compressor None");
    if (!n.ok) {
        return;
    }
    rep.count("none_streams");
    for (auto& [key, v] : a.store) {
        auto it = n.store.find(key);
        if (it == n.store.end() || it->second != v) {
            rep.bad("compression.none", key + (it == n.store.end() ? " is missing" : " differs") + " with compressor None, codec " + std::to_string(none.codec) +
                                          ", level " + std::to_string(none.level) + ", shuffle " + std::to_string(none.shuffle));
            break;
        }
    }
    for (auto& [key, v] : n.store) {
        if (!a.store.count(key)) {
            rep.bad("compression.none", key + " exists only with compressor None");
            break;
        }
    }
}

// A compression that fails must be reported, or leave no trace.
HX_CASE(compression_fails)
{
    Case c = gen(r, index + 1, false);
    c.compressed = true;
    c.compressor = ZarrCompressor_Blosc1;
    c.codec = (int)r.range(1, 2);
    c.level = (int)r.range(0, 9);
    c.shuffle = (int)r.range(0, 2);
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), 0);
    LogCapture cap;
    auto* s = create(c, td / "s.zarr");
    if (!s) {
        rep.bad("create.failed", "ZarrStream_create returned NULL for valid settings: " + cap.err().substr(0, 300));
        return;
    }
    calls = 0;
    failed = 0;
    first = r.chance(50) ? r.range(0, 3) : r.range(0, 60);
    many = r.chance(60) ? 1 : r.chance(50) ? 3 : ~0ull >> 1;
    result = r.pick({ 0, -1 });
    armed = true;
    bool reported = false;
    uint64_t acked = 0;
    size_t off = 0;
    for (auto n : cuts) {
        size_t out = 0;
        if (ZarrStream_append(s, data.data() + off, n, &out) != ZarrStatusCode_Success) {
            reported = true;
            break;
        }
        acked += out;
        off += n;
    }
    if (reported) {
        rep.count("reported_by_append");
    }
    ZarrStream_destroy(s);
    armed = false;
    rep.count("compressions", calls);
    rep.count("failed_compressions", failed);
    if (!reported && !cap.err().empty()) {
        reported = true;
        rep.count("reported_by_log");
    }
    rep.sigs.push_back("fails v" + std::to_string(c.version) + " n" + std::to_string(std::min<uint64_t>(many, 4)) + " r" + std::to_string(result) +
                       (failed ? reported ? " reported" : " silent" : " none"));
    auto st = load_dir(td / "s.zarr");
    if (!reported) {
        verify(c, st, rep, failed ? "a compression failed and nothing was reported" : "no compression failed");
    } else if (!failed) {
        rep.bad("append.failed", "reported a failure although none was injected: " + cap.err().substr(0, 300));
    } else {
        // what was acknowledged before is still good
        std::vector<Problem> pr;
        check_prefix(c, st, std::min(durable_frames(c, acked / c.frame_bytes()), acked / c.frame_bytes()), pr);
        for (auto& p : pr) {
            p.key = "compression." + p.key;
        }
        rep.add(pr, "after a failed compression");
        // and no chunk is stored that cannot be decompressed
        for (int lod = 0; lod < levels_of(st, c.version); ++lod) {
            std::vector<Problem> p2;
            read_array(st, c.version, lod, p2);
            for (auto& p : p2) {
                if (p.key == "chunk.undecodable") {
                    rep.bad("compression.undecodable", "after a reported failure: " + p.msg);
                }
            }
        }
    }
}
