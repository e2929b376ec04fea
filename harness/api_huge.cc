// Frames, chunks, shards, appends and streams whose sizes and counts exceed 2^31, 2^32 or 2^16. Their pixels come from one small tile
// mapped again and again, and are compared with it piece by piece in the mapped files: no second copy of the data exists.
#include "drive.hh"
#include "reg.hh"
#include "s3common.hh"
#include "sink.creator.hh"
#include "vectorized.file.writer.hh"
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
using namespace hx;

namespace {
constexpr size_t tile_bytes = 4096 * 257; // does not divide powers of two: bytes that are 2^31 or 2^32 apart differ

// virtual bytes [0, n), byte i being tile[i % tile_bytes]
struct Pattern
{
    uint8_t* base = nullptr;
    size_t len = 0;
    std::vector<uint8_t> twice; // the tile, two times
    Pattern(size_t n, uint64_t seed, uint64_t mask = 0x0303030303030303ull)
    {
        len = (n + tile_bytes - 1) / tile_bytes * tile_bytes;
        int fd = memfd_create("tile", 0);
        if (fd < 0 || ftruncate(fd, tile_bytes)) {
            throw std::runtime_error("no tile");
        }
        base = (uint8_t*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (size_t o = 0; o < len; o += tile_bytes) {
            if (base == MAP_FAILED || mmap(base + o, tile_bytes, o ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) {
                throw std::runtime_error("cannot map the tile");
            }
        }
        close(fd);
        for (size_t i = 0; i < tile_bytes; i += 8) {
            const uint64_t v = mix(seed + i) & mask; // few random bits, so that it compresses
            memcpy(base + i, &v, 8);
        }
        mprotect(base, tile_bytes, PROT_READ);
        twice.assign(base, base + tile_bytes);
        twice.insert(twice.end(), base, base + tile_bytes);
    }
    ~Pattern()
    {
        if (base && base != MAP_FAILED) {
            munmap(base, len);
        }
    }
    // whether p[0, n) are the bytes from i on
    bool same(const uint8_t* p, uint64_t i, size_t n) const
    {
        while (n) {
            const size_t k = std::min(n, tile_bytes);
            if (memcmp(p, twice.data() + i % tile_bytes, k)) {
                return false;
            }
            p += k, i += k, n -= k;
        }
        return true;
    }
};

struct Mapped
{
    const uint8_t* p = nullptr;
    size_t n = 0;
    bool ok = false;
    explicit Mapped(const std::string& path)
    {
        int fd = open(path.c_str(), O_RDONLY);
        struct stat st;
        if (fd >= 0 && !fstat(fd, &st)) {
            n = (size_t)st.st_size;
            p = n ? (const uint8_t*)mmap(nullptr, n, PROT_READ, MAP_SHARED, fd, 0) : nullptr;
            ok = p != MAP_FAILED;
        }
        if (fd >= 0) {
            close(fd);
        }
    }
    ~Mapped()
    {
        if (p && p != MAP_FAILED) {
            munmap((void*)p, n);
        }
    }
};

bool
zeros(const uint8_t* p, size_t n)
{
    return n == 0 || (p[0] == 0 && memcmp(p, p + 1, n - 1) == 0);
}

// t, y, x only: every chunk of the store against the stream's bytes
void
compare(const Case& c, const std::string& root, const Pattern& pat, CaseReport& rep)
{
    const uint64_t T = c.frames, H = c.height(), W = c.width(), bpp = c.itemsize(), fb = c.frame_bytes();
    const uint64_t ct = c.dims[0].chunk, cy = c.dims[1].chunk, cx = c.dims[2].chunk;
    const uint64_t st = c.dims[0].shard, sy = c.dims[1].shard, sx = c.dims[2].shard;
    const size_t chunk_bytes = ct * cy * cx * bpp;
    auto meta = json::parse(read_file(root + (c.version == 2 ? "/0/.zarray" : "/meta/root/0.array.json")), nullptr, false);
    if (!meta.is_object() || meta.value("shape", json()) != json({ T, H, W })) {
        rep.bad("huge.shape", "the array's metadata is " + meta.dump().substr(0, 300) + ", " + std::to_string(T) + " frames were written");
        return;
    }
    Bytes buf;
    auto check = [&](uint64_t it, uint64_t iy, uint64_t ix, const uint8_t* p, uint64_t n, const std::string& where) {
        if (c.compressed) {
            buf.resize(chunk_bytes);
            const int got = blosc_decompress_ctx(p, buf.data(), buf.size(), 4);
            if (got < 0 || (size_t)got != chunk_bytes) {
                rep.bad("huge.undecodable", where + " does not decompress to a chunk");
                return;
            }
            p = buf.data(), n = chunk_bytes;
        }
        if (n != chunk_bytes) {
            rep.bad("huge.size", where + " has " + std::to_string(n) + " bytes instead of " + std::to_string(chunk_bytes));
            return;
        }
        for (uint64_t k = 0; k < ct; ++k) {
            const uint64_t t = it * ct + k;
            for (uint64_t j = 0; j < cy; ++j) {
                const uint64_t y = iy * cy + j, x0 = ix * cx;
                const uint8_t* row = p + ((k * cy + j) * cx) * bpp;
                const uint64_t w = t < T && y < H && x0 < W ? std::min(cx, W - x0) : 0;
                if (!pat.same(row, t * fb + (y * W + x0) * bpp, w * bpp) || !zeros(row + w * bpp, (cx - w) * bpp)) {
                    rep.bad("huge.data", where + ": row " + std::to_string(y) + " of frame " + std::to_string(t) + " differs");
                    return;
                }
            }
        }
        rep.count("chunks_compared");
        rep.count("bytes_compared", chunk_bytes);
    };
    const uint64_t nt = (T + ct - 1) / ct, ny = (H + cy - 1) / cy, nx = (W + cx - 1) / cx;
    if (c.version == 2) {
        for (uint64_t t = 0; t < nt; ++t) {
            for (uint64_t y = 0; y < ny; ++y) {
                for (uint64_t x = 0; x < nx && rep.viol.size() < 4; ++x) {
                    const auto key = "0/" + std::to_string(t) + "/" + std::to_string(y) + "/" + std::to_string(x);
                    Mapped m(root + "/" + key);
                    if (!m.ok) {
                        rep.bad("huge.missing", key + " is missing");
                    } else {
                        check(t, y, x, m.p, m.n, key);
                    }
                }
            }
        }
        return;
    }
    for (uint64_t t = 0; t < (nt + st - 1) / st; ++t) {
        for (uint64_t y = 0; y < (ny + sy - 1) / sy; ++y) {
            for (uint64_t x = 0; x < (nx + sx - 1) / sx && rep.viol.size() < 4; ++x) {
                const auto key = "data/root/0/c" + std::to_string(t) + "/" + std::to_string(y) + "/" + std::to_string(x);
                Mapped m(root + "/" + key);
                const uint64_t slots = st * sy * sx;
                if (!m.ok || m.n < slots * 16) {
                    rep.bad("huge.missing", key + " is missing or has no index");
                    continue;
                }
                const uint64_t end = m.n - slots * 16;
                for (uint64_t s = 0; s < slots && rep.viol.size() < 4; ++s) {
                    uint64_t e[2];
                    memcpy(e, m.p + end + 16 * s, 16);
                    const uint64_t it = t * st + s / (sy * sx), iy = y * sy + s / sx % sy, ix = x * sx + s % sx;
                    const bool inside = it < nt && iy < ny && ix < nx;
                    const auto where = key + " slot " + std::to_string(s);
                    if (!inside) {
                        continue;
                    }
                    if (e[0] > end || e[1] > end - e[0]) {
                        rep.bad("huge.index", where + " points to [" + std::to_string(e[0]) + ", +" + std::to_string(e[1]) + "), the data ends at " + std::to_string(end));
                        continue;
                    }
                    check(it, iy, ix, m.p + e[0], e[1], where);
                }
            }
        }
    }
}

bool
room(const Args& args, CaseReport& rep, double gb_disk, double gb_memory)
{
    struct statvfs v{};
    statvfs(args.scratch.c_str(), &v);
    std::ifstream mi("/proc/meminfo");
    double avail = 0;
    for (std::string w; mi >> w;) {
        if (w == "MemAvailable:") {
            mi >> avail;
            break;
        }
    }
    if ((double)v.f_bavail * v.f_frsize < gb_disk * 1.1e9 || avail * 1024 < (gb_disk + gb_memory) * 1.2e9) {
        rep.count("skipped_for_want_of_room");
        rep.sigs.push_back("skipped");
        return false;
    }
    return true;
}

Case
base_case(Rng& r, int version)
{
    Case c;
    c.seed = r.next();
    c.version = version;
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1, 1 }, { "y", ZarrDimensionType_Space, 1, 1, 1 }, { "x", ZarrDimensionType_Space, 1, 1, 1 } };
    return c;
}

void
set(Dim& d, uint64_t array, uint64_t chunk, uint64_t shard = 1)
{
    d.array = (uint32_t)array;
    d.chunk = (uint32_t)chunk;
    d.shard = (uint32_t)shard;
}

void
run(Case& c, const Args& args, uint64_t index, Rng& r, CaseReport& rep, const std::string& kind, bool one_call, double gb_disk, double gb_memory)
{
    rep.sample = case_json(c);
    rep.sample["kind"] = kind;
    if (!room(args, rep, gb_disk, gb_memory)) {
        return;
    }
    TempDir td(args, index);
    const auto root = td / "s.zarr";
    const uint64_t total = c.frames * c.frame_bytes();
    Pattern pat(total, c.seed);
    LogCapture cap;
    auto* s = create(c, root);
    if (!s) {
        rep.bad("huge.create", kind + ": " + cap.err().substr(0, 300));
        return;
    }
    std::vector<uint64_t> cuts;
    if (one_call) {
        const uint64_t head = r.chance(50) ? r.range(1, c.frame_bytes() + 10) : 0; // so that the big one begins within a frame
        if (head) {
            cuts.push_back(head);
        }
        cuts.push_back(total - head);
    } else {
        for (uint64_t f = 0; f < c.frames; ++f) {
            cuts.push_back(c.frame_bytes());
        }
    }
    uint64_t off = 0;
    for (auto n : cuts) {
        size_t out = 0;
        auto code = ZarrStream_append(s, pat.base + off, n, &out);
        if (code != ZarrStatusCode_Success || out != n) {
            rep.bad("huge.append", kind + ": appending " + std::to_string(n) + " bytes at " + std::to_string(off) + ": status " + std::to_string(code) + ", " +
                                     std::to_string(out) + " bytes taken; " + cap.err().substr(0, 300));
            break;
        }
        rep.count("bytes_appended", n);
        off += n;
    }
    ZarrStream_destroy(s);
    if (rep.viol.empty() && !cap.err().empty()) {
        rep.bad("huge.log", kind + ": " + cap.err().substr(0, 300));
    }
    if (rep.viol.empty()) {
        compare(c, root, pat, rep);
    }
    rep.count("streams");
    rep.sigs.push_back("huge " + kind + " v" + std::to_string(c.version) + "t" + std::to_string(c.dtype) + (c.compressed ? "z" : ""));
}

// ordinary streams with very many frames, layers or chunks
void
run_many(Case& c, const Args& args, uint64_t index, Rng& r, CaseReport& rep, const std::string& kind)
{
    rep.sample = case_json(c);
    rep.sample["kind"] = kind;
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto out = stream_to_dir(c, td / "s.zarr", data, gen_cuts(r, data.size(), c.frame_bytes(), r.chance(50) ? 2 : 1), rep, kind.c_str());
    if (out.ok) {
        verify(c, out.store, rep, kind.c_str());
        note(rep, c, out.store);
    }
    rep.count("streams");
    rep.sigs.push_back("many " + kind + " v" + std::to_string(c.version));
}

void
compress(Case& c, Rng& r)
{
    c.compressed = true;
    c.codec = 1;
    c.level = 1;
    c.shuffle = (int)r.range(0, 1);
}

// frames of one pixel, of which a layer takes more than 2^32; compressed, so that what is written is small
void
layer(Case& c, const Args& args, uint64_t index, Rng& r, CaseReport& rep)
{
    compress(c, r);
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1, 1 },   { "c", ZarrDimensionType_Channel, 1, 1, 1 }, { "z", ZarrDimensionType_Space, 1, 1, 1 },
               { "y", ZarrDimensionType_Space, 1, 1, 1 }, { "x", ZarrDimensionType_Space, 1, 1, 1 } };
    constexpr uint64_t nc = 65537, nz = 65536, cc = 128, n_chunks = (nc + cc - 1) / cc;
    set(c.dims[1], nc, cc, r.range(1, 600));
    set(c.dims[2], nz, nz, 1);
    c.frames = nz + r.range(1, 60000); // in 32 bits, a layer would have 65536 frames
    rep.sample = case_json(c);
    if (!room(args, rep, 1, 5)) {
        return;
    }
    TempDir td(args, index);
    const auto root = td / "s.zarr";
    Pattern pat(c.frames, c.seed);
    LogCapture cap;
    auto* s = create(c, root);
    size_t out = 0;
    if (!s || ZarrStream_append(s, pat.base, c.frames, &out) != ZarrStatusCode_Success || out != c.frames) {
        rep.bad("huge.layer", "creating or appending failed: " + cap.err().substr(0, 300));
    }
    ZarrStream_destroy(s);
    if (rep.viol.empty() && !cap.err().empty()) {
        rep.bad("huge.log", cap.err().substr(0, 300));
    }
    auto meta = json::parse(read_file(root + (c.version == 2 ? "/0/.zarray" : "/meta/root/0.array.json")), nullptr, false);
    if (!meta.is_object() || meta.value("shape", json()) != json({ 1, nc, nz, 1, 1 })) {
        rep.bad("huge.shape", "the array's metadata is " + meta.dump().substr(0, 300));
    }
    Bytes buf(cc * nz);
    const uint64_t shard = c.version == 2 ? 1 : c.dims[1].shard;
    for (uint64_t k = 0; k < n_chunks && rep.viol.empty(); ++k) {
        const auto key = c.version == 2 ? "0/0/" + std::to_string(k) + "/0/0/0" : "data/root/0/c0/" + std::to_string(k / shard) + "/0/0/0";
        Mapped m(root + "/" + key);
        uint64_t e[2] = { 0, m.n };
        if (c.version == 3 && m.ok && m.n >= 16 * shard) {
            memcpy(e, m.p + m.n - 16 * shard + 16 * (k % shard), 16);
        }
        if (!m.ok || e[0] > m.n || e[1] > m.n - e[0] || blosc_decompress_ctx(m.p + e[0], buf.data(), buf.size(), 4) != (int)buf.size()) {
            rep.bad("huge.undecodable", "chunk " + std::to_string(k) + " in " + key + " is missing or not a chunk");
            break;
        }
        const uint64_t first = k * buf.size(), n = first >= c.frames ? 0 : std::min<uint64_t>(buf.size(), c.frames - first);
        if (!pat.same(buf.data(), first, n) || !zeros(buf.data() + n, buf.size() - n)) {
            rep.bad("huge.data", "chunk " + std::to_string(k) + " differs from the frames appended");
        }
        rep.count("chunks_compared");
    }
    rep.count("streams");
    rep.sigs.push_back("layer of 2^32 frames v" + std::to_string(c.version));
}

void
huge(int version, const Args& args, uint64_t index, Rng& r, CaseReport& rep)
{
    Case c = base_case(r, version);
    switch (index % 6) {
        case 0: { // a frame of more than 2^31 bytes, in one chunk
            c.dtype = r.pick({ ZarrDataType_uint8, ZarrDataType_uint16 });
            const uint64_t side = c.dtype == ZarrDataType_uint8 ? 46342 + r.range(0, 30) : 32770 + r.range(0, 30);
            set(c.dims[1], side, side);
            set(c.dims[2], side + r.range(0, 3), side + r.range(3, 9));
            c.frames = 1;
            run(c, args, index, r, rep, "chunk beyond 2 GiB", false, 2.4, 2.6);
            break;
        }
        case 1: { // a frame of more than 2^32 bytes, in many compressed chunks
            compress(c, r);
            c.dtype = r.pick({ ZarrDataType_uint16, ZarrDataType_uint32, ZarrDataType_float64 });
            const uint64_t px = (1ull << 32) / c.itemsize();
            const bool exact = r.chance(50); // 2^32 bytes, not one more
            const uint64_t w = exact ? 1ull << 15 : r.chance(50) ? r.range(30000, 60000) : r.range(65536, 140000), h = px / w + (exact ? 0 : 2);
            set(c.dims[2], w, w / 5 + 1, 2);
            set(c.dims[1], h, h / 7 + 1, 3);
            c.frames = 1;
            run(c, args, index, r, rep, exact ? "frame of 4 GiB" : "frame beyond 4 GiB", false, 1.5, 6);
            break;
        }
        case 2: { // a shard of more than 2^32 bytes; in V2 a stream of as many
            c.dtype = ZarrDataType_uint8;
            const uint64_t side = 34000 + r.range(0, 500);
            set(c.dims[1], side, side / 2 + 1, 2);
            set(c.dims[2], side + 1, side + 1);
            c.dims[0].shard = 4;
            c.frames = 4;
            run(c, args, index, r, rep, "shard beyond 4 GiB", false, 4.9, 1.4);
            break;
        }
        case 3: { // very many frames
            set(c.dims[1], r.range(1, 2), 1);
            set(c.dims[2], r.range(1, 2), 2);
            c.frames = 65536 + r.range(1, 20000);
            set(c.dims[0], 0, r.range(3000, 40000), r.range(1, 3));
            run_many(c, args, index, r, rep, "frames beyond 65535");
            break;
        }
        case 4: { // layers, or shards, of more than 2^32 frames
            if (version == 3) {
                set(c.dims[0], 0, 1 << 16, 65536 + r.range(1, 2));
                set(c.dims[1], 1, 1);
                set(c.dims[2], 1, 1);
                c.frames = (2 << 16) + r.range(1, 70000);
                run_many(c, args, index, r, rep, "shard of 2^32 frames");
                c = base_case(r, version);
            }
            layer(c, args, index, r, rep);
            break;
        }
        default: { // very many chunks in a shard, or layers
            if (version == 3) {
                const uint64_t w = 250 + r.range(8, 30);
                set(c.dims[1], w, 1, w);
                set(c.dims[2], w, 1, w);
                c.frames = 2;
                c.dims[0].shard = (uint32_t)r.range(1, 2);
                run_many(c, args, index, r, rep, "chunks beyond 65535");
            } else {
                set(c.dims[1], 1, 1);
                set(c.dims[2], 3, 3);
                c.frames = 65536 + r.range(1, 100);
                run_many(c, args, index, r, rep, "layers");
            }
        }
    }
}
} // namespace

HX_CASE(huge_v2) { huge(2, args, index, r, rep); }
HX_CASE(huge_v3) { huge(3, args, index, r, rep); }

// one append of more than 2^32 bytes
HX_CASE(huge_append)
{
    Case c = base_case(r, r.chance(50) ? 2 : 3);
    compress(c, r);
    c.dtype = ZarrDataType_uint16;
    const uint64_t w = r.range(2000, 6000), h = r.range(2000, 6000);
    set(c.dims[2], w, w / 2 + 1, 2);
    set(c.dims[1], h, h / 3 + 1, 1);
    c.frames = (1ull << 32) / c.frame_bytes() + 2;
    set(c.dims[0], 0, r.range(1, 4), r.range(1, 5));
    run(c, args, index, r, rep, "append beyond 4 GiB", true, 1.5, 1.5);
}

// the second level of two frames of more than 2^31 bytes each
HX_CASE(huge_pyramid)
{
    Case c = base_case(r, (index / 2) % 2 ? 2 : 3);
    c.dtype = index % 2 ? ZarrDataType_uint16 : ZarrDataType_uint8;
    c.multiscale = true;
    const uint64_t side = (c.itemsize() == 1 ? 46342 : 32770) + r.range(0, 9), chunk = side / 2 + 1;
    set(c.dims[1], side, chunk);
    set(c.dims[2], side, chunk);
    c.frames = 2;
    rep.sample = case_json(c);
    if (!room(args, rep, 5, 5)) {
        return;
    }
    TempDir td(args, index);
    const auto root = td / "s.zarr";
    const uint64_t fb = c.frame_bytes();
    Pattern pat(2 * fb, c.seed, ~0ull);
    LogCapture cap;
    auto* s = create(c, root);
    for (int f = 0; s && f < 2; ++f) {
        size_t out = 0;
        auto code = ZarrStream_append(s, pat.base + (uint64_t)f * fb, fb, &out);
        if (code != ZarrStatusCode_Success || out != fb) {
            rep.bad("huge.append", "frame " + std::to_string(f) + ": " + cap.err().substr(0, 300));
        }
    }
    ZarrStream_destroy(s);
    if (!s || !cap.err().empty()) {
        rep.bad("huge.create", cap.err().substr(0, 300));
        return;
    }
    rep.count("streams");
    const uint64_t side1 = (side + 1) / 2;
    auto meta = json::parse(read_file(root + (c.version == 2 ? "/1/.zarray" : "/meta/root/1.array.json")), nullptr, false);
    if (!meta.is_object() || meta.value("shape", json()) != json({ 1, side1, side1 })) {
        rep.bad("huge.shape", "the second level's metadata is " + meta.dump().substr(0, 300));
        return;
    }
    const auto cs = (c.version == 2 ? meta["chunks"] : meta["chunk_grid"]["chunk_shape"]).get<std::vector<uint64_t>>();
    const auto cps = c.version == 2 ? std::vector<uint64_t>{ 1, 1, 1 } : meta["storage_transformers"][0]["configuration"]["chunks_per_shard"].get<std::vector<uint64_t>>();
    if (cs.size() != 3 || cs[1] < side1 || cs[2] < side1 || cps != std::vector<uint64_t>{ 1, 1, 1 }) {
        rep.count("other_tiling"); // ordinary sizes decide about tilings
        return;
    }
    Mapped m(root + (c.version == 2 ? "/1/0/0/0" : "/data/root/1/c0/0/0"));
    const size_t bpp = c.itemsize();
    if (!m.ok || m.n < cs[1] * cs[2] * bpp) {
        rep.bad("huge.missing", "the second level's chunk is missing or too short");
        return;
    }
    const uint64_t W = c.width();
    auto px = [&](uint64_t f, uint64_t y, uint64_t x) {
        const uint64_t o = f * fb + (y * W + x) * bpp;
        return bpp == 1 ? (double)pat.base[o] : (double)(pat.base[o] | pat.base[o + 1] << 8);
    };
    for (int k = 0; k < 200000; ++k) {
        const uint64_t y = k % 10 ? r.range(0, side1 - 1) : side1 - 1 - r.range(0, 3), x = k % 11 ? r.range(0, side1 - 1) : side1 - 1;
        const uint64_t y2 = std::min(2 * y + 1, side - 1), x2 = std::min(2 * x + 1, side - 1);
        double want = 0;
        for (uint64_t f = 0; f < 2; ++f) {
            want += px(f, 2 * y, 2 * x) + px(f, 2 * y, x2) + px(f, y2, 2 * x) + px(f, y2, x2);
        }
        want /= 8;
        const uint8_t* p = m.p + (y * cs[2] + x) * bpp;
        const double got = bpp == 1 ? (double)*p : (double)(p[0] | p[1] << 8);
        if (std::abs(got - want) > 2.01) {
            rep.bad("huge.pyramid", "pixel (" + std::to_string(y) + ", " + std::to_string(x) + ") of the second level is " + std::to_string(got) + ", the mean is " +
                                      std::to_string(want));
            return;
        }
        rep.count("means_checked");
    }
    rep.sigs.push_back("pyramid v" + std::to_string(c.version) + "t" + std::to_string(c.dtype));
}

// one object of more than 2^32 bytes, or of very many parts; its parts are checked as they come in, and not kept
HX_CASE(huge_s3)
{
    svc_reset();
    LogCapture cap;
    const std::string key = "pre/0/0";
    const bool small = index % 3 == 2;
    const uint64_t total = small ? r.range(1300, 1700) << 20 : (1ull << 32) + r.range(10 << 20, 60 << 20);
    Pattern pat(total, r.next(), ~0ull);
    struct
    {
        uint64_t bytes = 0, gap_at = 0, gap = 0;
        unsigned next = 1;
        std::map<unsigned, std::string> early; // came before its predecessors
        std::string bad;
    } got;
    const int style = (int)r.range(0, 3);
    if (!small && r.chance(50)) {
        got.gap = r.range(1, 20 << 20);
        got.gap_at = (1ull << 32) - r.range(0, 25 << 20);
    }
    auto take = [&](const std::string& d) {
        uint64_t off = got.bytes;
        const auto* p = (const uint8_t*)d.data();
        for (uint64_t n = d.size(); n && got.bad.empty();) {
            const bool in_gap = off >= got.gap_at && off < got.gap_at + got.gap;
            const uint64_t k = std::min(n, off < got.gap_at ? got.gap_at - off : in_gap ? got.gap_at + got.gap - off : n);
            if (in_gap ? !zeros(p, k) : !pat.same(p, off, k)) {
                got.bad = "part " + std::to_string(got.next) + " differs from what was written from byte " + std::to_string(off) + " on";
            }
            off += k, p += k, n -= k;
        }
        got.bytes += d.size();
        ++got.next;
    };
    svc().set_watch([&](const std::string&, unsigned number, const std::string& d) {
        if (number != got.next) {
            got.early[number] = d;
            return true;
        }
        take(d);
        for (auto it = got.early.find(got.next); it != got.early.end(); it = got.early.find(got.next)) {
            take(it->second);
            got.early.erase(it);
        }
        return true;
    });
    rep.sample = { { "bytes", total }, { "style", style }, { "gap", got.gap } };
    auto pool = std::make_shared<zarr::S3ConnectionPool>(2, "http://localhost:9000", "user", "secret-key");
    auto threads = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
    auto sink = zarr::SinkCreator(threads, pool).make_sink("az-bucket", key);
    bool ok = !!sink;
    for (uint64_t off = 0; off < total && ok;) {
        if (got.gap && off == got.gap_at) {
            off += got.gap;
            continue;
        }
        uint64_t n = style == 0 ? total : style == 1 ? 5 << 20 : style == 2 ? r.range(1, 30 << 20) : r.range(1, 300 << 20);
        if (off + n > 1ull << 32 && style) {
            n = r.range(1, 3 << 20); // further writes beyond
        }
        n = std::min({ n, total - off, off < got.gap_at ? got.gap_at - off : total });
        ok = sink->write(off, { (const std::byte*)pat.base + off, n });
        rep.count("writes");
        off += n;
    }
    if (!ok || !zarr::finalize_sink(std::move(sink))) {
        rep.bad("huge.s3", "writing an object of " + std::to_string(total) + " bytes failed without any fault: " + cap.err().substr(0, 300));
        return;
    }
    std::vector<Problem> pr;
    auto ups = check_protocol("az-bucket", "pre", pr, rep);
    if (ups.size() != 1 || ups.begin()->second.creates != 1 || ups.begin()->second.completes_ok != 1 || !svc().objects("az-bucket").count(key)) {
        pr.push_back({ "huge.s3", std::to_string(ups.size()) + " uploads, not one created and completed once" });
    }
    if (!got.bad.empty() || got.bytes != total) {
        pr.push_back({ "huge.s3", got.bad.empty() ? std::to_string(got.bytes) + " bytes were uploaded of " + std::to_string(total) : got.bad });
    }
    rep.add(pr, std::to_string(total) + " bytes in style " + std::to_string(style));
    rep.count("bytes_in_parts", got.bytes);
    svc().set_watch(nullptr);
    rep.sigs.push_back("s3 " + std::to_string(style) + (got.gap ? "gap" : "") + (small ? "small" : ""));
}

namespace {
// what a file must hold: bytes [at, at + n) are the pattern's from `from` on, later entries win; the rest is zero
struct Stretch
{
    uint64_t at, n, from;
};

void
check_file(const std::string& path, const std::vector<Stretch>& want, const Pattern& pat, CaseReport& rep, const std::string& what)
{
    Mapped m(path);
    uint64_t end = 0;
    for (auto& w : want) {
        end = std::max(end, w.at + w.n);
    }
    if (!m.ok || m.n != end) {
        rep.bad("huge.file", what + ": the file has " + std::to_string(m.n) + " bytes, " + std::to_string(end) + " were written");
        return;
    }
    for (size_t i = 0; i < want.size(); ++i) {
        auto& w = want[i];
        // stretches do not overlap
        if (!pat.same(m.p + w.at, w.from, w.n)) {
            rep.bad("huge.file", what + ": the " + std::to_string(w.n) + " bytes at " + std::to_string(w.at) + " differ from what was written there");
            return;
        }
        rep.count("bytes_compared", w.n);
    }
}
} // namespace

// single writes beyond 2 and 4 GiB, and to offsets beyond
HX_CASE(huge_file)
{
    const bool four = index % 2;
    const uint64_t n = four ? (1ull << 32) + r.range(0, 5 << 20) : (1ull << 31) + r.range(0, 5 << 20);
    rep.sample = { { "bytes", n } };
    if (!room(args, rep, n / 1e9 + 0.2, 0.2)) {
        return;
    }
    TempDir td(args, index);
    Pattern pat(n + tile_bytes, r.next(), ~0ull);
    const uint64_t head = r.chance(50) ? r.range(1, 9 << 20) : 0, gap = r.chance(50) ? r.range(1ull << 31, 1ull << 33) : 0;
    std::vector<Stretch> want;
    LogCapture cap;
    {
        auto sink = zarr::SinkCreator::make_sink(td / "f");
        bool ok = !!sink;
        auto put = [&](uint64_t at, uint64_t len) {
            ok = ok && sink->write(at, { (const std::byte*)pat.base + want.size(), len });
            want.push_back({ at, len, want.size() });
        };
        if (head) {
            put(0, head);
        }
        put(head, n);
        if (gap) {
            put(head + n + gap, r.range(1, 3 << 20)); // the file is sparse
            put(head + n, r.range(1, 1000));
        }
        ok = ok && zarr::finalize_sink(std::move(sink));
        if (!ok) {
            rep.bad("huge.file", "writing " + std::to_string(n) + " bytes failed: " + cap.err().substr(0, 300));
            return;
        }
    }
    check_file(td / "f", want, pat, rep, "file sink");
    rep.sigs.push_back(std::string(four ? "4" : "2") + (head ? "h" : "") + (gap ? "g" : ""));
}

// more buffers than the system takes at once, buffers of more than it takes at once, and offsets beyond 4 GiB
HX_CASE(huge_vectors)
{
    const int style = (int)(index % 3);
    const uint64_t n = (style == 0 ? 1ull << 31 : style == 1 ? 1ull << 32 : 1ull << 29) + r.range(0, 5 << 20);
    const uint64_t at = r.pick<uint64_t>({ 0, 1, 1ull << 31, (1ull << 32) - 5, (1ull << 32) + r.range(0, 1 << 30), 1ull << 40 });
    rep.sample = { { "bytes", n }, { "offset", at }, { "style", style } };
    if (!room(args, rep, n / 1e9 + 0.2, 0.2)) {
        return;
    }
    TempDir td(args, index);
    Pattern pat(n, r.next(), ~0ull);
    std::vector<std::span<std::byte>> buffers;
    for (uint64_t off = 0; off < n;) {
        uint64_t k = style == 0 ? r.range(0, 3 << 20) : style == 1 ? r.pick<uint64_t>({ n, 1ull << 31, (1ull << 31) - 4096, r.range(0, 1ull << 32) }) : r.range(0, 200000);
        k = std::min(k, n - off);
        buffers.emplace_back((std::byte*)pat.base + off, k);
        off += k;
    }
    LogCapture cap;
    {
        zarr::VectorizedFileWriter w(td / "f");
        if (!w.write_vectors(buffers, at)) {
            rep.bad("huge.vectors", "writing " + std::to_string(buffers.size()) + " buffers of " + std::to_string(n) + " bytes failed: " + cap.err().substr(0, 300));
            return;
        }
    }
    rep.count("buffers", buffers.size());
    check_file(td / "f", { { at, n, 0 } }, pat, rep, std::to_string(buffers.size()) + " buffers");
    rep.sigs.push_back(std::to_string(style) + "/" + std::to_string(at >> 30));
}
