// Common parts of the harness: random streams, cases, driving the public C API, reading stores back with an independent
// Zarr reader, and reporting. Everything here looks at the library through its public header only.
#pragma once

#include "acquire.zarr.h"

#include <blosc.h>
#include <nlohmann/json.hpp>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace hx {
namespace fs = std::filesystem;
using json = nlohmann::json;
using Bytes = std::vector<uint8_t>;

// ------------------------------------------------------------------------------------------------------------ random
inline uint64_t
mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t
hash_str(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return mix(h);
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed)
      : s(seed)
    {
    }
    uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
    // inclusive
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + next() % (hi - lo + 1); }
    bool chance(int percent) { return next() % 100 < (uint64_t)percent; }
    template<typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + next() % l.size());
    }
    template<typename T>
    const T& pick(const std::vector<T>& l)
    {
        return l[next() % l.size()];
    }
};

// ------------------------------------------------------------------------------------------------------------- cases
struct Dim
{
    std::string name;
    ZarrDimensionType type;
    uint32_t array, chunk, shard;
};

struct Case
{
    uint64_t seed = 0;
    int version = 2;
    ZarrDataType dtype = ZarrDataType_uint8;
    std::vector<Dim> dims;
    bool compressed = false;
    int compressor = 1, codec = 1, level = 1, shuffle = 0;
    bool multiscale = false;
    bool has_custom = false;
    std::string custom;
    uint64_t frames = 0;
    int pattern = 0;

    size_t itemsize() const
    {
        static const size_t n[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };
        return n[dtype];
    }
    size_t width() const { return dims.back().array; }
    size_t height() const { return dims[dims.size() - 2].array; }
    size_t frame_bytes() const { return width() * height() * itemsize(); }
    uint64_t inner() const // frames per unit of the append dimension
    {
        uint64_t n = 1;
        for (size_t i = 1; i + 2 < dims.size(); ++i) {
            n *= dims[i].array;
        }
        return n;
    }
    uint64_t frames_per_chunk_layer() const { return inner() * dims[0].chunk; }
    uint64_t frames_per_shard_layer() const { return frames_per_chunk_layer() * dims[0].shard; }
};

inline json
case_json(const Case& c)
{
    json j;
    j["seed"] = c.seed;
    j["version"] = c.version;
    j["dtype"] = (int)c.dtype;
    for (auto& d : c.dims) {
        j["dims"].push_back({ d.name, (int)d.type, d.array, d.chunk, d.shard });
    }
    if (c.compressed) {
        j["compression"] = { c.compressor, c.codec, c.level, c.shuffle };
    }
    j["multiscale"] = c.multiscale;
    j["frames"] = c.frames;
    j["pattern"] = c.pattern;
    if (c.has_custom) {
        j["custom"] = c.custom.size() > 200 ? c.custom.substr(0, 200) + "..." : c.custom;
    }
    return j;
}

// What a case exercises, as a string: two cases with the same signature differ in sizes only.
inline std::string
signature(const Case& c)
{
    std::ostringstream o;
    o << "v" << c.version << " t" << c.dtype << " n" << c.dims.size();
    for (size_t i = 0; i < c.dims.size(); ++i) {
        auto& d = c.dims[i];
        o << (i ? "," : " ") << (int)d.type;
        if (i) {
            o << (d.chunk > d.array ? "B" : d.array % d.chunk ? "R" : "E");
            if (c.version == 3) {
                auto n = (d.array + d.chunk - 1) / d.chunk;
                o << (d.shard > n ? "b" : n % d.shard ? "r" : "e");
            }
        } else if (c.version == 3) {
            o << (d.shard > 1 ? "m" : "s");
        }
    }
    if (c.compressed) {
        o << " z" << c.codec << c.level << c.shuffle;
    }
    auto L = c.frames_per_chunk_layer(), S = c.version == 3 ? c.frames_per_shard_layer() : L;
    o << (c.multiscale ? " ms" : "") << " N"
      << (c.frames == 0           ? "0"
          : c.frames % S == 0     ? "S"
          : c.frames % L == 0     ? "L"
          : c.frames % c.inner()  ? "p"
                                  : "c");
    return o.str();
}

struct GenOpts
{
    int version = 0; // 0: either
    int min_dims = 3, max_dims = 6;
    uint32_t max_yx = 40;
    size_t max_chunk_mem = 3 << 20;
    size_t max_chunks = 400;
    size_t max_stream = 3 << 20;
    uint64_t max_frames = 160;
    int compressed_percent = 35;
    int multiscale_percent = 0;
    bool custom = true;
    int dtype = -1;
    bool chunk1_ok = true;
};

inline Case
gen_case(Rng& r, const GenOpts& o = {})
{
    for (;;) {
        Case c;
        c.seed = r.next();
        c.version = o.version ? o.version : r.pick({ 2, 3 });
        c.dtype = (ZarrDataType)(o.dtype >= 0 ? o.dtype : (int)r.range(0, ZarrDataTypeCount - 1));
        int nd = (int)r.range(o.min_dims, o.max_dims);
        if (nd > 4 && r.chance(40)) {
            nd = (int)r.range(o.min_dims, std::min(4, o.max_dims));
        }
        static const char* plain[] = { "t", "c", "z", "m", "w", "p", "q" };
        static const char* odd[] = { "time (s)", "\"q\"", "\xc3\xa9\xc3\xa0", "back\\slash", " padded ", "a/b", "tab\tname" };
        for (int i = 0; i < nd; ++i) {
            Dim d;
            if (i >= nd - 2) {
                d.name = i == nd - 2 ? "y" : "x";
                d.type = ZarrDimensionType_Space;
                uint32_t m = r.chance(20) ? 3 : o.max_yx;
                d.array = (uint32_t)r.range(1, m);
                d.chunk = r.chance(30) ? d.array : (uint32_t)r.range(1, d.array + (r.chance(25) ? 9 : 0));
                if (r.chance(15)) {
                    uint32_t k = (uint32_t)r.range(1, 4);
                    d.array = d.chunk * k; // even tiling
                }
            } else {
                d.name = r.chance(85) ? plain[i] : odd[r.range(0, 6)];
                d.type = i == 0 ? r.pick({ ZarrDimensionType_Time, ZarrDimensionType_Time, ZarrDimensionType_Space, ZarrDimensionType_Other, ZarrDimensionType_Channel })
                                : r.pick({ ZarrDimensionType_Channel,
                                           ZarrDimensionType_Space,
                                           ZarrDimensionType_Other,
                                           ZarrDimensionType_Time });
                d.array = i == 0 ? (r.chance(75) ? 0 : (uint32_t)r.range(1, 9)) : (uint32_t)r.range(1, 5);
                d.chunk = i == 0 ? (uint32_t)r.range(1, 5)
                                 : (uint32_t)r.range(1, d.array + (r.chance(20) ? 2 : 0));
            }
            uint32_t n = i == 0 ? 3 : (d.array + d.chunk - 1) / d.chunk;
            d.shard = c.version == 3 || r.chance(30) ? (uint32_t)r.range(1, n + (r.chance(25) ? 2 : 0)) : 0;
            if (i == 0 && c.version == 3 && r.chance(35)) {
                d.shard = 1;
            }
            c.dims.push_back(d);
        }
        // bounds
        double chunk_bytes = (double)c.itemsize(), chunks = 1, shard_chunks = 1;
        for (int i = 0; i < nd; ++i) {
            chunk_bytes *= c.dims[i].chunk;
            if (i) {
                chunks *= (c.dims[i].array + c.dims[i].chunk - 1) / c.dims[i].chunk;
            }
            shard_chunks *= std::max(1u, c.dims[i].shard);
        }
        if (chunks > (double)o.max_chunks || chunk_bytes * chunks > (double)o.max_chunk_mem || shard_chunks > 4096) {
            continue;
        }
        if (!o.chunk1_ok && (c.dims[nd - 1].chunk == 1 || c.dims[nd - 2].chunk == 1)) {
            continue;
        }
        c.compressed = r.chance(o.compressed_percent);
        if (c.compressed) {
            c.compressor = ZarrCompressor_Blosc1;
            c.codec = r.pick({ 1, 2 });
            c.level = (int)r.range(0, 9);
            c.shuffle = (int)r.range(0, 2);
        }
        c.multiscale = r.chance(o.multiscale_percent);
        if (o.custom && r.chance(40)) {
            c.has_custom = true;
            c.custom = r.pick<std::string>({ "{}",
                                             "{\"a\": 1}",
                                             " {\"nested\": {\"k\": [1, 2.5, null, true, \"s\\u00e9\"]}} \n",
                                             "[1, 2, 3]",
                                             "\"text\"",
                                             "42",
                                             "{/*comment*/\"x\": -1}" });
        }
        c.pattern = r.pick({ 0, 0, 1, 2, 3 });
        // number of frames: at, next to and between the boundaries
        uint64_t I = c.inner(), L = c.frames_per_chunk_layer(), S = c.version == 3 ? c.frames_per_shard_layer() : L;
        uint64_t cap = std::min<uint64_t>(o.max_frames, o.max_stream / c.frame_bytes());
        std::vector<uint64_t> cand = { 0,     1,     2,     I,         L - 1,     L,         L + 1,
                                       2 * L, S - 1, S,     S + 1,     S + L,     S + L + 1, S + I,
                                       2 * S, 2 * S + 1, 3 * L, 2 * S - 1, 2 * S + L, 3 * S };
        std::vector<uint64_t> ok;
        for (auto n : cand) {
            if (n <= cap) {
                ok.push_back(n);
            }
        }
        ok.push_back(r.range(0, std::min(cap, 3 * S + 2)));
        ok.push_back(r.range(0, cap));
        c.frames = r.pick(ok);
        if (cap < 4 && r.chance(90)) {
            continue;
        }
        return c;
    }
}

// Many levels of resolution: small chunks in larger frames, and frames enough to reach the last ones.
inline void
deepen(Case& c)
{
    Rng r(mix(c.seed + 17));
    const size_t nd = c.dims.size();
    c.multiscale = true;
    for (size_t i = 0; i < nd; ++i) {
        auto& d = c.dims[i];
        const bool space = i + 2 >= nd;
        if (i) {
            d.array = (uint32_t)(space ? r.range(9, 24) : r.range(1, 2));
        }
        d.chunk = (uint32_t)(space ? r.range(3, 4) : i ? 1 : r.range(1, 2));
        d.shard = c.version == 3 ? (uint32_t)r.range(1, i ? 4 : 2) : 0;
    }
    c.frames = r.range(16, 36);
}

// More dimensions than usual.
inline void
stretch(Case& c, int to)
{
    Rng r(mix(c.seed + 23));
    uint64_t more = 1;
    while ((int)c.dims.size() < to) {
        Dim d;
        d.name = "d" + std::to_string(c.dims.size());
        d.type = r.pick({ ZarrDimensionType_Channel, ZarrDimensionType_Space, ZarrDimensionType_Other, ZarrDimensionType_Time });
        d.array = more < 32 ? (uint32_t)r.range(1, 2) : 1;
        d.chunk = (uint32_t)r.range(1, d.array);
        d.shard = c.version == 3 ? (uint32_t)r.range(1, d.array / d.chunk) : 0;
        more *= d.array;
        c.dims.insert(c.dims.begin() + 1 + (long)r.range(0, c.dims.size() - 3), d);
    }
    c.frames = std::min<uint64_t>(c.frames * more, std::max<uint64_t>(8, (4 << 20) / c.frame_bytes()));
}

// A program without standard input: the next file opened gets its number.
struct NoStdin
{
    int saved = -1;
    explicit NoStdin(bool yes)
    {
        if (yes && (saved = fcntl(0, F_DUPFD_CLOEXEC, 100)) >= 0) {
            close(0);
        }
    }
    ~NoStdin()
    {
        if (saved >= 0) {
            dup2(saved, 0);
            close(saved);
        }
    }
};

// --------------------------------------------------------------------------------------------------------- pixel data
template<typename T>
inline void
fill_typed(const Case& c, uint64_t f, uint8_t* out)
{
    const size_t n = c.width() * c.height();
    Rng r(mix(c.seed ^ mix(f + 1)));
    for (size_t i = 0; i < n; ++i) {
        T v{};
        uint64_t u;
        switch (c.pattern) {
            case 0: // arbitrary values, unique with high probability
            default:
                u = r.next();
                if constexpr (std::is_floating_point_v<T>) {
                    v = (T)((double)(int64_t)u / 9.3e15);
                } else {
                    v = (T)u;
                }
                break;
            case 1: // the running number of the element in the stream
                v = (T)(f * n + i + 1);
                break;
            case 2: // long runs
                v = (T)(((f * n + i) / 13) % 5);
                break;
            case 3: // extremes
                u = r.next() % 8;
                if constexpr (std::is_floating_point_v<T>) {
                    const T k[] = { std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(),
                                    std::numeric_limits<T>::denorm_min(), (T)0, (T)-0.0, (T)1, (T)-1,
                                    std::numeric_limits<T>::epsilon() };
                    v = k[u];
                } else {
                    const T k[] = { std::numeric_limits<T>::max(), std::numeric_limits<T>::min(),
                                    (T)(std::numeric_limits<T>::max() - 1), (T)(std::numeric_limits<T>::max() / 2 + 1),
                                    (T)0, (T)1, (T)-1, std::numeric_limits<T>::max() };
                    v = k[u];
                }
                break;
            case 4: // raw bits, including NaN and infinities
                u = r.next();
                memcpy(&v, &u, sizeof(T));
                break;
            case 5: { // smooth, distinct between frames, small
                double y = (double)(i / c.width()), x = (double)(i % c.width());
                v = (T)(std::fmod(f * 7 + 3 * y + 2 * x, 100));
                break;
            }
        }
        memcpy(out + i * sizeof(T), &v, sizeof(T));
    }
}

inline void
fill_frame(const Case& c, uint64_t f, uint8_t* out)
{
    switch (c.dtype) {
        case ZarrDataType_uint8: return fill_typed<uint8_t>(c, f, out);
        case ZarrDataType_uint16: return fill_typed<uint16_t>(c, f, out);
        case ZarrDataType_uint32: return fill_typed<uint32_t>(c, f, out);
        case ZarrDataType_uint64: return fill_typed<uint64_t>(c, f, out);
        case ZarrDataType_int8: return fill_typed<int8_t>(c, f, out);
        case ZarrDataType_int16: return fill_typed<int16_t>(c, f, out);
        case ZarrDataType_int32: return fill_typed<int32_t>(c, f, out);
        case ZarrDataType_int64: return fill_typed<int64_t>(c, f, out);
        case ZarrDataType_float32: return fill_typed<float>(c, f, out);
        case ZarrDataType_float64: return fill_typed<double>(c, f, out);
        default: abort();
    }
}

inline Bytes
stream_bytes(const Case& c, uint64_t frames)
{
    Bytes b(frames * c.frame_bytes());
    for (uint64_t f = 0; f < frames; ++f) {
        fill_frame(c, f, b.data() + f * c.frame_bytes());
    }
    return b;
}

// ------------------------------------------------------------------------------------------------ driving the C API
// what std::thread::hardware_concurrency says (see main.cc); 0: the processors this process may use
inline std::atomic<unsigned> processors{ 0 };

struct S3Opts
{
    std::string endpoint = "http://localhost:9000", bucket = "az-bucket", key = "user", secret = "secret-key";
};

// Owns everything the settings point to; the library must copy what it keeps, so tests may destroy this right after
// ZarrStream_create.
struct Settings
{
    ZarrStreamSettings s{};
    std::string path, custom;
    std::vector<std::string> names;
    std::unique_ptr<ZarrDimensionProperties[]> dims;
    ZarrS3Settings s3{};
    S3Opts s3o;
    ZarrCompressionSettings comp{};

    Settings(const Case& c, const std::string& path_, const S3Opts* s3_ = nullptr)
      : path(path_)
      , custom(c.custom)
    {
        s.store_path = path.c_str();
        s.custom_metadata = c.has_custom ? custom.c_str() : nullptr;
        dims = std::make_unique<ZarrDimensionProperties[]>(c.dims.size());
        names.reserve(c.dims.size());
        for (size_t i = 0; i < c.dims.size(); ++i) {
            names.push_back(c.dims[i].name);
            dims[i].name = names.back().c_str();
            dims[i].type = c.dims[i].type;
            dims[i].array_size_px = c.dims[i].array;
            dims[i].chunk_size_px = c.dims[i].chunk;
            dims[i].shard_size_chunks = c.dims[i].shard;
        }
        s.dimensions = dims.get();
        s.dimension_count = c.dims.size();
        s.multiscale = c.multiscale;
        s.data_type = c.dtype;
        s.version = (ZarrVersion)c.version;
        if (c.compressed) {
            comp.compressor = (ZarrCompressor)c.compressor;
            comp.codec = (ZarrCompressionCodec)c.codec;
            comp.level = (uint8_t)c.level;
            comp.shuffle = (uint8_t)c.shuffle;
            s.compression_settings = &comp;
        }
        if (s3_) {
            s3o = *s3_;
            s3.endpoint = s3o.endpoint.c_str();
            s3.bucket_name = s3o.bucket.c_str();
            s3.access_key_id = s3o.key.c_str();
            s3.secret_access_key = s3o.secret.c_str();
            s.s3_settings = &s3;
        }
    }
};

inline ZarrStream*
create(const Case& c, const std::string& path, const S3Opts* s3 = nullptr)
{
    Settings st(c, path, s3);
    ZarrStream* out = ZarrStream_create(&st.s);
    // scribble over what we handed in: the stream must have its own copy
    std::fill(st.path.begin(), st.path.end(), '#');
    std::fill(st.custom.begin(), st.custom.end(), '#');
    for (auto& n : st.names) {
        std::fill(n.begin(), n.end(), '#');
    }
    std::fill(st.s3o.bucket.begin(), st.s3o.bucket.end(), '#');
    std::fill(st.s3o.endpoint.begin(), st.s3o.endpoint.end(), '#');
    memset((void*)st.dims.get(), 0x5a, sizeof(ZarrDimensionProperties) * c.dims.size());
    return out;
}

// how the stream is cut into append calls
using Cuts = std::vector<size_t>;

inline Cuts
gen_cuts(Rng& r, size_t total, size_t frame, int style)
{
    Cuts out;
    size_t left = total;
    auto take = [&](size_t n) {
        n = std::min(n, left);
        out.push_back(n);
        left -= n;
    };
    while (left > 0) {
        switch (style) {
            case 0: take(frame); break;                                              // a frame at a time
            case 1: take(left); break;                                               // all at once
            case 2: take(frame * r.range(1, 5)); break;                              // whole frames
            case 3: take(r.range(1, frame * 2 + 3)); break;                          // anything
            case 4: take(r.range(1, std::max<size_t>(1, frame / 3 + 1))); break;     // crumbs
            case 5: take(r.chance(50) ? frame - 1 : frame + 1); if (frame == 1 && left && out.back() == 0) out.pop_back(), take(1); break;
            case 6: take(r.chance(20) ? 0 : r.chance(50) ? frame : r.range(1, frame * 4)); break; // with empty appends
            default: take(frame + frame / 2 + 1); break;
        }
    }
    return out;
}

struct RunResult
{
    bool created = false;
    bool append_failed = false;
    ZarrStatusCode code = ZarrStatusCode_Success;
    size_t appends = 0;
    std::string wrong; // API-level deviation
};

// Appends `data` cut as `cuts`, each piece from a fresh exactly-sized allocation so an over-read is caught.
inline RunResult
append_all(ZarrStream* s, const uint8_t* data, const Cuts& cuts)
{
    RunResult rr;
    rr.created = true;
    size_t off = 0;
    const bool elsewhere = mix(cuts.size() + (cuts.empty() ? 0 : cuts.back())) % 6 == 0; // each append from another thread
    for (auto n : cuts) {
        const size_t skew = mix(off + 31 * n) % 2 ? 1 + mix(n) % 7 : 0; // bytes need no alignment
        std::unique_ptr<uint8_t[]> own(new uint8_t[n + skew ? n + skew : 1]);
        uint8_t* piece = own.get() + skew;
        memcpy(piece, data + off, n);
        size_t out = 0xdeadbeef;
        ZarrStatusCode code;
        auto append = [&] { code = ZarrStream_append(s, piece, n, &out); };
        std::thread other;
        if (elsewhere) {
            try {
                other = std::thread(append);
            } catch (const std::system_error&) { // refused, like the library's own
            }
        }
        if (other.joinable()) {
            other.join();
        } else {
            append();
        }
        memset(piece, 0xcd, n); // the caller may reuse its buffer as soon as append returns
        ++rr.appends;
        if (code != ZarrStatusCode_Success) {
            rr.append_failed = true;
            rr.code = code;
            rr.wrong = "append of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " failed with status " +
                       std::to_string(code);
            return rr;
        }
        if (out != n) {
            rr.wrong = "append of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " reported " +
                       std::to_string(out) + " bytes";
            return rr;
        }
        off += n;
    }
    return rr;
}

// ------------------------------------------------------------------------------------------------------ store access
using Store = std::map<std::string, std::string>;

inline std::string
read_file(const fs::path& p)
{
    std::ifstream f(p, std::ios::binary);
    return { std::istreambuf_iterator<char>(f), {} };
}

inline Store
load_dir(const fs::path& root)
{
    Store st;
    if (!fs::exists(root)) {
        return st;
    }
    for (auto& e : fs::recursive_directory_iterator(root)) {
        if (e.is_regular_file()) {
            st[e.path().lexically_relative(root).string()] = read_file(e.path());
        }
    }
    return st;
}

inline Store
strip_prefix(const std::map<std::string, std::string>& objects, const std::string& prefix)
{
    Store st;
    for (auto& [k, v] : objects) {
        if (k.rfind(prefix + "/", 0) == 0) {
            st[k.substr(prefix.size() + 1)] = v;
        }
    }
    return st;
}

// ------------------------------------------------------------------------------------------- an independent reader
struct Array
{
    std::vector<uint64_t> shape, chunks, cps; // cps: chunks per shard
    std::string dtype;                        // "u2", "f4", ...
    size_t itemsize = 0;
    bool compressed = false;
    std::string cname;
    int clevel = 0, shuffle = 0;
    Bytes data; // C order
    std::set<std::string> used_keys;
    uint64_t chunks_present = 0, shards_present = 0;
    json meta;
};

struct Problem
{
    std::string key, msg;
};

inline std::string
v3_to_short(const std::string& t)
{
    static const std::map<std::string, std::string> m = { { "uint8", "u1" },   { "uint16", "u2" },  { "uint32", "u4" },
                                                          { "uint64", "u8" },  { "int8", "i1" },    { "int16", "i2" },
                                                          { "int32", "i4" },   { "int64", "i8" },   { "float32", "f4" },
                                                          { "float64", "f8" } };
    auto it = m.find(t);
    return it == m.end() ? "" : it->second;
}
inline std::string
dtype_short(ZarrDataType t)
{
    static const char* n[] = { "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8" };
    return n[t];
}

inline bool
decode_chunk(const Array& a, const uint8_t* p, size_t n, size_t want, Bytes& out, std::string& why)
{
    if (!a.compressed) {
        if (n != want) {
            why = "raw chunk has " + std::to_string(n) + " bytes, expected " + std::to_string(want);
            return false;
        }
        out.assign(p, p + n);
        return true;
    }
    size_t nbytes = 0, cbytes = 0, blocksize = 0;
    if (n < BLOSC_MIN_HEADER_LENGTH) {
        why = "compressed chunk of " + std::to_string(n) + " bytes";
        return false;
    }
    blosc_cbuffer_sizes(p, &nbytes, &cbytes, &blocksize);
    if (nbytes != want || cbytes != n) {
        why = "compressed chunk: header says " + std::to_string(nbytes) + " <- " + std::to_string(cbytes) +
              " bytes, expected " + std::to_string(want) + " <- " + std::to_string(n);
        return false;
    }
    out.resize(want);
    // copy: the frame may sit at any alignment, and the decoder must not read past it
    std::unique_ptr<uint8_t[]> copy(new uint8_t[n]);
    memcpy(copy.get(), p, n);
    int got = blosc_decompress_ctx(copy.get(), out.data(), want, 1);
    if (got != (int)want) {
        why = "blosc_decompress returned " + std::to_string(got) + ", expected " + std::to_string(want);
        return false;
    }
    return true;
}

// calls f with every index vector of the box
template<typename F>
inline void
for_box(const std::vector<uint64_t>& box, F&& f)
{
    for (auto b : box) {
        if (b == 0) {
            return;
        }
    }
    std::vector<uint64_t> i(box.size(), 0);
    for (;;) {
        f(i);
        size_t k = box.size();
        while (k > 0) {
            --k;
            if (++i[k] < box[k]) {
                break;
            }
            i[k] = 0;
            if (k == 0) {
                return;
            }
        }
    }
}

inline void
place_chunk(Array& a, const std::vector<uint64_t>& idx, const Bytes& chunk)
{
    // copy the part of the chunk inside the array, row by row
    const size_t nd = a.shape.size();
    std::vector<uint64_t> lo(nd), ext(nd);
    for (size_t d = 0; d < nd; ++d) {
        lo[d] = idx[d] * a.chunks[d];
        if (lo[d] >= a.shape[d]) {
            return;
        }
        ext[d] = std::min(a.chunks[d], a.shape[d] - lo[d]);
    }
    auto rows = ext;
    rows.back() = 1;
    for_box(rows, [&](const std::vector<uint64_t>& i) {
        uint64_t src = 0, dst = 0;
        for (size_t d = 0; d < nd; ++d) {
            src = src * a.chunks[d] + i[d];
            dst = dst * a.shape[d] + lo[d] + i[d];
        }
        memcpy(a.data.data() + dst * a.itemsize, chunk.data() + src * a.itemsize, ext.back() * a.itemsize);
    });
}

inline std::optional<json>
parse_doc(const Store& st, const std::string& key, std::vector<Problem>& pr, const std::string& tag)
{
    auto it = st.find(key);
    if (it == st.end()) {
        pr.push_back({ tag + ".missing", key + " does not exist" });
        return std::nullopt;
    }
    auto j = json::parse(it->second, nullptr, false);
    if (j.is_discarded()) {
        pr.push_back({ tag + ".not-json", key + " is not valid JSON: '" + it->second.substr(0, 120) + "'" });
        return std::nullopt;
    }
    return j;
}

inline constexpr uint64_t max_array_bytes = 512ull << 20;

inline std::optional<Array>
read_array(const Store& st, int version, int lod, std::vector<Problem>& pr)
{
    Array a;
    const std::string L = std::to_string(lod);
    const std::string mkey = version == 2 ? L + "/.zarray" : "meta/root/" + L + ".array.json";
    auto jm = parse_doc(st, mkey, pr, "array-meta");
    if (!jm) {
        return std::nullopt;
    }
    a.used_keys.insert(mkey);
    try {
        const json& j = *jm;
        a.meta = j;
        a.shape = j.at("shape").get<std::vector<uint64_t>>();
        if (version == 2) {
            if (j.at("zarr_format") != 2 || j.at("order") != "C" || j.at("fill_value") != 0 || !j.at("filters").is_null() ||
                j.at("dimension_separator") != "/") {
                pr.push_back({ "array-meta.fields", "unexpected .zarray fields: " + j.dump() });
            }
            a.chunks = j.at("chunks").get<std::vector<uint64_t>>();
            std::string dt = j.at("dtype");
            // one-byte types have no byte order
            if (dt.size() != 3 || (dt[0] != '<' && !(dt[0] == '|' && dt[2] == '1'))) {
                pr.push_back({ "array-meta.dtype", "dtype " + dt });
                return std::nullopt;
            }
            a.dtype = dt.substr(1);
            if (!j.at("compressor").is_null()) {
                const json& z = j.at("compressor");
                if (z.at("id") != "blosc") {
                    pr.push_back({ "array-meta.compressor", z.dump() });
                }
                a.compressed = true;
                a.cname = z.at("cname");
                a.clevel = z.at("clevel");
                a.shuffle = z.at("shuffle");
            }
        } else {
            const json& g = j.at("chunk_grid");
            if (g.at("type") != "regular" || g.at("separator") != "/" || j.at("chunk_memory_layout") != "C" ||
                j.at("fill_value") != 0) {
                pr.push_back({ "array-meta.fields", "unexpected array.json fields: " + j.dump() });
            }
            a.chunks = g.at("chunk_shape").get<std::vector<uint64_t>>();
            a.dtype = v3_to_short(j.at("data_type"));
            if (j.contains("compressor") && !j.at("compressor").is_null()) {
                const json& z = j.at("compressor");
                if (z.at("codec") != "https://purl.org/zarr/spec/codec/blosc/1.0") {
                    pr.push_back({ "array-meta.compressor", z.dump() });
                }
                a.compressed = true;
                a.cname = z.at("configuration").at("cname");
                a.clevel = z.at("configuration").at("clevel");
                a.shuffle = z.at("configuration").at("shuffle");
            }
            const json& t = j.at("storage_transformers").at(0);
            if (t.at("type") != "indexed" ||
                t.at("extension") != "https://purl.org/zarr/spec/storage_transformers/sharding/1.0") {
                pr.push_back({ "array-meta.sharding", t.dump() });
            }
            a.cps = t.at("configuration").at("chunks_per_shard").get<std::vector<uint64_t>>();
        }
    } catch (const std::exception& e) {
        pr.push_back({ "array-meta.fields", mkey + ": " + e.what() });
        return std::nullopt;
    }
    if (a.dtype.size() != 2 || !strchr("uif", a.dtype[0]) || a.dtype[1] < '1' || a.dtype[1] > '8') {
        pr.push_back({ "array-meta.dtype", "dtype " + a.dtype });
        return std::nullopt;
    }
    a.itemsize = (size_t)(a.dtype[1] - '0');
    const size_t nd = a.shape.size();
    bool bad = a.chunks.size() != nd || nd < 3 || (version == 3 && a.cps.size() != nd);
    uint64_t total = a.itemsize, chunk_bytes = a.itemsize, per_shard = 1;
    for (size_t d = 0; !bad && d < nd; ++d) {
        bad = a.chunks[d] == 0 || (version == 3 && a.cps[d] == 0);
        total *= a.shape[d];
        chunk_bytes *= a.chunks[d];
        per_shard *= version == 3 ? a.cps[d] : 1;
        bad = bad || total > max_array_bytes || chunk_bytes > max_array_bytes || per_shard > (1u << 24);
    }
    if (bad) {
        pr.push_back({ "array-meta.shape", mkey + " has an impossible geometry: " + a.meta.dump() });
        return std::nullopt;
    }
    a.data.assign(total, 0);
    std::vector<uint64_t> grid(nd);
    for (size_t d = 0; d < nd; ++d) {
        grid[d] = (a.shape[d] + a.chunks[d] - 1) / a.chunks[d];
    }
    Bytes buf;
    std::string why;
    auto key_of = [&](const std::vector<uint64_t>& i, const std::string& head) {
        std::string k = head;
        for (size_t d = 0; d < nd; ++d) {
            k += (d ? "/" : "") + std::to_string(i[d]);
        }
        return k;
    };
    if (version == 2) {
        for_box(grid, [&](const std::vector<uint64_t>& i) {
            auto k = key_of(i, L + "/");
            auto it = st.find(k);
            if (it == st.end()) {
                return; // fill value
            }
            a.used_keys.insert(k);
            ++a.chunks_present;
            if (!decode_chunk(a, (const uint8_t*)it->second.data(), it->second.size(), chunk_bytes, buf, why)) {
                pr.push_back({ "chunk.undecodable", k + ": " + why });
                return;
            }
            place_chunk(a, i, buf);
        });
    } else {
        std::vector<uint64_t> sgrid(nd);
        for (size_t d = 0; d < nd; ++d) {
            sgrid[d] = (grid[d] + a.cps[d] - 1) / a.cps[d];
        }
        for_box(sgrid, [&](const std::vector<uint64_t>& si) {
            auto k = key_of(si, "data/root/" + L + "/c");
            auto it = st.find(k);
            if (it == st.end()) {
                return;
            }
            a.used_keys.insert(k);
            ++a.shards_present;
            const std::string& s = it->second;
            if (s.size() < 16 * per_shard) {
                pr.push_back({ "shard.no-index",
                               k + " has " + std::to_string(s.size()) + " bytes, its index alone needs " +
                                 std::to_string(16 * per_shard) });
                return;
            }
            const uint64_t data_end = s.size() - 16 * per_shard;
            std::vector<uint64_t> index(2 * per_shard);
            memcpy(index.data(), s.data() + data_end, 16 * per_shard);
            std::vector<std::pair<uint64_t, uint64_t>> spans;
            for_box(a.cps, [&](const std::vector<uint64_t>& ci) {
                uint64_t slot = 0;
                std::vector<uint64_t> idx(nd);
                for (size_t d = 0; d < nd; ++d) {
                    slot = slot * a.cps[d] + ci[d];
                    idx[d] = si[d] * a.cps[d] + ci[d];
                }
                const uint64_t off = index[2 * slot], len = index[2 * slot + 1];
                const uint64_t none = ~0ull;
                if (off == none && len == none) {
                    return;
                }
                if (off == none || len == none || off > data_end || len > data_end - off) {
                    pr.push_back({ "shard.index-bounds",
                                   k + ": slot " + std::to_string(slot) + " points to [" + std::to_string(off) + ", +" +
                                     std::to_string(len) + "), the data ends at " + std::to_string(data_end) });
                    return;
                }
                spans.emplace_back(off, len);
                ++a.chunks_present;
                for (size_t d = 0; d < nd; ++d) {
                    if (idx[d] >= grid[d] && d > 0) {
                        pr.push_back({ "shard.stray-chunk", k + ": slot " + std::to_string(slot) + " is outside the array" });
                        return;
                    }
                }
                if (!decode_chunk(a, (const uint8_t*)s.data() + off, len, chunk_bytes, buf, why)) {
                    pr.push_back({ "chunk.undecodable", k + " slot " + std::to_string(slot) + ": " + why });
                    return;
                }
                if (idx[0] < grid[0]) {
                    place_chunk(a, idx, buf);
                }
            });
            std::sort(spans.begin(), spans.end());
            for (size_t n = 1; n < spans.size(); ++n) {
                if (spans[n - 1].first + spans[n - 1].second > spans[n].first) {
                    pr.push_back({ "shard.overlap", k + ": two index entries overlap" });
                }
            }
        });
    }
    return a;
}

// Every key of the store that no reader would look at, given the arrays read.
inline std::vector<std::string>
stray_keys(const Store& st, int version, const std::vector<Array>& arrays)
{
    std::set<std::string> known =
      version == 2 ? std::set<std::string>{ ".zattrs", ".zgroup", "acquire.json" }
                   : std::set<std::string>{ "zarr.json", "meta/root.group.json", "meta/acquire.json" };
    for (auto& a : arrays) {
        known.insert(a.used_keys.begin(), a.used_keys.end());
    }
    std::vector<std::string> out;
    for (auto& [k, v] : st) {
        if (known.count(k) || (version == 2 && k.size() > 8 && k.substr(k.size() - 8) == "/.zattrs")) {
            continue;
        }
        out.push_back(k);
    }
    return out;
}

inline uint64_t
ceil_div(uint64_t a, uint64_t b)
{
    return (a + b - 1) / b;
}

// Compares level 0 with the first n frames of the case.
inline void
check_level0(const Case& c, const Store& st, uint64_t n, std::vector<Problem>& pr, std::vector<Array>* arrays = nullptr)
{
    auto a = read_array(st, c.version, 0, pr);
    if (!a) {
        return;
    }
    std::vector<uint64_t> shape{ ceil_div(n, c.inner()) }, chunks{ c.dims[0].chunk }, cps{ c.dims[0].shard };
    for (size_t i = 1; i < c.dims.size(); ++i) {
        shape.push_back(c.dims[i].array);
        chunks.push_back(c.dims[i].chunk);
        cps.push_back(c.dims[i].shard);
    }
    if (a->shape != shape) {
        pr.push_back({ "array.shape", "shape " + json(a->shape).dump() + ", expected " + json(shape).dump() });
    }
    if (a->chunks != chunks || (c.version == 3 && a->cps != cps)) {
        pr.push_back({ "array.chunks", "chunks " + json(a->chunks).dump() + json(a->cps).dump() + ", expected " +
                                         json(chunks).dump() + json(cps).dump() });
    }
    if (a->dtype != dtype_short(c.dtype)) {
        pr.push_back({ "array.dtype", "dtype " + a->dtype + ", expected " + dtype_short(c.dtype) });
    }
    const bool want_compressed = c.compressed && c.compressor != ZarrCompressor_None;
    if (a->compressed != want_compressed ||
        (want_compressed && (a->cname != (c.codec == 1 ? "lz4" : "zstd") || a->clevel != c.level || a->shuffle != c.shuffle))) {
        pr.push_back({ "array.compressor", "compressor in the metadata does not match the settings: " + a->meta.dump() });
    }
    if (a->shape == shape && a->dtype == dtype_short(c.dtype)) {
        const size_t fb = c.frame_bytes();
        Bytes want(fb);
        const uint64_t held = a->data.size() / fb;
        uint64_t bad = 0;
        std::string first;
        for (uint64_t f = 0; f < held; ++f) {
            if (f < n) {
                fill_frame(c, f, want.data());
            } else {
                std::fill(want.begin(), want.end(), 0);
            }
            if (memcmp(want.data(), a->data.data() + f * fb, fb)) {
                if (!bad++) {
                    size_t i = 0;
                    while (want[i] == a->data[f * fb + i]) {
                        ++i;
                    }
                    i /= c.itemsize();
                    first = "frame " + std::to_string(f) + " differs first at y=" + std::to_string(i / c.width()) +
                            " x=" + std::to_string(i % c.width());
                }
            }
        }
        if (bad) {
            pr.push_back({ "array.data", std::to_string(bad) + " of " + std::to_string(n) + " frames differ; " + first });
        }
    }
    if (arrays) {
        arrays->push_back(std::move(*a));
    }
}

// ---------------------------------------------------------------------------------------------------------- reporting
struct CaseReport
{
    json n = json::object(); // counters
    std::vector<std::string> sigs;
    std::vector<Problem> viol;
    json sample;
    std::string inconclusive;

    void count(const char* k, uint64_t by = 1) { n[k] = n.value(k, (uint64_t)0) + by; }
    void add(const std::vector<Problem>& p, const std::string& context)
    {
        for (auto& x : p) {
            viol.push_back({ x.key, context + ": " + x.msg });
        }
    }
    void bad(const std::string& key, const std::string& msg) { viol.push_back({ key, msg }); }
};

struct Args
{
    std::string sub, tier = "quick", scratch, out;
    uint64_t seed = 1, first = 0, step = 1, count = 0, only = ~0ull;
    std::map<std::string, std::string> extra;
    bool thorough() const { return tier == "thorough"; }
};

inline Args
parse_args(int argc, char** argv)
{
    Args a;
    a.sub = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") a.seed = std::stoull(v);
        else if (k == "--tier") a.tier = v;
        else if (k == "--scratch") a.scratch = v;
        else if (k == "--out") a.out = v;
        else if (k == "--first") a.first = std::stoull(v);
        else if (k == "--step") a.step = std::stoull(v);
        else if (k == "--count") a.count = std::stoull(v);
        else a.extra[k] = v;
    }
    return a;
}

// Swallows (and keeps) what the library logs.
class LogCapture
{
    struct Buf : std::streambuf
    {
        std::mutex m;
        std::string text;
        int overflow(int ch) override
        {
            std::scoped_lock l(m);
            if (ch != EOF) text.push_back((char)ch);
            return ch;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            std::scoped_lock l(m);
            if (text.size() < (64u << 20)) text.append(s, (size_t)n);
            return n;
        }
    } buf_[2];
    std::streambuf *old_[2];

  public:
    LogCapture()
    {
        old_[0] = std::cout.rdbuf(&buf_[0]);
        old_[1] = std::cerr.rdbuf(&buf_[1]);
    }
    ~LogCapture()
    {
        std::cout.rdbuf(old_[0]);
        std::cerr.rdbuf(old_[1]);
    }
    std::string out() { std::scoped_lock l(buf_[0].m); return buf_[0].text; }
    std::string err() { std::scoped_lock l(buf_[1].m); return buf_[1].text; }
    void clear()
    {
        for (auto& b : buf_) {
            std::scoped_lock l(b.m);
            b.text.clear();
        }
    }
};

using CaseFn = std::function<void(const Args&, uint64_t index, Rng&, CaseReport&)>;

// Runs the cases first, first+step, ... < count, one JSON line before and one after each, so that a crash or a hang is
// attributed to its case by whoever reads the file.
inline int
run_cases(const Args& a, const CaseFn& fn)
{
    int fd = open(a.out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd < 0) {
        perror("open --out");
        return 2;
    }
    auto line = [&](const json& j) {
        std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
        size_t off = 0;
        while (off < s.size()) {
            ssize_t w = ::write(fd, s.data() + off, s.size() - off);
            if (w <= 0) {
                perror("write --out");
                _exit(2);
            }
            off += (size_t)w;
        }
    };
    for (uint64_t i = a.first; i < a.count; i += a.step) {
        line({ { "s", i } });
        CaseReport rep;
        Rng r(mix(hash_str(a.sub) ^ mix(a.seed * 1000003 + i)));
        fn(a, i, r, rep);
        json v = json::array();
        for (auto& p : rep.viol) {
            v.push_back({ p.key, p.msg.substr(0, 1500) });
        }
        json j = { { "d", i }, { "n", rep.n }, { "g", rep.sigs }, { "v", v } };
        if (!rep.sample.is_null()) j["x"] = rep.sample;
        if (!rep.inconclusive.empty()) j["i"] = rep.inconclusive;
        line(j);
    }
    line({ { "end", true } });
    close(fd);
    return 0;
}

// a directory that exists for the life of the object
struct TempDir
{
    fs::path p;
    TempDir(const Args& a, uint64_t i)
    {
        p = fs::path(a.scratch) / ("c" + std::to_string(i) + "." + std::to_string(getpid()));
        fs::remove_all(p);
        fs::create_directories(p);
    }
    ~TempDir()
    {
        std::error_code ec;
        fs::remove_all(p, ec);
    }
    std::string operator/(const std::string& s) const { return (p / s).string(); }
};
} // namespace hx
