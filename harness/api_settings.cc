// Which settings are accepted, and what a rejection leaves behind; the C API under arguments of any kind.
#include "drive.hh"
#include "ffs.hh"
#include "perturb.hh"
#include "reg.hh"
#include "s3common.hh"
#include "snap.hh"
using namespace hx;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define AZV_UNDER_ASAN 1
#endif
#endif

namespace {
#ifdef AZV_UNDER_ASAN
constexpr bool under_asan = true; // its operator new ends the process instead of throwing
#else
constexpr bool under_asan = false;
#endif

// Settings that can be spoiled field by field, owning everything they point to.
struct Raw
{
    ZarrStreamSettings s{};
    ZarrS3Settings s3{};
    ZarrCompressionSettings comp{};
    std::vector<ZarrDimensionProperties> dims;
    std::deque<std::string> strings;
    const char* str(const std::string& v) { return strings.emplace_back(v).c_str(); }
    void sync()
    {
        s.dimensions = dims.data();
        s.dimension_count = dims.size();
    }
};

void
fill(Raw& w, const Case& c, const std::string& path, bool s3)
{
    w.s.store_path = w.str(path);
    w.s.custom_metadata = c.has_custom ? w.str(c.custom) : nullptr;
    for (auto& d : c.dims) {
        w.dims.push_back({ w.str(d.name), d.type, d.array, d.chunk, d.shard });
    }
    w.sync();
    w.s.multiscale = c.multiscale;
    w.s.data_type = c.dtype;
    w.s.version = (ZarrVersion)c.version;
    if (c.compressed) {
        w.comp = { (ZarrCompressor)c.compressor, (ZarrCompressionCodec)c.codec, (uint8_t)c.level, (uint8_t)c.shuffle };
        w.s.compression_settings = &w.comp;
    }
    if (s3) {
        w.s3 = { "http://localhost:9000", "az-bucket", "user", "secret-key" };
        w.s.s3_settings = &w.s3;
    }
}

Case
small_case(Rng& r)
{
    GenOpts o;
    o.max_yx = 9;
    o.max_dims = 5;
    o.max_chunks = 20;
    o.max_stream = 16 << 10;
    o.max_frames = 8;
    o.compressed_percent = 60;
    o.multiscale_percent = 20;
    return gen_case(r, o);
}

struct Spoiler
{
    const char* name;
    std::function<bool(Raw&, Rng&)> apply; // false: does not apply to these settings
};

const std::vector<std::string> blanks = { "", " ", "   ", "\t", " \n ", "\r\n" };

// blanks around a value are not part of it
std::string
padded(const std::string& v, Rng& r)
{
    const int sides = (int)r.range(0, 5);
    return (sides & 1 ? blanks[r.range(1, blanks.size() - 1)] : "") + v + (sides & 2 ? blanks[r.range(1, blanks.size() - 1)] : "");
}

const std::vector<Spoiler>&
spoilers()
{
    static const std::vector<Spoiler> all = {
        { "version", [](Raw& w, Rng& r) { w.s.version = (ZarrVersion)r.pick({ 0, 1, 4, 5, 100, 255, 256, 258, 1 << 30, -1, -2 }); return true; } },
        { "data_type",
          [](Raw& w, Rng& r) {
              w.s.data_type = (ZarrDataType)r.pick({ (int)ZarrDataTypeCount, (int)ZarrDataTypeCount + 1, 100, 256, -1, 1 << 30 });
              return true;
          } },
        { "path.null", [](Raw& w, Rng&) { w.s.store_path = nullptr; return true; } },
        { "path.blank", [](Raw& w, Rng& r) { w.s.store_path = w.str(r.pick(blanks)); return true; } },
        { "parent.missing",
          [](Raw& w, Rng& r) {
              if (w.s.s3_settings) return false;
              std::string p = w.s.store_path;
              w.s.store_path = w.str(padded(p.substr(0, p.rfind('/')) + r.pick<std::string>({ "/absent/s.zarr", "/absent/deeper/s.zarr", "/broken-link/s.zarr" }), r));
              return true;
          } },
        { "parent.nameless", // nothing that could be replaced
          [](Raw& w, Rng& r) {
              if (w.s.s3_settings) return false;
              std::string p = w.s.store_path;
              w.s.store_path = w.str(padded(p.substr(0, p.rfind('/')) + r.pick<std::string>({ "/sibling/.", "/sibling/..", "/s.zarr/.", "/s.zarr/..", "/s.zarr/./", "/sibling/../", "/sibling/deep/../..", "/." }), r));
              return true;
          } },
        { "parent.file",
          [](Raw& w, Rng& r) {
              if (w.s.s3_settings) return false;
              std::string p = w.s.store_path;
              w.s.store_path = w.str(padded(p.substr(0, p.rfind('/')) + r.pick<std::string>({ "/a-file/s.zarr", "/file-link/s.zarr" }), r));
              return true;
          } },
        { "parent.readonly",
          [](Raw& w, Rng& r) {
              if (w.s.s3_settings) return false;
              std::string p = w.s.store_path;
              w.s.store_path = w.str(padded(p.substr(0, p.rfind('/')) + r.pick<std::string>({ "/readonly/s.zarr", "/readonly/old.zarr", "/readonly/old.zarr/", "/readonly/old.zarr//", "/readonly-link/new.zarr" }), r));
              return true;
          } },
        { "compressor",
          [](Raw& w, Rng& r) {
              w.s.compression_settings = &w.comp;
              w.comp = { (ZarrCompressor)r.pick({ (int)ZarrCompressorCount, 3, 77, 256, -1 }), ZarrCompressionCodec_BloscLZ4, 1, 0 };
              return true;
          } },
        { "codec",
          [](Raw& w, Rng& r) {
              w.s.compression_settings = &w.comp;
              w.comp = { ZarrCompressor_Blosc1, (ZarrCompressionCodec)r.pick({ (int)ZarrCompressionCodecCount, 4, 99, 257, -1 }), 1, 0 };
              return true;
          } },
        { "codec.missing",
          [](Raw& w, Rng& r) {
              w.s.compression_settings = &w.comp;
              w.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_None, (uint8_t)r.range(0, 9), (uint8_t)r.range(0, 2) };
              return true;
          } },
        { "level",
          [](Raw& w, Rng& r) {
              w.s.compression_settings = &w.comp;
              w.comp = { ZarrCompressor_Blosc1, r.pick({ ZarrCompressionCodec_BloscLZ4, ZarrCompressionCodec_BloscZstd }),
                         (uint8_t)r.pick({ 10, 11, 22, 127, 128, 255 }), (uint8_t)r.range(0, 2) };
              return true;
          } },
        { "shuffle",
          [](Raw& w, Rng& r) {
              w.s.compression_settings = &w.comp;
              w.comp = { ZarrCompressor_Blosc1, r.pick({ ZarrCompressionCodec_BloscLZ4, ZarrCompressionCodec_BloscZstd }), (uint8_t)r.range(0, 9),
                         (uint8_t)r.pick({ 3, 4, 128, 254, 255 }) };
              return true;
          } },
        { "custom",
          [](Raw& w, Rng& r) {
              w.s.custom_metadata = w.str(r.pick<std::string>({ "{", "}", "{\"a\":}", "[1,", "[1,]", "{\"a\":1,}", "nul", "{\"a\":1} x", "{'a':1}", "{a:1}", "\"open",
                                                                "{\"a\":1}{\"b\":2}", "01", "+1", "\"\x01\"", "\"\xff\xfe\"", "{\"a\" 1}", "text", "// only a comment",
                                                                "{\"k\": tru}", "{/* open", "[1 2]", "\"\\x\"", "\"\\ud800\"", "-", "1e" }));
              return true;
          } },
        { "dims.null", [](Raw& w, Rng& r) { w.s.dimensions = nullptr; if (r.chance(50)) w.s.dimension_count = r.pick({ 0, 3, 5 }); return true; } },
        { "dims.few",
          [](Raw& w, Rng& r) {
              const size_t n = r.pick({ 0, 1, 2 });
              if (r.chance(50)) {
                  w.s.dimension_count = n; // the array is longer
              } else {
                  w.dims.erase(w.dims.begin(), w.dims.end() - (long)n);
                  w.sync();
              }
              return true;
          } },
        { "last.not-space",
          [](Raw& w, Rng& r) {
              w.dims[w.dims.size() - (size_t)r.range(1, 2)].type = r.pick({ ZarrDimensionType_Channel, ZarrDimensionType_Time, ZarrDimensionType_Other });
              return true;
          } },
        { "dim.name",
          [](Raw& w, Rng& r) {
              w.dims[r.next() % w.dims.size()].name = r.chance(40) ? nullptr : w.str(r.pick(blanks));
              return true;
          } },
        { "dim.type",
          [](Raw& w, Rng& r) {
              const auto v = r.pick({ (int)ZarrDimensionTypeCount, 5, 99, 256, -1 }); auto& d = w.dims[r.next() % w.dims.size()]; memcpy(&d.type, &v, sizeof v);
              return true;
          } },
        { "dim.array", [](Raw& w, Rng& r) { w.dims[r.range(1, w.dims.size() - 1)].array_size_px = 0; return true; } },
        { "dim.chunk", [](Raw& w, Rng& r) { w.dims[r.next() % w.dims.size()].chunk_size_px = 0; return true; } },
        { "dim.shard",
          [](Raw& w, Rng& r) {
              if (w.s.version != ZarrVersion_3) return false;
              w.dims[r.next() % w.dims.size()].shard_size_chunks = 0;
              return true;
          } },
        { "s3.null",
          [](Raw& w, Rng& r) {
              if (!w.s.s3_settings) return false;
              (r.pick({ &w.s3.endpoint, &w.s3.bucket_name, &w.s3.access_key_id, &w.s3.secret_access_key }))[0] = nullptr;
              return true;
          } },
        { "s3.blank",
          [](Raw& w, Rng& r) {
              if (!w.s.s3_settings) return false;
              (r.pick({ &w.s3.endpoint, &w.s3.bucket_name, &w.s3.access_key_id, &w.s3.secret_access_key }))[0] = w.str(r.pick(blanks));
              return true;
          } },
        { "s3.bucket-length",
          [](Raw& w, Rng& r) {
              if (!w.s.s3_settings) return false;
              std::string name = r.pick<std::string>({ "ab", "a", std::string(64, 'b'), std::string(65, 'b'), std::string(300, 'b') });
              if (r.chance(50)) { // blanks around the name are not part of it
                  const std::string pad = blanks[1 + r.next() % 3];
                  for (auto n = r.range(1, 4); n > 0 || name.size() < 3; n -= n > 0) {
                      name = r.chance(50) ? pad + name : name + pad;
                  }
              }
              w.s3.bucket_name = w.str(name);
              return true;
          } },
    };
    return all;
}

// What is at the place of the store before, besides things the settings may point to by mistake.
void
furnish(const TempDir& td, Rng& r, int state)
{
    const auto& d = td.p;
    std::ofstream(d / "a-file") << "precious";
    fs::create_directories(d / "sibling/deep");
    std::ofstream(d / "sibling/deep/f") << "precious";
    fs::create_directory(d / "readonly");
    fs::create_directory(d / "readonly/old.zarr");
    std::ofstream(d / "readonly/old.zarr/.zgroup") << "{\"zarr_format\": 2}";
    fs::permissions(d / "readonly", fs::perms::owner_read | fs::perms::owner_exec | fs::perms::group_read | fs::perms::group_exec |
                                      fs::perms::others_read | fs::perms::others_exec);
    fs::create_symlink("nowhere", d / "broken-link");
    fs::create_symlink("a-file", d / "file-link");
    fs::create_symlink("readonly", d / "readonly-link");
    switch (state) {
        case 1: fs::create_directory(d / "s.zarr"); break;
        case 2:
            fs::create_directories(d / "s.zarr/0/0");
            std::ofstream(d / "s.zarr/.zgroup") << "{\"zarr_format\": 2}";
            std::ofstream(d / "s.zarr/0/.zarray") << "{}";
            std::ofstream(d / "s.zarr/0/0/0") << std::string(r.range(1, 5000), 'x');
            fs::create_symlink("../sibling", d / "s.zarr/link");
            break;
        case 3: std::ofstream(d / "s.zarr") << "a file in the way"; break;
        default: break;
    }
}

// valid settings may be at the edge of what is allowed
std::string
edge(Raw& w, Rng& r, const TempDir& td, Case& c, bool s3, std::string& where, const std::string& shared)
{
    switch (r.range(0, s3 ? 10 : 15)) {
        case 0: w.s.compression_settings = &w.comp;
            c.compressed = true, c.compressor = 1, c.codec = r.pick({ 1, 2 }), c.level = r.pick({ 0, 9 }), c.shuffle = r.pick({ 0, 1, 2 });
            w.comp = { ZarrCompressor_Blosc1, (ZarrCompressionCodec)c.codec, (uint8_t)c.level, (uint8_t)c.shuffle };
            return "compression limits";
        case 1: w.s.compression_settings = &w.comp;
            w.comp = { ZarrCompressor_None, r.pick({ ZarrCompressionCodec_None, ZarrCompressionCodec_BloscLZ4 }), (uint8_t)r.range(0, 9), (uint8_t)r.range(0, 2) };
            c.compressed = false;
            return "compressor none";
        case 2: w.s.custom_metadata = w.str(r.pick<std::string>({ "", "null", "0", "\"\"", "[]", "{}", "{\"a\":{\"a\":{\"a\":[[[]]]}}}", "\"\\u0000\"", "1e300" }));
            return "custom metadata";
        case 3:
            if (w.s.version == ZarrVersion_2) {
                for (size_t i = 0; i < c.dims.size(); ++i) {
                    w.dims[i].shard_size_chunks = c.dims[i].shard = 0;
                }
                return "no shards in V2";
            }
            return "";
        case 4: w.dims[0].array_size_px = c.dims[0].array = r.pick({ 0u, 1u, 1000000u, 0xffffffffu }); return "append size";
        case 5: {
            // many dimensions
            const size_t n = r.range(6, 40);
            std::vector<Dim> more;
            while (c.dims.size() + more.size() < n) {
                more.push_back({ "d" + std::to_string(more.size()), ZarrDimensionType_Other, 1, 1, 1 });
            }
            c.dims.insert(c.dims.begin() + 1, more.begin(), more.end());
            w.dims.clear();
            for (auto& d : c.dims) {
                w.dims.push_back({ w.str(d.name), d.type, d.array, d.chunk, d.shard });
            }
            w.sync();
            return "many dimensions";
        }
        case 6: w.dims[r.next() % w.dims.size()].name = w.str(r.pick<std::string>({ " x y ", "\xe6\x97\xa5", std::string(300, 'n'), "0", "/", "..", "\"" })); return "names";
        case 7: w.dims[0].type = c.dims[0].type = ZarrDimensionType_Space; return "all space";
        case 8:
            if (s3) {
                const std::string b = r.pick<std::string>({ "abc", " abc", std::string(63, 'b'), "  " + std::string(63, 'b') + "\n", " az-bucket ", "\taz-bucket\n" });
                w.s3.bucket_name = w.str(b);
                return "bucket";
            }
            return "";
        case 9: w.dims[w.dims.size() - 1].chunk_size_px = c.dims.back().chunk = c.dims.back().array + (uint32_t)r.range(0, 50); return "chunk above array";
        case 10: where = w.s.store_path, w.s.store_path = w.str(padded(where, r)); return "blanks around the path";
        case 11: {
            fs::create_directory_symlink("sibling", td.p / "sibling-link");
            w.s.store_path = w.str(where = td / "sibling-link/s.zarr");
            return "parent is a link";
        }
        case 12: w.s.store_path = w.str(where = td / "sibling/../s2.zarr"); return "dots in the path";
        case 13: {
            // made by the runner, belong to someone else
            const auto d = shared + r.pick<std::string>({ "/by-group", "/by-others" });
            if (!fs::exists(d)) {
                return "";
            }
            w.s.store_path = w.str(where = d + "/s.zarr");
            return "parent of someone else";
        }
        case 14:
            where = td / "s.zarr";
            w.s.store_path = w.str(where + r.pick<std::string>({ "/", "//", "/ \t", "///" }));
            return "separators after the path";
        default: {
            fs::permissions(td.p / "sibling", r.pick({ fs::perms::owner_all, fs::perms::owner_write | fs::perms::owner_exec }));
            w.s.store_path = w.str(where = td / "sibling/s.zarr");
            return "parent without group permissions";
        }
    }
}
} // namespace

HX_CASE(settings)
{
    svc_reset();
    for (auto b : { std::string("a"), std::string("ab"), std::string("abc"), std::string(63, 'b') }) {
        svc().add_bucket(b);
    }
    Case c = small_case(r);
    if (c.frames == 0) {
        c.frames = 1;
    }
    const bool s3 = r.chance(35);
    const int state = (int)r.range(0, 3);
    TempDir td(args, index);
    furnish(td, r, state);
    struct Unlock
    {
        fs::path p;
        ~Unlock()
        {
            std::error_code ec;
            fs::permissions(p / "readonly", fs::perms::owner_all, ec);
            fs::permissions(p / "sibling", fs::perms::owner_all, ec);
        }
    } unlock{ td.p };
    std::string where = s3 ? "pre/s.zarr" : td / "s.zarr";
    const bool valid = r.chance(25);
    LogCapture cap;
    const std::string buckets[] = { "az-bucket", "a", "ab", "abc", std::string(63, 'b') };
    if (s3) {
        // objects of an older store and of others
        Case old = c;
        old.version = 2;
        old.dims.resize(0);
        for (auto& d : c.dims) {
            old.dims.push_back(d);
        }
        S3Opts so;
        if (auto* st = create(old, r.pick<std::string>({ "pre/s.zarr", "other/s.zarr" }), &so)) {
            ZarrStream_destroy(st);
        }
    }
    if (valid) {
        Raw w;
        fill(w, c, where, s3);
        std::string what = r.chance(70) ? edge(w, r, td, c, s3, where, args.scratch) : "";
        rep.sample = { { "valid", case_json(c) }, { "edge", what }, { "s3", s3 } };
        auto* st = ZarrStream_create(&w.s);
        rep.count("accepted");
        if (!st) {
            rep.bad("settings.rejected", "valid settings (" + what + ", " + case_json(c).dump() + ") were rejected: " + cap.err().substr(0, 300));
        } else {
            auto data = stream_bytes(c, c.frames);
            size_t out = 0;
            auto code = ZarrStream_append(st, data.data(), data.size(), &out);
            ZarrStream_destroy(st);
            if (code != ZarrStatusCode_Success || out != data.size() || !cap.err().empty()) {
                rep.bad("settings.unusable", "accepted settings (" + what + ", " + case_json(c).dump() + ") cannot be streamed to: " + cap.err().substr(0, 300));
            } else {
                std::string bucket = w.s.s3_settings ? w.s3.bucket_name : "";
                bucket.erase(0, bucket.find_first_not_of(" \t\n"));
                bucket.erase(bucket.find_last_not_of(" \t\n") + 1);
                auto store = s3 ? strip_prefix(svc().objects(bucket), where) : load_dir(where);
                std::vector<Problem> pr;
                check_level0(c, store, c.frames, pr);
                rep.add(pr, "accepted (" + what + ")");
            }
        }
        rep.sigs.push_back("valid " + what + (s3 ? " s3" : "") + std::to_string(c.version));
        return;
    }
    // one or two faults
    Raw w;
    fill(w, c, where, s3);
    std::string what;
    int done = 0;
    const int n = r.chance(80) ? 1 : 2;
    if (r.chance(2)) {
        what = "null settings";
        done = n;
    }
    while (done < n) {
        auto& sp = r.pick(spoilers());
        // only the first of two may depend on the others being intact
        const std::string nm = sp.name;
        if (done && (nm.rfind("parent", 0) == 0 || nm.rfind("dim", 0) == 0 || nm == "last.not-space")) {
            continue;
        }
        if (sp.apply(w, r)) {
            what += (done++ ? " + " : "") + nm;
        }
    }
    rep.sample = { { "invalid", what }, { "base", case_json(c) }, { "s3", s3 }, { "existing", state } };
    const auto before = snapshot(td.p);
    std::map<std::string, std::map<std::string, std::string>> objects;
    for (auto& b : buckets) {
        objects[b] = svc().objects(b);
    }
    const auto uploads = svc().uploads().size();
    cap.clear();
    const ZarrStreamSettings copy = w.s;
    for (int k = 0; k < 2; ++k) {
        auto* st = ZarrStream_create(what == "null settings" ? nullptr : &w.s);
        rep.count("rejected");
        if (st) {
            rep.bad("settings.accepted", "invalid settings (" + what + ") were accepted");
            ZarrStream_destroy(st);
            break;
        }
        if (cap.err().empty()) {
            rep.bad("settings.silent", "invalid settings (" + what + ") were rejected without a word in the log");
        }
        cap.clear();
        auto diff = difference(before, snapshot(td.p));
        if (!diff.empty()) {
            rep.bad("settings.touched", "rejecting settings (" + what + ") changed the filesystem: " + diff);
        }
        for (auto& b : buckets) {
            if (objects[b] != svc().objects(b)) {
                rep.bad("settings.touched", "rejecting settings (" + what + ") changed the bucket");
            }
        }
        if (svc().uploads().size() != uploads) {
            rep.bad("settings.touched", "rejecting settings (" + what + ") opened an upload");
        }
    }
    if (memcmp(&copy, &w.s, sizeof copy)) {
        rep.bad("settings.modified", "rejecting settings (" + what + ") changed the caller's settings");
    }
    rep.sigs.push_back(what + (s3 ? " s3" : "") + std::to_string(c.version) + std::to_string(state));
}

// ------------------------------------------------------------------------------------------------------------ C12
namespace {
bool
known(ZarrStatusCode c)
{
    return (int)c >= 0 && c < ZarrStatusCodeCount;
}

std::string
odd_string(Rng& r, const TempDir& td)
{
    switch (r.range(0, 10)) {
        case 0: return "";
        case 1: return " ";
        case 2: return std::string(r.range(200, 6000), 'p');
        case 3: return "\xff\xfe\x01";
        case 4: return "{\"a\": [1, 2";
        case 5: return "{}";
        case 6: return td / ("x" + std::to_string(r.range(0, 3)));
        case 7: return td / std::string(r.range(1, 400), 'y');
        case 8: return td / "a/b/c/d";
        case 9: return "%s%n%d";
        default: {
            std::string s;
            for (size_t i = 0, n = r.range(1, 30); i < n; ++i) {
                s.push_back((char)r.range(1, 255));
            }
            // relative to the worker's own scratch directory: must not climb out of it
            std::replace(s.begin(), s.end(), '/', '_');
            std::replace(s.begin(), s.end(), '.', '_');
            return s;
        }
    }
}
} // namespace

HX_CASE(total)
{
    svc_reset();
    TempDir td(args, index);
    LogCapture cap;
    std::vector<std::string> history;
    auto say = [&](const std::string& s) {
        if (history.size() < 60) {
            history.push_back(s);
        }
    };
    auto expect = [&](bool ok, const char* key, const std::string& msg) {
        if (!ok) {
            rep.bad(key, msg + " after " + json(history).dump(-1, ' ', false, json::error_handler_t::replace).substr(0, 800));
        }
    };
    struct Open
    {
        ZarrStream* s;
        Case c;
        uint64_t seen = 0;
    };
    std::vector<Open> open;
    ZarrStreamSettings scratch_settings{};
    const int steps = (int)r.range(3, 25);
    bool armed = false;
    for (int k = 0; k < steps; ++k) {
        const int what = (int)r.range(0, 13);
        rep.count("calls");
        switch (what) {
            case 0: {
                const int lv = r.chance(60) ? (int)r.range(0, ZarrLogLevelCount - 1) : (int)r.pick({ (int)ZarrLogLevelCount, -1, 6, 100, 1 << 30, INT32_MIN });
                const auto was = Zarr_get_log_level();
                const auto code = Zarr_set_log_level((ZarrLogLevel)lv);
                say("set_log_level " + std::to_string(lv));
                if (lv >= 0 && lv < ZarrLogLevelCount) {
                    expect(code == ZarrStatusCode_Success && Zarr_get_log_level() == lv, "total.log-level", "log level " + std::to_string(lv) + " does not read back as set");
                } else {
                    expect(code != ZarrStatusCode_Success && known(code) && Zarr_get_log_level() == was, "total.log-level", "log level " + std::to_string(lv) + " was not refused");
                }
                break;
            }
            case 1: {
                std::set<std::string> seen;
                for (int i = 0; i < ZarrStatusCodeCount; ++i) {
                    auto* m = Zarr_get_status_message((ZarrStatusCode)i);
                    expect(m && *m && seen.insert(m).second, "total.message", "status " + std::to_string(i) + " has no message of its own");
                }
                std::string generic;
                for (int i : { (int)ZarrStatusCodeCount, -1, 1000, INT32_MIN, INT32_MAX, (int)r.range(ZarrStatusCodeCount, 1u << 30) }) {
                    auto* m = Zarr_get_status_message((ZarrStatusCode)i);
                    expect(m && *m && !seen.count(m) && (generic.empty() || generic == m), "total.message", "unknown status " + std::to_string(i) + " has message '" + (m ? m : "NULL") + "'");
                    generic = m ? m : "";
                }
                break;
            }
            case 2: {
                auto* v = Zarr_get_api_version();
                expect(v && *v, "total.version", "no API version");
                break;
            }
            case 3: {
                const size_t n = (under_asan || args.extra.count("--modest")) ? r.pick<size_t>({ 0, 1, 2, 3, 4, 17, 1000 }) : r.pick<size_t>({ 0, 1, 2, 3, 4, 17, 1000, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / sizeof(ZarrDimensionProperties) + 1,
                                                  SIZE_MAX / sizeof(ZarrDimensionProperties) + 3, (size_t)1 << 63, ((size_t)1 << 60) + 1 });
                const bool null = r.chance(20);
                const auto was = scratch_settings;
                const auto code = ZarrStreamSettings_create_dimension_array(null ? nullptr : &scratch_settings, n);
                say("create_dimension_array " + std::to_string(n) + (null ? " null" : ""));
                if (null || n < 3) {
                    expect(code == ZarrStatusCode_InvalidArgument, "total.dims", "create_dimension_array returned " + std::to_string(code));
                } else if (n <= 1000) {
                    expect(code == ZarrStatusCode_Success && scratch_settings.dimensions && scratch_settings.dimension_count == n, "total.dims", "create_dimension_array returned " + std::to_string(code));
                    if (code == ZarrStatusCode_Success && r.chance(50)) {
                        // nobody filled it in
                        const std::string p = td / "unfilled";
                        scratch_settings.store_path = p.c_str();
                        scratch_settings.version = r.pick({ ZarrVersion_2, ZarrVersion_3 });
                        auto* s = ZarrStream_create(&scratch_settings);
                        expect(s == nullptr, "total.unfilled", "a stream was created from dimensions never filled in");
                        ZarrStream_destroy(s);
                    }
                } else {
                    expect(code != ZarrStatusCode_Success && known(code), "total.dims", "create_dimension_array of " + std::to_string(n) + " returned " + std::to_string(code));
                }
                if (code != ZarrStatusCode_Success) {
                    // what there was is still usable: it can be destroyed
                    expect(scratch_settings.dimensions == was.dimensions || scratch_settings.dimensions == nullptr, "total.dims", "a failed create_dimension_array left another pointer");
                }
                break;
            }
            case 4: {
                const bool null = r.chance(20);
                if (!scratch_settings.dimensions && r.chance(50)) {
                    scratch_settings.dimension_count = r.pick<size_t>({ 1, 3, SIZE_MAX }); // a count of nothing
                }
                ZarrStreamSettings_destroy_dimension_array(null ? nullptr : &scratch_settings);
                say("destroy_dimension_array");
                expect(null || (!scratch_settings.dimensions && !scratch_settings.dimension_count), "total.dims", "destroy_dimension_array left the array in place");
                break;
            }
            case 5: ZarrStream_destroy(nullptr); say("destroy null"); break;
            case 6: {
                // any garbage
                Raw w;
                Case c = small_case(r);
                fill(w, c, td / ("g" + std::to_string(k)), r.chance(30));
                for (int i = (int)r.range(1, 5); i > 0; --i) {
                    switch (r.range(0, 13)) {
                        case 0: w.s.version = (ZarrVersion)r.range(0, 5); break;
                        case 1: w.s.data_type = (ZarrDataType)r.range(0, 12); break;
                        case 2: w.s.store_path = r.chance(20) ? nullptr : w.str(odd_string(r, td)); break;
                        case 3: w.s.custom_metadata = r.chance(20) ? nullptr : w.str(odd_string(r, td)); break;
                        case 4: w.s.compression_settings = &w.comp; w.comp = { (ZarrCompressor)r.range(0, 3), (ZarrCompressionCodec)r.range(0, 4), (uint8_t)r.range(0, 11), (uint8_t)r.range(0, 4) }; break;
                        case 5: w.s.dimension_count = r.range(0, w.dims.size()); break;
                        case 6: w.s.dimensions = r.chance(50) ? nullptr : w.dims.data(); break;
                        case 7: w.dims[r.next() % w.dims.size()].name = r.chance(30) ? nullptr : w.str(odd_string(r, td)); break;
                        case 8: w.dims[r.next() % w.dims.size()].type = (ZarrDimensionType)r.range(0, 6); break;
                        case 9: w.dims[r.next() % w.dims.size()].array_size_px = (uint32_t)r.range(0, 5); break;
                        case 10: w.dims[r.next() % w.dims.size()].chunk_size_px = (uint32_t)r.range(0, 5); break;
                        case 11: w.dims[r.next() % w.dims.size()].shard_size_chunks = (uint32_t)r.range(0, 5); break;
                        case 12: w.s.multiscale = r.chance(50); break;
                        default:
                            w.s.s3_settings = &w.s3;
                            w.s3.endpoint = r.chance(20) ? nullptr : r.chance(50) ? "http://localhost:9000" : w.str(odd_string(r, td));
                            w.s3.bucket_name = r.chance(20) ? nullptr : r.chance(50) ? "az-bucket" : w.str(odd_string(r, td));
                            w.s3.access_key_id = r.chance(20) ? nullptr : w.str(odd_string(r, td));
                            w.s3.secret_access_key = r.chance(20) ? nullptr : w.str(odd_string(r, td));
                            break;
                    }
                }
                // known trouble of the filesystem kind must stay inside the scratch directory
                if (!w.s.s3_settings && w.s.store_path && w.s.store_path[0] == '/' && std::string(w.s.store_path).rfind(td.p.string(), 0) != 0) {
                    break;
                }
                auto* s = ZarrStream_create(&w.s);
                say(std::string("create garbage") + (s ? " accepted" : ""));
                rep.count(s ? "garbage_accepted" : "garbage_rejected");
                if (s) {
                    Bytes some(r.range(0, 300), 7);
                    size_t out = 0;
                    auto code = ZarrStream_append(s, some.data() ? (void*)some.data() : (void*)&out, some.size(), &out);
                    expect(known(code), "total.status", "append returned " + std::to_string(code));
                    ZarrStream_destroy(s);
                }
                break;
            }
            case 7:
            case 8: {
                if (open.size() >= 3) {
                    break;
                }
                Case c = small_case(r);
                S3Opts so;
                const bool s3 = r.chance(30);
                auto* s = create(c, s3 ? "p/" + std::to_string(k) : td / ("o" + std::to_string(k)), s3 ? &so : nullptr);
                say(std::string("create") + (s ? "" : " refused"));
                expect(s || armed, "total.create", "no stream for valid settings");
                if (s) {
                    open.push_back({ s, c });
                }
                break;
            }
            case 9: {
                // nulls
                if (open.empty()) {
                    break;
                }
                auto& o = r.pick(open);
                Bytes some(o.c.frame_bytes(), 1);
                size_t out = 12345;
                const int which = (int)r.range(1, 7);
                auto code = ZarrStream_append(which & 1 ? nullptr : o.s, which & 2 ? nullptr : some.data(), r.pick<size_t>({ 0, 1, some.size() }), which & 4 ? nullptr : &out);
                say("append with nulls " + std::to_string(which));
                expect(code == ZarrStatusCode_InvalidArgument, "total.null", "append with a null argument returned " + std::to_string(code));
                break;
            }
            case 10: {
                if (open.empty()) {
                    break;
                }
                const size_t i = r.next() % open.size();
                ZarrStream_destroy(open[i].s);
                open.erase(open.begin() + (long)i);
                say("destroy");
                break;
            }
            case 11: {
                // the device starts or stops failing
                armed = !armed;
                if (armed) {
                    const int err = r.pick({ ENOSPC, EIO, EACCES, EMFILE });
                    const uint64_t from = r.range(0, 12);
                    fsf::arm(td.p.string(), [=](fsf::Op, const std::string&, uint64_t n) { return n >= from ? fsf::Action{ err } : fsf::Action{}; });
                    svc().set_fault([=](azs3::Op, uint64_t n, const std::string&) { return n >= from ? azs3::Fault::Error : azs3::Fault::None; });
                } else {
                    fsf::disarm();
                    svc().set_fault(nullptr);
                }
                say(armed ? "faults" : "no faults");
                rep.count("fault_switches");
                break;
            }
            default: {
                if (open.empty()) {
                    break;
                }
                auto& o = r.pick(open);
                Bytes some(r.chance(20) ? r.range(0, 5) : o.c.frame_bytes() * r.range(0, 9) + r.range(0, 3));
                const size_t bytes = some.size();
                some.resize(bytes + 1);
                size_t out = 0;
                auto code = ZarrStream_append(o.s, some.data(), bytes, &out);
                say("append " + std::to_string(bytes) + " -> " + std::to_string(code));
                expect(known(code), "total.status", "append returned " + std::to_string(code));
                expect(code != ZarrStatusCode_Success || out <= bytes, "total.count", "append of " + std::to_string(bytes) + " bytes reports " + std::to_string(out));
                rep.count(code == ZarrStatusCode_Success ? "appends_succeeded" : "appends_failed");
                break;
            }
        }
    }
    for (auto& o : open) {
        ZarrStream_destroy(o.s);
    }
    fsf::disarm();
    svc().set_fault(nullptr);
    ZarrStreamSettings_destroy_dimension_array(&scratch_settings);
    ZarrStreamSettings_destroy_dimension_array(&scratch_settings);
    Zarr_set_log_level(ZarrLogLevel_Info);
    rep.sample = history;
    rep.sigs.push_back(std::to_string(hash_str(json(history).dump(-1, ' ', false, json::error_handler_t::replace))));
}

// The system refuses to start threads.
HX_CASE(no_threads)
{
    svc_reset();
    TempDir td(args, index);
    LogCapture cap;
    Case c = small_case(r);
    const bool s3 = r.chance(30);
    const int allowed = (int)r.range(0, 6);
    S3Opts so;
    prt::limit_threads(allowed);
    auto* s = create(c, s3 ? "p/s" : td / "s.zarr", s3 ? &so : nullptr);
    const auto refused = prt::refused_threads();
    prt::limit_threads(-1);
    rep.sample = { { "allowed", allowed }, { "refused", refused }, { "case", case_json(c) } };
    rep.count("threads_refused", refused);
    rep.count(s ? "created" : "not_created");
    if (!s && !refused) {
        rep.bad("threads.create", "no stream although no thread was refused");
    }
    if (s) {
        auto data = stream_bytes(c, c.frames);
        size_t out = 0;
        auto code = ZarrStream_append(s, data.data() ? data.data() : (uint8_t*)&out, data.size(), &out);
        ZarrStream_destroy(s);
        if (code == ZarrStatusCode_Success && cap.err().empty()) {
            std::vector<Problem> pr;
            check_level0(c, s3 ? strip_prefix(svc().objects("az-bucket"), "p/s") : load_dir(td / "s.zarr"), c.frames, pr);
            rep.add(pr, "with " + std::to_string(refused) + " threads refused");
        }
    }
    rep.sigs.push_back(std::to_string(allowed) + (s3 ? "s3" : "fs") + std::to_string(refused > 0) + (s ? "c" : "n"));
}
