// Every metadata document of a finished store against the settings that produced it.
#include "drive.hh"
#include <locale>
#include "reg.hh"
using namespace hx;

namespace {
std::string
utf8(uint32_t cp)
{
    std::string s;
    if (cp < 0x80) {
        s += (char)cp;
    } else if (cp < 0x800) {
        s += (char)(0xc0 | cp >> 6);
        s += (char)(0x80 | (cp & 63));
    } else if (cp < 0x10000) {
        s += (char)(0xe0 | cp >> 12);
        s += (char)(0x80 | (cp >> 6 & 63));
        s += (char)(0x80 | (cp & 63));
    } else {
        s += (char)(0xf0 | cp >> 18);
        s += (char)(0x80 | (cp >> 12 & 63));
        s += (char)(0x80 | (cp >> 6 & 63));
        s += (char)(0x80 | (cp & 63));
    }
    return s;
}

std::string
random_text(Rng& r, size_t max)
{
    std::string s;
    size_t n = r.range(1, max);
    for (size_t i = 0; i < n; ++i) {
        switch (r.range(0, 7)) {
            case 0: s += (char)r.range(1, 31); break;
            case 1: s += r.pick({ '"', '\\', '/', '\'', '{', '}', '[', ']', ':', ',', '%' }); break;
            case 2: s += utf8((uint32_t)r.range(0x80, 0x7ff)); break;
            case 3: s += utf8((uint32_t)r.range(0x800, 0xd7ff)); break;
            case 4: s += utf8((uint32_t)r.range(0xe000, 0xffff)); break;
            case 5: s += utf8((uint32_t)r.range(0x10000, 0x10ffff)); break;
            case 6: s += (char)r.range('a', 'z'); break;
            default: s += (char)r.range(32, 126);
        }
    }
    return s;
}

json
random_json(Rng& r, int depth)
{
    switch (r.range(0, depth > 0 ? 8 : 6)) {
        case 0: return nullptr;
        case 1: return r.chance(50);
        case 2: return (int64_t)r.next();
        case 3: return (uint64_t)r.next();
        case 4: return r.pick({ 0.1, -1e300, 5e-324, 3.141592653589793, 1e22, 123456789.123456789, -0.0 });
        case 5: return random_text(r, 12);
        case 6: return r.range(0, 1000);
        case 7: {
            json a = json::array();
            for (uint64_t i = r.range(0, 4); i > 0; --i) {
                a.push_back(random_json(r, depth - 1));
            }
            return a;
        }
        default: {
            json o = json::object();
            for (uint64_t i = r.range(0, 4); i > 0; --i) {
                o[random_text(r, 6)] = random_json(r, depth - 1);
            }
            return o;
        }
    }
}

std::string
custom_text(Rng& r)
{
    auto j = random_json(r, 4);
    auto s = j.dump(r.pick({ -1, 0, 1, 4 }), ' ', r.chance(50));
    if (r.chance(5)) {
        s = "{\"k\": \"" + std::string(r.range(1000, 100000), 'x') + "\"}";
    }
    if (r.chance(10)) {
        s = "// a comment\n" + s + " /* another */";
    }
    if (r.chance(15)) {
        s = r.pick<std::string>({ "  ", "\n", "\t\r\n" }) + s + r.pick<std::string>({ "", " ", "\n\n" });
    }
    if (r.chance(4)) {
        s = std::string(r.range(2, 200), '[');
        s += std::string(s.size(), ']');
    }
    return s;
}

const char*
type_name(ZarrDimensionType t)
{
    switch (t) {
        case ZarrDimensionType_Space: return "space";
        case ZarrDimensionType_Channel: return "channel";
        case ZarrDimensionType_Time: return "time";
        default: return "other";
    }
}

void
check_meta(const Case& c, const Store& st, CaseReport& rep)
{
    std::vector<Problem> pr;
    auto expect = [&](bool ok, const char* key, const std::string& msg) {
        rep.count("facts_checked");
        if (!ok) {
            pr.push_back({ key, msg });
        }
    };
    // every JSON-looking document is valid
    for (auto& [k, v] : st) {
        const auto name = k.substr(k.rfind('/') == std::string::npos ? 0 : k.rfind('/') + 1);
        if (name == ".zattrs" || name == ".zgroup" || name == ".zarray" || (name.size() > 5 && name.substr(name.size() - 5) == ".json")) {
            rep.count("documents");
            expect(!json::parse(v, nullptr, false).is_discarded(), "meta.not-json", k + " is not valid JSON: '" + v.substr(0, 100) + "'");
        }
    }
    std::optional<json> base, group, custom;
    json ms;
    if (c.version == 2) {
        base = parse_doc(st, ".zgroup", pr, "meta");
        group = parse_doc(st, ".zattrs", pr, "meta");
        custom = parse_doc(st, "acquire.json", pr, "meta");
        if (base) {
            expect(base->is_object() && base->value("zarr_format", json()) == 2, "meta.format", ".zgroup is " + base->dump());
        }
        ms = group && group->is_object() ? group->value("multiscales", json()) : json();
    } else {
        base = parse_doc(st, "zarr.json", pr, "meta");
        group = parse_doc(st, "meta/root.group.json", pr, "meta");
        custom = parse_doc(st, "meta/acquire.json", pr, "meta");
        if (base) {
            const std::string core = "https://purl.org/zarr/spec/protocol/core/3.0";
            expect(base->is_object() && base->value("zarr_format", json()) == core && base->value("metadata_encoding", json()) == core &&
                     base->value("metadata_key_suffix", json()) == ".json" && base->value("extensions", json()) == json::array(),
                   "meta.format", "zarr.json is " + base->dump());
        }
        ms = group && group->is_object() ? group->value("attributes", json::object()).value("multiscales", json()) : json();
    }
    if (custom) {
        const json want = c.has_custom ? json::parse(c.custom, nullptr, false, true) : json::object();
        expect(*custom == want && custom->dump() == want.dump(), "meta.custom",
               "custom metadata became " + custom->dump().substr(0, 300) + " from " + want.dump().substr(0, 300));
    }
    if (!ms.is_array() || ms.size() != 1 || !ms[0].is_object()) {
        expect(false, "meta.multiscales", "multiscales is " + ms.dump());
        rep.add(pr, "finished store");
        return;
    }
    const json& m = ms[0];
    expect(m.value("version", json()) == "0.4", "meta.ngff-version", m.value("version", json()).dump());
    const json axes = m.value("axes", json::array());
    expect(axes.is_array() && axes.size() == c.dims.size(), "meta.axes", "axes are " + axes.dump());
    for (size_t i = 0; axes.is_array() && i < axes.size() && i < c.dims.size(); ++i) {
        const bool last2 = i + 2 >= c.dims.size();
        json want = { { "name", c.dims[i].name }, { "type", type_name(c.dims[i].type) } };
        if (last2) {
            want["unit"] = "micrometer";
        }
        expect(axes[i] == want, "meta.axes", "axis " + std::to_string(i) + " is " + axes[i].dump() + ", expected " + want.dump());
    }
    const json sets = m.value("datasets", json::array());
    expect(sets.is_array() && (c.multiscale ? sets.size() >= 2 : sets.size() == 1), "meta.datasets",
           std::to_string(sets.size()) + " datasets, multiscale is " + (c.multiscale ? "on" : "off"));
    if (c.multiscale) {
        expect(m.value("type", json()) == "local_mean", "meta.downsampling-type", m.value("type", json()).dump());
    }
    for (size_t k = 0; sets.is_array() && k < sets.size(); ++k) {
        const json& d = sets[k];
        rep.count("datasets");
        expect(d.is_object() && d.value("path", json()) == std::to_string(k), "meta.dataset-path", d.dump());
        const json tr = d.value("coordinateTransformations", json());
        if (!tr.is_array() || tr.size() != 1 || tr[0].value("type", json()) != "scale" || !tr[0].contains("scale") ||
            !tr[0]["scale"].is_array() || tr[0]["scale"].size() != c.dims.size()) {
            expect(false, "meta.scale", "dataset " + d.dump());
        } else {
            const double s = std::pow(2.0, (double)k);
            json want = json::array(), recorded = json::array();
            for (size_t i = 0; i < c.dims.size(); ++i) {
                const bool edge = i == 0 || i + 2 >= c.dims.size();
                recorded.push_back(edge ? s : 1.0);
                want.push_back(edge || c.dims[i].type != ZarrDimensionType_Channel ? s : 1.0);
            }
            const json& got = tr[0]["scale"];
            if (got == want) {
                expect(true, "", "");
            } else if (c.dims.size() > 3 && k > 0 && got == recorded) {
                expect(false, "meta.scale-inner-dims", "the scale of dataset " + std::to_string(k) + " is " + got.dump() + ", expected " + want.dump());
            } else {
                expect(false, "meta.scale", "the scale of dataset " + std::to_string(k) + " is " + got.dump() + ", expected " + want.dump());
            }
        }
        std::vector<Problem> ap;
        // the array's own document: everything except the pixel data
        auto a = read_array(st, c.version, (int)k, ap);
        for (auto& p : ap) {
            if (p.key.rfind("array-meta", 0) == 0) {
                pr.push_back(p);
            }
        }
        if (!a) {
            continue;
        }
        expect(a->dtype == dtype_short(c.dtype), "meta.dtype", "level " + std::to_string(k) + " has dtype " + a->dtype);
        const bool want_z = c.compressed && c.compressor != ZarrCompressor_None;
        expect(a->compressed == want_z && (!want_z || (a->cname == (c.codec == 1 ? "lz4" : "zstd") && a->clevel == c.level && a->shuffle == c.shuffle)),
               "meta.compressor", "level " + std::to_string(k) + ": " + a->meta.dump());
        if (k == 0) {
            std::vector<uint64_t> shape{ ceil_div(c.frames, c.inner()) }, chunks, cps;
            for (size_t i = 0; i < c.dims.size(); ++i) {
                if (i) {
                    shape.push_back(c.dims[i].array);
                }
                chunks.push_back(c.dims[i].chunk);
                cps.push_back(c.dims[i].shard);
            }
            expect(a->shape == shape, "meta.shape", "shape " + json(a->shape).dump() + ", expected " + json(shape).dump());
            expect(a->chunks == chunks, "meta.chunks", "chunks " + json(a->chunks).dump() + ", expected " + json(chunks).dump());
            expect(c.version == 2 || a->cps == cps, "meta.shards", "chunks per shard " + json(a->cps).dump() + ", expected " + json(cps).dump());
        }
    }
    // no array without a dataset
    for (auto& [k, v] : st) {
        std::string lod;
        if (c.version == 2) {
            lod = k.substr(0, k.find('/'));
        } else if (k.rfind("meta/root/", 0) == 0) {
            lod = k.substr(10, k.find('.', 10) - 10);
        } else if (k.rfind("data/root/", 0) == 0) {
            lod = k.substr(10, k.find('/', 10) - 10);
        }
        if (!lod.empty() && lod.size() < 6 && lod.find_first_not_of("0123456789") == std::string::npos) {
            expect(std::stoul(lod) < sets.size(), "meta.unlisted-level", k + " belongs to no dataset");
        }
    }
    rep.add(pr, "finished store");
}
} // namespace

namespace {
// A C++ locale that writes 1024 as 1.0.2.4 and a half as 0,5.
struct Foreign
{
    struct Punct : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\1"; }
    };
    std::locale was;
    explicit Foreign(bool on)
    {
        if (on) {
            std::locale::global(std::locale(was, new Punct));
        }
    }
    ~Foreign() { std::locale::global(was); }
};
} // namespace

HX_CASE(metadata)
{
    GenOpts o;
    o.max_yx = 24;
    o.max_stream = 256 << 10;
    o.max_frames = 24;
    o.compressed_percent = 50;
    o.multiscale_percent = 35;
    Case c = gen_case(r, o);
    if (c.multiscale && r.chance(50)) {
        c.pattern = 5;
    }
    if (index % 16 == 9 && !c.multiscale) {
        stretch(c, (int)(7 + index / 16 % 6));
    }
    if (r.chance(60)) {
        std::set<std::string> names;
        for (auto& d : c.dims) {
            do {
                d.name = random_text(r, 10);
            } while (d.name.find_first_not_of(" \t\n\v\f\r") == std::string::npos || !names.insert(d.name).second);
        }
    }
    if (index % 16 == 11) { // long names
        for (auto& d : c.dims) {
            d.name += std::string(mix(c.seed + d.array) % 5000, 'n');
        }
    }
    c.has_custom = r.chance(80);
    if (c.has_custom) {
        do {
            c.custom = custom_text(r);
        } while (json::parse(c.custom, nullptr, false, true).is_discarded());
    }
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    const auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), 2);
    Outcome out;
    {
        // documents are written for everybody, whatever the locale of the program
        Foreign foreign(index % 6 == 1);
        out = stream_to_dir(c, td / "s.zarr", data, cuts, rep, "store");
    }
    if (out.ok) {
        check_meta(c, out.store, rep);
        rep.count("streams");
        rep.sigs.push_back(signature(c) + " cm" + std::to_string(c.has_custom ? std::min<size_t>(9, c.custom.size() / 10) : 10));
    }
}
