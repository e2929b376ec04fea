// Each level of a multiscale store follows from the stored pixels of the level below.
#include "drive.hh"
#include "reg.hh"
using namespace hx;

namespace {
template<typename T>
std::string
compare_level(const uint8_t* lo, size_t w, size_t h, const uint8_t* hi, uint64_t frames, CaseReport& rep)
{
    const size_t W = (w + 1) / 2, H = (h + 1) / 2;
    auto at = [](const uint8_t* p, size_t i) {
        T v;
        memcpy(&v, p + i * sizeof(T), sizeof(T));
        return v;
    };
    uint64_t checked = 0, skipped = 0;
    std::string bad;
    for (uint64_t f = 0; f < frames && bad.empty(); ++f) {
        const uint8_t* a = lo + 2 * f * w * h * sizeof(T);
        const uint8_t* b = a + w * h * sizeof(T);
        const uint8_t* d = hi + f * W * H * sizeof(T);
        for (size_t y = 0; y < H && bad.empty(); ++y) {
            for (size_t x = 0; x < W; ++x) {
                const size_t y1 = std::min(2 * y + 2, h), x1 = std::min(2 * x + 2, w);
                const T got = at(d, y * W + x);
                bool ok = true;
                std::ostringstream want;
                if constexpr (std::is_floating_point_v<T>) {
                    long double sum = 0, mag = 0;
                    int n = 0;
                    bool finite = true;
                    for (size_t j = 2 * y; j < y1; ++j) {
                        for (size_t i = 2 * x; i < x1; ++i) {
                            for (auto* p : { a, b }) {
                                const T v = at(p, j * w + i);
                                finite = finite && std::isfinite(v);
                                sum += v;
                                mag = std::max(mag, std::fabs((long double)v));
                                ++n;
                            }
                        }
                    }
                    if (!finite) {
                        ++skipped;
                        continue;
                    }
                    const long double tol = mag * 4 * std::numeric_limits<T>::epsilon() + 8 * (long double)std::numeric_limits<T>::denorm_min();
                    ok = std::isfinite(got) && std::fabs((long double)got - sum / n) <= tol;
                    want << (double)(sum / n);
                } else {
                    __int128 sum = 0;
                    int n = 0;
                    for (size_t j = 2 * y; j < y1; ++j) {
                        for (size_t i = 2 * x; i < x1; ++i) {
                            sum += (__int128)at(a, j * w + i) + (__int128)at(b, j * w + i);
                            n += 2;
                        }
                    }
                    __int128 e = (__int128)got * n - sum;
                    e = e < 0 ? -e : e;
                    // two roundings, of less than one each; a 64-bit mean may come from doubles
                    ok = e < (__int128)n * (n > 2 ? 2 : 1);
                    want << (long double)sum / n;
                }
                ++checked;
                if (!ok) {
                    std::ostringstream o;
                    o << "frame " << f << " pixel y=" << y << " x=" << x << " is " << +got << ", the mean of its pixels is " << want.str();
                    bad = o.str();
                    break;
                }
            }
        }
    }
    rep.count("pixels_checked", checked);
    rep.count("pixels_not_finite", skipped);
    return bad;
}

std::string
compare(ZarrDataType t, const uint8_t* lo, size_t w, size_t h, const uint8_t* hi, uint64_t frames, CaseReport& rep)
{
    switch (t) {
        case ZarrDataType_uint8: return compare_level<uint8_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_uint16: return compare_level<uint16_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_uint32: return compare_level<uint32_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_uint64: return compare_level<uint64_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_int8: return compare_level<int8_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_int16: return compare_level<int16_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_int32: return compare_level<int32_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_int64: return compare_level<int64_t>(lo, w, h, hi, frames, rep);
        case ZarrDataType_float32: return compare_level<float>(lo, w, h, hi, frames, rep);
        default: return compare_level<double>(lo, w, h, hi, frames, rep);
    }
}
} // namespace

// The pyramid has one level after another until, along some downsampled dimension, a whole level is less than
// the chunk of the level below, or nothing is left to halve.
static int
expected_levels(const Case& c)
{
    auto dims = c.dims;
    for (int n = 2;; ++n) {
        bool smaller_chunk = false, halved = false;
        for (auto& d : dims) {
            if (d.type == ZarrDimensionType_Channel || d.array == 0) {
                continue;
            }
            const uint32_t array = d.array / 2 + d.array % 2, chunk = std::min(d.chunk, array);
            smaller_chunk = smaller_chunk || chunk < d.chunk;
            halved = halved || array < d.array;
            d.array = array;
            d.chunk = chunk;
        }
        if (smaller_chunk || !halved) {
            return n;
        }
    }
}

HX_CASE(pyramid)
{
    GenOpts o;
    o.max_yx = index % 5 == 0 ? 200 : 40;
    o.max_dims = index % 4 == 0 ? 5 : 3;
    o.max_stream = 1 << 20;
    o.max_frames = 70;
    o.max_chunk_mem = 1 << 20;
    o.compressed_percent = 20;
    o.multiscale_percent = 100;
    o.dtype = (int)(index % ZarrDataTypeCount);
    Case c = gen_case(r, o);
    if (r.chance(40)) {
        c.frames = std::min<uint64_t>(r.range(0, 70), o.max_stream / c.frame_bytes());
    }
    if (r.chance(50)) {
        // many levels: small chunks in a larger frame
        const size_t nd = c.dims.size();
        for (size_t i = nd - 2; i < nd; ++i) {
            c.dims[i].chunk = (uint32_t)r.range(1, std::max<uint32_t>(1, c.dims[i].array / 6));
            c.dims[i].shard = c.version == 3 ? (uint32_t)r.range(1, 3) : 0;
        }
    }
    c.pattern = r.pick({ 0, 0, 1, 3, 3, 4, 5 });
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.pick({ 0, 1, 3, 4 }));
    if (cuts.size() > 4000) {
        cuts = gen_cuts(r, data.size(), c.frame_bytes(), 1);
    }
    auto out = stream_to_dir(c, td / "s.zarr", data, cuts, rep, "store");
    if (!out.ok) {
        return;
    }
    const Store& st = out.store;
    std::vector<Problem> pr;
    std::vector<Array> arrays;
    check_level0(c, st, c.frames, pr, &arrays);
    int levels = 0;
    if (auto j = parse_doc(st, c.version == 2 ? ".zattrs" : "meta/root.group.json", pr, "group-doc")) {
        try {
            const auto& at = c.version == 2 ? *j : j->at("attributes");
            levels = (int)at.at("multiscales").at(0).at("datasets").size();
        } catch (const std::exception& e) {
            pr.push_back({ "pyramid.datasets", e.what() });
        }
    }
    if (levels < 2 || levels > 40) {
        pr.push_back({ "pyramid.levels", std::to_string(levels) + " levels" });
        levels = std::min(levels, 40);
    } else if (levels != expected_levels(c)) {
        pr.push_back({ "pyramid.levels", std::to_string(levels) + " levels, expected " + std::to_string(expected_levels(c)) });
    }
    const size_t nd = c.dims.size();
    auto dims = c.dims; // of the level at hand
    for (int k = 1; k < levels && arrays.size() == (size_t)k; ++k) {
        const std::string ctx = "level " + std::to_string(k);
        auto prev = dims;
        uint64_t inner = 1;
        for (size_t i = 0; i < nd; ++i) {
            if (dims[i].type != ZarrDimensionType_Channel && dims[i].array) {
                dims[i].array = dims[i].array / 2 + dims[i].array % 2;
                dims[i].chunk = std::min(dims[i].chunk, dims[i].array);
            }
            if (i > 0 && i + 2 < nd) {
                inner *= dims[i].array;
            }
        }
        auto a = read_array(st, c.version, k, pr);
        if (!a) {
            break;
        }
        const uint64_t F = c.frames >> k;
        std::vector<uint64_t> shape{ ceil_div(F, inner) };
        for (size_t i = 1; i < nd; ++i) {
            shape.push_back(dims[i].array);
        }
        rep.count("levels_checked");
        if (a->shape != shape) {
            pr.push_back({ "pyramid.shape", ctx + " has shape " + json(a->shape).dump() + ", expected " + json(shape).dump() });
            break;
        }
        for (size_t i = 0; i < nd; ++i) {
            // the append dimension is unbounded, so its chunks may be clamped or not
            const bool ok = a->chunks[i] == dims[i].chunk || (i == 0 && a->chunks[i] == c.dims[0].chunk);
            if (!ok) {
                pr.push_back({ "pyramid.chunks", ctx + " has chunks " + json(a->chunks).dump() + ", expected " +
                                                   std::to_string(dims[i].chunk) + " along dimension " + std::to_string(i) });
            }
            if (c.version == 3 && (a->cps[i] == 0 || a->cps[i] > std::max(1u, prev[i].shard))) {
                pr.push_back({ "pyramid.shards", ctx + " has " + json(a->cps).dump() + " chunks per shard" });
            }
        }
        if (a->dtype != dtype_short(c.dtype)) {
            pr.push_back({ "pyramid.dtype", ctx + " has dtype " + a->dtype });
            break;
        }
        const Array& lo = arrays.back();
        const size_t w = prev[nd - 1].array, h = prev[nd - 2].array;
        const size_t fb = dims[nd - 1].array * (size_t)dims[nd - 2].array * c.itemsize();
        if (lo.data.size() < 2 * F * w * h * c.itemsize() || a->data.size() < F * fb) {
            pr.push_back({ "pyramid.frames", ctx + ": too few frames stored" });
            break;
        }
        auto bad = compare(c.dtype, lo.data.data(), w, h, a->data.data(), F, rep);
        if (!bad.empty()) {
            pr.push_back({ "pyramid.mean", ctx + ": " + bad });
        }
        for (size_t i = F * fb; i < a->data.size(); ++i) {
            if (a->data[i]) {
                pr.push_back({ "pyramid.fill", ctx + ": data after its last frame" });
                break;
            }
        }
        arrays.push_back(std::move(*a));
    }
    if (arrays.size() == (size_t)levels) {
        for (auto& k : stray_keys(st, c.version, arrays)) {
            pr.push_back({ "store.stray", "unexpected object " + k });
        }
    }
    rep.count("streams");
    rep.add(pr, "finished store");
    rep.sigs.push_back("L" + std::to_string(levels) + " d" + std::to_string(c.pattern) + " " + signature(c));
}

// Creation with multiscale on terminates, with a modest number of levels, whatever the sizes.
HX_CASE(pyramid_levels)
{
    GenOpts o;
    o.max_stream = 1 << 24;
    Case c;
    c.seed = r.next();
    c.version = r.pick({ 2, 3 });
    c.dtype = (ZarrDataType)r.range(0, 3);
    c.multiscale = true;
    int nd = (int)r.range(3, 5);
    for (int i = 0; i < nd; ++i) {
        Dim d;
        d.name = std::string(1, "tczyx"[5 - nd + i]);
        d.type = i >= nd - 2 ? ZarrDimensionType_Space : i == 0 ? r.pick({ ZarrDimensionType_Time, ZarrDimensionType_Channel })
                                                               : r.pick({ ZarrDimensionType_Channel, ZarrDimensionType_Space, ZarrDimensionType_Other });
        d.array = i == 0 ? (r.chance(50) ? 0 : (uint32_t)r.range(1, 5)) : (uint32_t)r.pick({ 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64 });
        d.chunk = (uint32_t)r.pick({ 1, 1, 1, 2, 3, 4, 8, 16 });
        d.shard = (uint32_t)r.pick({ 1, 1, 2, 3 });
        c.dims.push_back(d);
    }
    // all the files of a layer are open together: stay far below the limit on open files
    for (;;) {
        uint64_t files = 1;
        size_t most = 1;
        for (size_t i = 1; i < c.dims.size(); ++i) {
            const auto n = [&](size_t k) { return ceil_div(c.dims[k].array, c.dims[k].chunk); };
            files *= n(i);
            if (n(i) > n(most)) {
                most = i;
            }
        }
        if (files <= 2000) {
            break;
        }
        c.dims[most].chunk *= 2;
    }
    c.frames = r.pick({ 0, 1, 2, 4 });
    rep.sample = case_json(c);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto out = stream_to_dir(c, td / "s.zarr", data, gen_cuts(r, data.size(), c.frame_bytes(), 1), rep, "store");
    if (!out.ok) {
        return;
    }
    int levels = 0;
    for (auto& [k, v] : out.store) {
        auto tail = c.version == 2 ? std::string("/.zarray") : std::string(".array.json");
        levels += k.size() > tail.size() && k.substr(k.size() - tail.size()) == tail;
    }
    if (levels < 2 || levels > 40) {
        rep.bad("pyramid.levels", std::to_string(levels) + " levels");
    } else if (levels != expected_levels(c)) {
        rep.bad("pyramid.levels", std::to_string(levels) + " levels, expected " + std::to_string(expected_levels(c)));
    }
    rep.count("levels", (uint64_t)levels);
    rep.count("streams");
    rep.sigs.push_back("L" + std::to_string(levels) + " " + signature(c));
}
