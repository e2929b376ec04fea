// Where frames, chunks and shards go, against positions computed directly from multi-indices in 128 bits.
#include "reg.hh"
#include "sink.creator.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"
#include <unordered_set>
using namespace hx;
using u128 = unsigned __int128;

namespace {
const size_t type_size[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };

struct Geo
{
    std::vector<ZarrDimension> d;
    ZarrDataType t;
    size_t nd() const { return d.size(); }
    u128 grid(size_t i) const { return ((u128)d[i].array_size_px + d[i].chunk_size_px - 1) / d[i].chunk_size_px; }
    u128 sgrid(size_t i) const { return (grid(i) + d[i].shard_size_chunks - 1) / d[i].shard_size_chunks; }
    u128 inner() const // frames per unit of the append dimension
    {
        u128 n = 1;
        for (size_t i = 1; i + 2 < nd(); ++i) {
            n *= d[i].array_size_px;
        }
        return n;
    }
    u128 chunks() const
    {
        u128 n = 1;
        for (size_t i = 1; i < nd(); ++i) {
            n *= grid(i);
        }
        return n;
    }
    u128 chunk_bytes() const
    {
        u128 n = type_size[t];
        for (auto& x : d) {
            n *= x.chunk_size_px;
        }
        return n;
    }
    u128 slots() const
    {
        u128 n = 1;
        for (auto& x : d) {
            n *= x.shard_size_chunks;
        }
        return n;
    }
    u128 shards() const
    {
        u128 n = 1;
        for (size_t i = 1; i < nd(); ++i) {
            n *= sgrid(i);
        }
        return n;
    }
    json sample() const
    {
        json j = json::array();
        for (auto& x : d) {
            j.push_back({ x.array_size_px, x.chunk_size_px, x.shard_size_chunks });
        }
        return { { "type", (int)t }, { "dims", j } };
    }
};

// sizes: 0 tiny (enumerated), 1 realistic, 2 large, 3 extreme
Geo
gen(Rng& r, int sizes)
{
    Geo g;
    g.t = (ZarrDataType)r.range(0, ZarrDataTypeCount - 1);
    const size_t nd = (size_t)r.range(3, sizes == 0 ? 6 : 8);
    auto logrand = [&](unsigned bits) -> uint32_t {
        const unsigned b = (unsigned)r.range(0, bits);
        uint64_t v = b == 0 ? 1 : (1ull << (b - 1)) + r.next() % (1ull << (b - 1));
        v += r.pick({ 0, 0, 0, 1 });
        return (uint32_t)std::clamp<uint64_t>(v, 1, 0xffffffffull);
    };
    static const unsigned bits[] = { 2, 10, 20, 32 };
    for (size_t i = 0; i < nd; ++i) {
        ZarrDimension x;
        x.name = "d" + std::to_string(i);
        x.type = i + 2 >= nd ? ZarrDimensionType_Space : ZarrDimensionType_Other;
        if (sizes == 0) {
            x.array_size_px = (uint32_t)r.range(1, i + 2 >= nd ? 9 : 5);
            x.chunk_size_px = (uint32_t)r.range(1, x.array_size_px + 1);
        } else {
            x.array_size_px = logrand(i + 2 >= nd ? std::min(bits[sizes], 32u) : bits[sizes] / 2 + (r.chance(20) ? bits[sizes] / 2 : 0));
            x.chunk_size_px = r.chance(25) ? x.array_size_px : logrand(bits[sizes]);
            if (r.chance(60)) {
                x.chunk_size_px = 1 + x.chunk_size_px % x.array_size_px;
            }
        }
        if (i == 0) {
            if (r.chance(50)) {
                x.array_size_px = 0;
            }
            if (r.chance(70)) {
                x.chunk_size_px = std::min<uint32_t>(x.chunk_size_px, (uint32_t)r.range(1, 64));
            }
        }
        const uint64_t n = std::max<uint64_t>(1, ((uint64_t)x.array_size_px + x.chunk_size_px - 1) / x.chunk_size_px);
        x.shard_size_chunks = i == 0 ? (uint32_t)r.range(1, 9) : (uint32_t)std::min<uint64_t>(0xffffffffu, r.chance(20) ? n + r.range(0, 3) : 1 + r.next() % n);
        g.d.push_back(x);
    }
    return g;
}

bool
fits(u128 v, u128 lim)
{
    return v <= lim;
}
std::string
str(u128 v)
{
    std::string s;
    do {
        s.insert(s.begin(), (char)('0' + (int)(v % 10)));
        v /= 10;
    } while (v);
    return s;
}

template<typename F>
void
exact_or_refused(CaseReport& rep, const char* what, u128 want, u128 limit, F f)
{
    try {
        const u128 got = (u128)f();
        if (got != want) {
            rep.bad("dims.count", std::string(what) + " is " + str(got) + ", exactly it is " + str(want));
        }
        rep.count("counts_checked");
    } catch (const std::exception& e) {
        if (fits(want, limit)) {
            rep.bad("dims.count", std::string(what) + " = " + str(want) + " refused: " + e.what());
        }
        rep.count("counts_refused");
    }
}

struct Place
{
    std::vector<u128> lattice; // chunk index along each dimension before the last two
    u128 group = 0, offset = 0;
};

// the position of a frame, from its multi-index
Place
place(const Geo& g, u128 f)
{
    const size_t nd = g.nd(), n = nd - 2;
    std::vector<u128> idx(n);
    for (size_t i = n - 1; i > 0; --i) {
        idx[i] = f % g.d[i].array_size_px;
        f /= g.d[i].array_size_px;
    }
    idx[0] = f;
    Place p;
    for (size_t i = 0; i < n; ++i) {
        p.lattice.push_back(idx[i] / g.d[i].chunk_size_px);
        p.offset = p.offset * g.d[i].chunk_size_px + idx[i] % g.d[i].chunk_size_px;
    }
    for (size_t i = 1; i < nd; ++i) {
        p.group = p.group * g.grid(i) + (i < n ? p.lattice[i] : 0);
    }
    p.offset *= (u128)g.d[nd - 1].chunk_size_px * g.d[nd - 2].chunk_size_px * type_size[g.t];
    return p;
}
constexpr u128 U32 = 0xffffffffull, U64 = ~0ull;
} // namespace

HX_CASE(dims_place)
{
    const int sizes = (int)(index % 4);
    Geo g = gen(r, sizes);
    rep.sample = g.sample();
    ArrayDimensions dims(std::vector<ZarrDimension>(g.d), g.t);
    const size_t nd = g.nd();
    rep.sigs.push_back(std::to_string(sizes) + "/" + std::to_string(nd) + "/" + std::to_string(type_size[g.t]) +
                       (fits(g.chunk_bytes(), U32) ? "s" : "L") + (fits(g.chunks(), U32) ? "s" : "L") + (g.d[0].array_size_px ? "f" : "u") +
                       std::to_string(g.inner() > U32));
    for (size_t i = 0; i < nd; ++i) {
        exact_or_refused(rep, "chunks along a dimension", g.grid(i), U32, [&] { return zarr::chunks_along_dimension(g.d[i]); });
        exact_or_refused(rep, "shards along a dimension", g.sgrid(i), U32, [&] { return zarr::shards_along_dimension(g.d[i]); });
    }
    exact_or_refused(rep, "number of chunks in memory", g.chunks(), U32, [&] { return dims.number_of_chunks_in_memory(); });
    exact_or_refused(rep, "bytes per chunk", g.chunk_bytes(), U64, [&] { return dims.bytes_per_chunk(); });
    exact_or_refused(rep, "bytes per frame", (u128)g.d[nd - 1].array_size_px * g.d[nd - 2].array_size_px * type_size[g.t], U64,
                     [&] { return zarr::bytes_of_frame(dims, g.t); });
    if (!fits(g.chunk_bytes(), U64 >> 1) || !fits(g.chunks(), U32) || !fits(g.inner(), U64 >> 1) ||
        !fits(g.inner() * g.d[0].chunk_size_px, U64 >> 1)) {
        rep.count("geometries_beyond_memory");
        return;
    }
    const u128 layer = g.inner() * g.d[0].chunk_size_px;
    // frames: everything when small, else the edges of everything and random ones, early and late in the acquisition
    std::vector<uint64_t> frames;
    const bool all = layer <= 3000;
    const u128 max_frame = std::min<u128>(U64 >> 1, layer * U32); // the chunk index of the append dimension must fit its type
    if (all) {
        const u128 late = max_frame / layer > 2 ? (u128)r.next() % (max_frame / layer - 1) : 0;
        for (u128 base : { (u128)0, layer, late * layer }) {
            for (u128 f = 0; f < layer && base + f < max_frame; ++f) {
                frames.push_back((uint64_t)(base + f));
            }
        }
    } else {
        std::vector<u128> edges{ layer };
        u128 s = 1;
        for (size_t i = nd - 3; i > 0; --i) {
            edges.push_back(s * g.d[i].chunk_size_px);
            s *= g.d[i].array_size_px;
            edges.push_back(s);
        }
        for (auto e : edges) {
            for (u128 k : { (u128)1, (u128)2, (u128)(1 + r.next() % 1000), (u128)U32, (u128)U32 + 1 }) {
                for (int o = -1; o <= 1; ++o) {
                    const u128 f = e * k + o;
                    if (f < max_frame) {
                        frames.push_back((uint64_t)f);
                    }
                }
            }
        }
        for (int k = 0; k < 100; ++k) {
            frames.push_back((uint64_t)((u128)r.next() % max_frame));
            frames.push_back((uint64_t)((u128)r.next() % std::min<u128>(max_frame, layer * 3)));
        }
        for (int b = 31; b <= 33; ++b) {
            for (int o = -2; o <= 2; ++o) {
                const u128 f = ((u128)1 << b) + o;
                if (f < max_frame) {
                    frames.push_back((uint64_t)f);
                }
            }
        }
    }
    const u128 tile = (u128)g.d[nd - 1].chunk_size_px * g.d[nd - 2].chunk_size_px * type_size[g.t];
    const u128 per_group = g.grid(nd - 1) * g.grid(nd - 2);
    std::set<std::pair<uint64_t, uint64_t>> seen;
    u128 seen_layer = ~(u128)0;
    for (auto f : frames) {
        const Place want = place(g, f);
        for (size_t i = 0; i + 2 < nd; ++i) {
            const uint64_t got = dims.chunk_lattice_index(f, (uint32_t)i);
            if (got != want.lattice[i]) {
                rep.bad("dims.lattice", "frame " + std::to_string(f) + " is in chunk " + std::to_string(got) + " of dimension " + std::to_string(i) +
                                          ", exactly it is " + str(want.lattice[i]));
                return;
            }
        }
        const uint64_t group = dims.tile_group_offset(f), off = dims.chunk_internal_offset(f);
        if (group != want.group || off != want.offset) {
            rep.bad("dims.place", "frame " + std::to_string(f) + " goes to chunk " + std::to_string(group) + " offset " + std::to_string(off) +
                                    ", exactly it is chunk " + str(want.group) + " offset " + str(want.offset));
            return;
        }
        if (group + per_group > g.chunks() || off + tile > g.chunk_bytes()) {
            rep.bad("dims.bounds", "frame " + std::to_string(f) + " goes to chunk " + std::to_string(group) + " offset " + std::to_string(off) +
                                     " beyond the end");
            return;
        }
        if (all) {
            if (f / layer != seen_layer) {
                seen_layer = f / layer;
                seen.clear();
            }
            if (!seen.insert({ group, off }).second) {
                rep.bad("dims.collision", "frame " + std::to_string(f) + " goes where another frame of its layer is");
                return;
            }
        }
        rep.count("frames_placed");
    }
    rep.count("geometries");
    rep.count(all ? "layers_enumerated" : "layers_sampled");
}

HX_CASE(dims_shard)
{
    const int sizes = (int)(index % 4);
    Geo g = gen(r, sizes);
    rep.sample = g.sample();
    ArrayDimensions dims(std::vector<ZarrDimension>(g.d), g.t);
    const size_t nd = g.nd();
    rep.sigs.push_back(std::to_string(sizes) + "/" + std::to_string(nd) + (fits(g.slots(), U32) ? "s" : "L") + (fits(g.shards(), U32) ? "s" : "L") +
                       (g.shards() == 1 ? "one" : "many") + std::to_string(g.d[0].shard_size_chunks > 1));
    exact_or_refused(rep, "number of shards", g.shards(), U32, [&] { return dims.number_of_shards(); });
    exact_or_refused(rep, "chunks per shard", g.slots(), U32, [&] { return dims.chunks_per_shard(); });
    exact_or_refused(rep, "number of chunks in memory", g.chunks(), U32, [&] { return dims.number_of_chunks_in_memory(); });
    if (!fits(g.chunks() * g.d[0].shard_size_chunks, U32) || !fits(g.slots(), U32) || !fits(g.shards(), U32)) {
        rep.count("geometries_beyond_memory");
        return;
    }
    const uint64_t per_layer = (uint64_t)g.chunks(), total = per_layer * g.d[0].shard_size_chunks;
    const bool all = total <= 6000;
    std::vector<uint64_t> chunks;
    if (all) {
        for (uint64_t c = 0; c < total; ++c) {
            chunks.push_back(c);
        }
    } else {
        for (int k = 0; k < 200; ++k) {
            chunks.push_back(r.next() % total);
        }
        uint64_t stride = 1;
        for (size_t i = nd - 1; i > 0; --i) {
            stride *= (uint64_t)g.grid(i);
            for (uint64_t k : { 1ull, 2ull, 7ull }) {
                for (int o = -1; o <= 1; ++o) {
                    chunks.push_back((stride * k + o) % total);
                }
            }
        }
        chunks.push_back(total - 1);
    }
    std::unordered_set<uint64_t> seen;
    for (auto c : chunks) {
        u128 rest = c, shard = 0, slot = 0;
        std::vector<u128> idx(nd);
        for (size_t i = nd - 1; i > 0; --i) {
            idx[i] = rest % g.grid(i);
            rest /= g.grid(i);
        }
        idx[0] = rest;
        for (size_t i = 0; i < nd; ++i) {
            const uint32_t s = g.d[i].shard_size_chunks;
            if (i) {
                shard = shard * g.sgrid(i) + idx[i] / s;
            }
            slot = slot * s + idx[i] % s;
        }
        // chunks are numbered within one layer for the shard, and through the layers of a shard for the slot
        const uint64_t got_shard = dims.shard_index_for_chunk((uint32_t)(c % per_layer)), got_slot = dims.shard_internal_index((uint32_t)c);
        if (got_shard != shard || got_slot != slot) {
            rep.bad("dims.shard", "chunk " + std::to_string(c) + " goes to shard " + std::to_string(got_shard) + " slot " + std::to_string(got_slot) +
                                    ", exactly it is shard " + str(shard) + " slot " + str(slot));
            return;
        }
        if (got_shard >= dims.number_of_shards() || got_slot >= dims.chunks_per_shard()) {
            rep.bad("dims.shard-bounds", "chunk " + std::to_string(c) + " goes to shard " + std::to_string(got_shard) + " slot " +
                                           std::to_string(got_slot));
            return;
        }
        if (all && !seen.insert(got_shard << 32 | got_slot).second) {
            rep.bad("dims.shard-collision", "chunk " + std::to_string(c) + " shares shard " + std::to_string(got_shard) + " slot " +
                                              std::to_string(got_slot));
            return;
        }
        rep.count("chunks_mapped");
    }
    rep.count("geometries");
    rep.count(all ? "grids_enumerated" : "grids_sampled");
}

// files are created in the order in which chunks and shards are numbered
HX_CASE(sink_order)
{
    Geo g = gen(r, 0);
    while (g.chunks() > 300) {
        g = gen(r, 0);
    }
    const bool shards = index % 2;
    rep.sample = g.sample();
    rep.sample["parts"] = shards ? "shards" : "chunks";
    TempDir td(args, index);
    ArrayDimensions dims(std::vector<ZarrDimension>(g.d), g.t);
    const std::string base = td / "base";
    fs::create_directories(base);
    uint64_t n = 0;
    {
        auto pool = std::make_shared<zarr::ThreadPool>((unsigned)r.range(1, 8), [](const std::string&) {});
        zarr::SinkCreator creator(pool, nullptr);
        std::vector<std::unique_ptr<zarr::Sink>> sinks;
        if (!creator.make_data_sinks(base, &dims, shards ? zarr::shards_along_dimension : zarr::chunks_along_dimension, sinks)) {
            rep.bad("sinks.failed", "the data sinks could not be created");
            return;
        }
        n = sinks.size();
        for (uint64_t i = 0; i < n; ++i) {
            std::string text = std::to_string(i);
            if (!sinks[i] || !sinks[i]->write(0, { (const std::byte*)text.data(), text.size() })) {
                rep.bad("sinks.failed", "sink " + text + " does not work");
                return;
            }
        }
        for (auto& s : sinks) {
            if (!zarr::finalize_sink(std::move(s))) {
                rep.bad("sinks.failed", "a sink could not be finalized");
            }
        }
    }
    if (n != (shards ? g.shards() : g.chunks())) {
        rep.bad("sinks.count", std::to_string(n) + " sinks, expected " + str(shards ? g.shards() : g.chunks()));
    }
    auto st = load_dir(base);
    if (st.size() != n) {
        rep.bad("sinks.count", std::to_string(st.size()) + " files for " + std::to_string(n) + " sinks");
    }
    for (uint64_t i = 0; i < n && rep.viol.size() < 4; ++i) {
        u128 rest = i;
        std::string key;
        for (size_t d = g.nd() - 1; d > 0; --d) {
            const u128 w = shards ? g.sgrid(d) : g.grid(d);
            key = "/" + str(rest % w) + key;
            rest /= w;
        }
        key = key.substr(1);
        if (!st.count(key) || st[key] != std::to_string(i)) {
            rep.bad("sinks.order", "file " + key + " holds part '" + (st.count(key) ? st[key] : "(missing)") + "', it is part " + std::to_string(i));
        }
        rep.count("files");
    }
    rep.sigs.push_back(std::string(shards ? "s" : "c") + std::to_string(g.nd()) + "/" + std::to_string(std::min<uint64_t>(n, 60)));
}
