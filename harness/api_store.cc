// What a finished store must hold: whole-stream round trips, append framing, every stopping point.
#include "drive.hh"
#include "reg.hh"
using namespace hx;

namespace {
void
roundtrip(int version, const Args& args, uint64_t index, Rng& r, CaseReport& rep)
{
    GenOpts o;
    o.version = version;
    o.compressed_percent = 30;
    Case c = gen_case(r, o);
    if (r.chance(10)) {
        c.pattern = 4;
    }
    if (index % 16 == 9) {
        stretch(c, (int)(7 + index / 16 % 6));
    }
    rep.sample = case_json(c);
    TempDir td(args, index);
    fs::path where = td.p;
    if (index % 16 == 3) { // a long way down
        for (int k = 0; k < 5; ++k) {
            where /= std::string(180 + index / 16 % 60, (char)('a' + k));
        }
        fs::create_directories(where);
        rep.sample["path_length"] = where.string().size();
    }
    NoStdin closed(index % 8 == 5);
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.range(0, 3));
    auto out = stream_to_dir(c, (where / "s.zarr").string(), data, cuts, rep, "store");
    if (out.ok) {
        verify(c, out.store, rep, "store");
        note(rep, c, out.store);
    }
}
} // namespace

HX_CASE(v2_roundtrip) { roundtrip(2, args, index, r, rep); }
HX_CASE(v3_roundtrip) { roundtrip(3, args, index, r, rep); }

// The same bytes cut in different ways must give the same store, with every byte accounted for.
HX_CASE(framing)
{
    GenOpts o;
    o.compressed_percent = 20;
    o.max_yx = 14;
    o.max_dims = 4;
    o.max_stream = 1 << 20;
    o.multiscale_percent = index % 4 == 0 ? 100 : 0;
    o.chunk1_ok = o.multiscale_percent == 0;
    Case c = gen_case(r, o);
    if (c.multiscale) {
        if (index % 16 == 0) {
            deepen(c);
        }
        c.pattern = 5;
    }
    const size_t fb = c.frame_bytes();
    auto data = stream_bytes(c, c.frames + 1);
    const size_t tail = r.chance(50) ? 0 : r.range(0, fb - 1); // an unfinished frame at the end must leave no trace
    data.resize(c.frames * fb + tail);
    rep.sample = case_json(c);
    rep.sample["tail_bytes"] = tail;
    TempDir td(args, index);
    Store ref;
    for (int style = 0; style < 8; ++style) {
        auto cuts = style == 0 ? gen_cuts(r, c.frames * fb, fb, 0) : gen_cuts(r, data.size(), fb, style);
        auto path = td / ("s" + std::to_string(style) + ".zarr");
        auto ctx = "style " + std::to_string(style);
        auto out = stream_to_dir(c, path, data, cuts, rep, ctx.c_str());
        rep.count("cuts", cuts.size());
        if (!out.ok) {
            return;
        }
        if (style == 0) {
            ref = out.store;
            verify(c, ref, rep, "reference store");
            note(rep, c, ref);
        } else {
            for (auto& [k, v] : ref) {
                auto it = out.store.find(k);
                if (it == out.store.end()) {
                    rep.bad("framing.missing", ctx + ": " + k + " is missing");
                } else if (it->second != v) {
                    rep.bad("framing.differs", ctx + ": " + k + " differs from the store written a frame at a time");
                }
            }
            for (auto& [k, v] : out.store) {
                if (!ref.count(k)) {
                    rep.bad("framing.extra", ctx + ": " + k + " exists only with this cut");
                }
            }
            rep.count("store_comparisons");
        }
        fs::remove_all(path);
    }
    rep.sigs.push_back("tail" + std::to_string(tail != 0) + " fb" + std::to_string(std::min<size_t>(fb, 9)) + " " + signature(c));
}

// Every stopping point of one configuration, in both versions.
HX_CASE(prefixes)
{
    GenOpts o;
    o.version = index % 3 == 0 ? 2 : 3;
    o.max_yx = 9;
    o.max_dims = 5;
    o.max_chunks = 60;
    o.compressed_percent = 15;
    Case c;
    uint64_t upto;
    do {
        c = gen_case(r, o);
        upto = 2 * (c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer()) + 1;
    } while (upto > (args.thorough() ? 120 : 40));
    rep.sample = case_json(c);
    rep.sample["stopping_points"] = upto + 1;
    for (uint64_t n = 0; n <= upto; ++n) {
        c.frames = n;
        TempDir td(args, index);
        auto data = stream_bytes(c, n);
        auto ctx = "stopped after " + std::to_string(n) + " frames";
        auto out = stream_to_dir(c, td / "s.zarr", data, gen_cuts(r, data.size(), c.frame_bytes(), (int)r.range(0, 2)), rep, ctx.c_str());
        if (out.ok) {
            verify(c, out.store, rep, ctx.c_str());
            note(rep, c, out.store);
        }
        rep.count("stopping_points");
        if (rep.viol.size() > 8) {
            break;
        }
    }
}
