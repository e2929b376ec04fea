// Driving one stream and judging the store it left.
#pragma once
#include "hx.hh"

namespace hx {
struct Outcome
{
    bool ok = false;
    Store store;
    std::string log;
};

// create, append the first n frames (+ extra trailing bytes), destroy, load the store
inline Outcome
stream_to_dir(const Case& c, const std::string& path, const Bytes& data, const Cuts& cuts, CaseReport& rep, const char* ctx)
{
    Outcome o;
    LogCapture cap;
    auto* s = create(c, path);
    if (!s) {
        rep.bad("create.failed", std::string(ctx) + ": ZarrStream_create returned NULL for valid settings: " + cap.err().substr(0, 400));
        return o;
    }
    auto rr = append_all(s, data.data(), cuts);
    ZarrStream_destroy(s);
    rep.count("appends", rr.appends);
    if (!rr.wrong.empty()) {
        rep.bad(rr.append_failed ? "append.failed" : "append.count", std::string(ctx) + ": " + rr.wrong + " " + cap.err().substr(0, 400));
        return o;
    }
    o.log = cap.err();
    if (!o.log.empty()) {
        rep.bad("log.error", std::string(ctx) + ": errors logged by a stream that reported success: " + o.log.substr(0, 400));
    }
    o.store = load_dir(path);
    o.ok = true;
    return o;
}

inline void
note(CaseReport& rep, const Case& c, const Store& st)
{
    rep.count("streams");
    rep.count("frames", c.frames);
    rep.count("files", st.size());
    uint64_t b = 0;
    for (auto& [k, v] : st) {
        b += v.size();
    }
    rep.count("bytes_read_back", b);
    rep.sigs.push_back(signature(c));
}

inline void
verify(const Case& c, const Store& st, CaseReport& rep, const char* ctx)
{
    std::vector<Problem> pr;
    std::vector<Array> arrays;
    check_level0(c, st, c.frames, pr, &arrays);
    for (auto& a : arrays) {
        rep.count("chunks_decoded", a.chunks_present);
        rep.count("shards_read", a.shards_present);
    }
    if (!c.multiscale) {
        for (auto& k : stray_keys(st, c.version, arrays)) {
            pr.push_back({ "store.stray", "unexpected object " + k });
        }
    }
    rep.add(pr, ctx);
}


// The store must hold at least the first n frames (a whole number of layers), readable, with metadata that covers them.
// lod 0 only compares contents; other levels only have to be decodable.
inline void
check_prefix(const Case& c, const Store& st, uint64_t n, std::vector<Problem>& pr)
{
    if (n == 0) {
        return;
    }
    std::vector<Problem> p;
    auto a = read_array(st, c.version, 0, p);
    if (!a) {
        pr.insert(pr.end(), p.begin(), p.end());
        return;
    }
    // undecodable chunks beyond the prefix are not our business here: the contents decide
    const size_t fb = c.frame_bytes();
    if (a->dtype != dtype_short(c.dtype) || a->shape.size() != c.dims.size() || a->shape[0] * c.inner() < n ||
        !std::equal(a->shape.begin() + 1, a->shape.end(), c.dims.begin() + 1, [](uint64_t s, const Dim& d) { return s == d.array; })) {
        pr.push_back({ "prefix.shape", "metadata with shape " + json(a->shape).dump() + " does not cover " + std::to_string(n) + " frames" });
        return;
    }
    Bytes want(fb);
    for (uint64_t f = 0; f < n; ++f) {
        fill_frame(c, f, want.data());
        if (memcmp(want.data(), a->data.data() + f * fb, fb)) {
            pr.push_back({ "prefix.data", "frame " + std::to_string(f) + " of " + std::to_string(n) + " acknowledged ones differs on disk" });
            return;
        }
    }
}

// the documents that exist from creation on
inline std::vector<std::string>
group_docs(int version)
{
    return version == 2 ? std::vector<std::string>{ ".zattrs", ".zgroup", "acquire.json" }
                        : std::vector<std::string>{ "zarr.json", "meta/root.group.json", "meta/acquire.json" };
}

inline void
check_group_docs(const Store& st, int version, std::vector<Problem>& pr)
{
    for (auto& k : group_docs(version)) {
        parse_doc(st, k, pr, "group-doc");
    }
}

// first completed frames that must be on disk once n frames are acknowledged
inline uint64_t
durable_frames(const Case& c, uint64_t n)
{
    const uint64_t layer = c.version == 3 ? c.frames_per_shard_layer() : c.frames_per_chunk_layer();
    return n / layer * layer;
}
} // namespace hx
