// A stream replaces what was at its path, and touches nothing else.
#include "ffs.hh"
#include "reg.hh"
#include "s3common.hh"
#include "snap.hh"
using namespace hx;

namespace {
void
put(const fs::path& p, const std::string& text)
{
    std::error_code ec;
    fs::create_directories(p.parent_path(), ec);
    std::ofstream(p, std::ios::binary) << text;
}

// a hard link that disappears inside the store changes the count of the one outside; that is all it may change
Snapshot
outside(const fs::path& root, const std::string& skip)
{
    auto s = snapshot(root, skip);
    s.erase(fs::path(skip).lexically_relative(root).string());
    for (auto& [k, v] : s) {
        auto i = v.find(", links "), j = v.find(", hash");
        if (i != std::string::npos && j != std::string::npos) {
            v.erase(i, j - i);
        }
    }
    return s;
}

// names and kinds of everything in a tree, empty directories included
std::map<std::string, std::string>
tree(const fs::path& root)
{
    std::map<std::string, std::string> out;
    for (fs::recursive_directory_iterator it(root), end; it != end; ++it) {
        out[it->path().lexically_relative(root).string()] = it->is_symlink() ? "link" : it->is_directory() ? "directory" : it->is_regular_file() ? "file" : "other";
    }
    return out;
}

Case
small_case(Rng& r)
{
    GenOpts o;
    o.max_yx = 12;
    o.max_chunks = 40;
    o.max_stream = 300 << 10;
    o.compressed_percent = 15;
    o.multiscale_percent = 15;
    o.chunk1_ok = false;
    Case c = gen_case(r, o);
    if (c.multiscale) {
        c.pattern = 5;
    }
    static const std::vector<std::string> nasty = { "../../up", "/abs", "..", ".", "a/../../b", "~", "$HOME", "name\nline", "*", "t;rm", "..\\..\\w" };
    for (size_t i = 0; i + 2 < c.dims.size(); ++i) {
        if (r.chance(30)) {
            c.dims[i].name = r.pick(nasty) + (i ? std::to_string(i) : "");
        }
    }
    if (r.chance(40)) {
        c.has_custom = true;
        c.custom = r.pick<std::string>({ "{\"path\": \"../../x\", \"store_path\": \"/tmp\"}", "\"../w\"", "[\"/etc/passwd\"]" });
    }
    return c;
}
} // namespace

HX_CASE(ownership)
{
    Case c = small_case(r);
    TempDir td(args, index);
    const fs::path world = td.p / "world", w = world / "w", far = world / "far";
    fs::create_directories(w / "sub");
    fs::create_directories(far);
    const std::string name = r.pick<std::string>({ "s.zarr", "s", "data set.zarr", "acq-\xc3\xa9", "0", "zarr.json", "..s", "s.zarr.", ".hidden", "a*b", "w" });
    const fs::path target = w / name;

    // neighbours with similar names, and things links will point to
    for (auto n : { name + "x", "x" + name, name + ".zarr", name + "-old", name + "~", name + ".tmp", name + ".bak", " " + name, name + " ", "\t" + name }) {
        if (r.chance(50)) {
            put(w / n, "neighbour " + n);
        } else {
            put(w / n / "0" / "0", "neighbour's chunk");
            put(w / n / ".zarray", "{}");
        }
    }
    put(w / "0" / ".zarray", "not yours");
    put(w / "meta" / "root.group.json", "not yours");
    put(w / ".zattrs", "not yours");
    put(w / "sub" / name / "keep", "not yours");
    put(world / name / "keep", "not yours");
    put(far / "tree" / "a" / "b", "far file");
    put(far / "tree" / "0" / ".zarray", "far array");
    put(far / "file", "far single file");
    put(far / "hard", "far hard-linked file");
    put(far / ".zgroup", "far group");
    if (name == "0") {
        fs::remove_all(w / "0");
    }

    // what is at the path now
    const int prior = (int)r.range(0, 11);
    auto older_store = [&](const fs::path& p) {
        Case old;
        do {
            GenOpts o;
            o.max_yx = 12;
            o.max_chunks = 40;
            o.max_stream = 200 << 10;
            o.multiscale_percent = 40;
            o.chunk1_ok = false;
            old = gen_case(r, o);
        } while (old.frames == 0);
        old.pattern = 5;
        auto d = stream_bytes(old, old.frames);
        auto out = stream_to_dir(old, p.string(), d, gen_cuts(r, d.size(), old.frame_bytes(), 2), rep, "older store");
        (void)out;
    };
    auto some_tree = [&](const fs::path& p) {
        put(p / "deep" / "er" / "file", "old");
        put(p / "0" / "0" / "0" / "0" / "0" / "0", "old chunk");
        put(p / "9" / ".zarray", "old array");
        put(p / "data" / "root" / "0" / "c9" / "0" / "0", "old shard");
        put(p / "meta" / "root" / "7.array.json", "old array");
        put(p / "acquire.json", std::string(5000, 'o'));
        put(p / ".zattrs", std::string(5000, 'o'));
        put(p / "zarr.json", std::string(5000, 'o'));
        fs::create_directories(p / "empty" / "dir");
        fs::create_directories(p / ".zgroup"); // a directory where a file will be
        put(p / "1" / ".zgroup", "old");
    };
    switch (prior) {
        case 0: break;
        case 1: put(target, "an old file"); break;
        case 2: fs::create_directory(target); break;
        case 3: some_tree(target); break;
        case 4: older_store(target); break;
        case 5: fs::create_directory_symlink(far / "tree", target); break;
        case 6: fs::create_symlink(far / "file", target); break;
        case 7: // links inside that point outside
            some_tree(target);
            fs::create_directory_symlink(far / "tree", target / "link");
            fs::create_directory_symlink("../../far", target / "rel");
            fs::remove_all(target / "meta");
            fs::create_directory_symlink(far / "tree", target / "meta");
            fs::remove_all(target / "data");
            fs::create_directory_symlink(far, target / "data");
            fs::remove_all(target / "0");
            fs::create_directory_symlink(far / "tree", target / "0");
            fs::remove(target / "zarr.json");
            fs::create_symlink(far / "file", target / "zarr.json");
            fs::remove(target / ".zattrs");
            fs::create_symlink(far / "file", target / ".zattrs");
            fs::create_directory_symlink("..", target / "up");
            fs::create_symlink("nowhere", target / "dangling");
            break;
        case 8: // hard links
            some_tree(target);
            fs::remove(target / "acquire.json");
            fs::create_hard_link(far / "hard", target / "acquire.json");
            fs::remove(target / "zarr.json");
            fs::create_hard_link(far / "hard", target / "zarr.json");
            fs::create_hard_link(far / "file", target / "hard");
            break;
        case 9: // an older store with links to it from outside
            older_store(target);
            fs::create_directory_symlink(target, far / "to-store");
            break;
        case 10: // a link to an older store elsewhere
            older_store(far / "store");
            fs::create_directory_symlink(far / "store", target);
            break;
        case 11: // the other version's older store, unreadable leftovers included
            older_store(target);
            put(target / "0" / "unexpected", "x");
            some_tree(target / "copy");
            break;
    }

    // how the path is given
    const int form = (int)r.range(0, 10);
    std::string given;
    fs::path cwd = td.p;
    const bool wander = r.chance(40); // the program changes its working directory while it streams
    switch (form) {
        case 0: given = target.string(); break;
        case 1: given = name; cwd = w; break;
        case 2: given = "./" + name; cwd = w; break;
        case 3: given = "w/" + name; cwd = world; break;
        case 4: given = "../w/" + name; cwd = w; break;
        case 5: given = (w / "sub" / ".." / name).string(); break;
        case 6: given = "  " + target.string() + " \t"; break;
        case 7: given = "\n" + name + "  "; cwd = w; break;
        case 8: given = w.string() + "//./" + name; break;
        case 9: given = target.string() + "/"; break;
        case 10: given = name + "// "; cwd = w; break;
    }
    rep.sample = case_json(c);
    rep.sample["path"] = given;
    rep.sample["prior"] = prior;
    rep.sample["wander"] = wander;
    fs::create_directories(td / "elsewhere/w");
    const auto old_cwd = fs::current_path();
    fs::current_path(cwd);
    auto here = std::make_shared<fs::path>(cwd);

    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.range(0, 2));
    const int faults = r.chance(20) ? (int)r.range(1, 2) : 0;
    const uint64_t fault_at = r.range(0, 20);

    const auto before = outside(td.p, target.string());
    auto strays = std::make_shared<std::set<std::string>>();
    auto stray_lock = std::make_shared<std::mutex>();
    auto opened = std::make_shared<std::atomic<uint64_t>>(0);
    const std::string inside = target.string();
    fsf::arm("", [=, &td](fsf::Op op, const std::string& p, uint64_t nth) {
        fsf::Action a;
        if (op == fsf::Mkdir) {
            return a;
        }
        fs::path full = p;
        if (!full.is_absolute()) {
            std::scoped_lock l(*stray_lock);
            full = *here / p;
        }
        auto n = full.lexically_normal().string();
        ++*opened;
        if (n.rfind(inside + "/", 0) != 0 && (n.rfind(td.p.string() + "/", 0) == 0 || (n.rfind("/dev/", 0) != 0 && n.rfind("/proc/", 0) != 0)) && n.rfind("pipe:", 0) != 0 && n.rfind("socket:", 0) != 0) {
            std::scoped_lock l(*stray_lock);
            strays->insert(std::string(op == fsf::Open ? "opened " : "wrote to ") + n);
        }
        if ((faults == 1 && op == fsf::Open && nth >= fault_at) || (faults == 2 && op == fsf::Write && nth == fault_at)) {
            a.err = faults == 1 ? EMFILE : ENOSPC;
        }
        return a;
    });
    const auto go = [&](const fs::path& to) {
        if (wander) {
            std::scoped_lock l(*stray_lock);
            *here = to;
            fs::current_path(to);
        }
    };
    bool ok = true;
    std::string when, diff;
    auto look = [&](const char* at) {
        auto d = difference(before, outside(td.p, target.string()));
        rep.count("outside_snapshots");
        if (!d.empty() && diff.empty()) {
            diff = d;
            when = at;
        }
    };
    std::string err;
    {
        LogCapture cap;
        auto* s = create(c, given);
        look("ZarrStream_create");
        if (!s) {
            ok = false;
        } else {
            go(td / "elsewhere");
            auto rr = append_all(s, data.data(), cuts);
            ok = rr.wrong.empty();
            look("ZarrStream_append");
            go(td / "elsewhere/w");
            ZarrStream_destroy(s);
            look("ZarrStream_destroy");
        }
        err = cap.err();
    }
    const auto n_faults = fsf::faults();
    fsf::disarm();
    fs::current_path(old_cwd);
    rep.count("streams");
    rep.count("files_opened_or_written", *opened);
    rep.count("outside_entries", before.size());
    const std::string ctx = "prior content " + std::to_string(prior) + ", path '" + given + "'";
    if (!diff.empty()) {
        rep.bad("ownership.outside", ctx + ": after " + when + ", outside the store: " + diff);
    }
    for (auto& s : *strays) {
        rep.bad("ownership.outside", ctx + ": " + s + ", which is not in the store");
    }
    if (n_faults) {
        rep.count("faulted_streams");
    } else if (!ok || !err.empty()) {
        rep.bad("ownership.not-replaced", ctx + ": the stream failed: " + err.substr(0, 400));
    } else {
        struct stat st;
        if (lstat(target.c_str(), &st) || !S_ISDIR(st.st_mode)) {
            rep.bad("ownership.not-replaced", ctx + ": the path is not a directory of its own");
        } else {
            auto ref = stream_to_dir(c, td / "fresh.zarr", data, cuts, rep, "fresh store");
            if (ref.ok) {
                auto got = load_dir(target);
                auto ta = tree(td / "fresh.zarr"), tb = tree(target);
                for (auto& [k, v] : tb) {
                    if (!ta.count(k)) {
                        rep.bad("ownership.leftover", ctx + ": " + k + " (" + v + ") is not part of the new store");
                        break;
                    }
                }
                for (auto& [k, v] : ta) {
                    if (!tb.count(k) || tb[k] != v) {
                        rep.bad("ownership.not-replaced", ctx + ": " + k + " is missing or of another kind");
                        break;
                    }
                }
                for (auto& [k, v] : ref.store) {
                    if (got.count(k) && got[k] != v) {
                        rep.bad("ownership.leftover", ctx + ": " + k + " differs from a fresh store's");
                        break;
                    }
                }
                rep.count("stores_compared");
            }
        }
    }
    rep.sigs.push_back("own prior" + std::to_string(prior) + " form" + std::to_string(form) + " v" + std::to_string(c.version) + " f" + std::to_string(n_faults ? faults : 0));
}

HX_CASE(ownership_s3)
{
    Case c = small_case(r);
    TempDir td(args, index);
    auto data = stream_bytes(c, c.frames);
    auto cuts = gen_cuts(r, data.size(), c.frame_bytes(), (int)r.range(0, 2));
    auto ref = stream_to_dir(c, td / "fresh.zarr", data, cuts, rep, "filesystem store");
    if (!ref.ok) {
        return;
    }
    const std::string prefix = r.pick<std::string>({ "s.zarr", "a/b/s.zarr", "s", "data set", "z9", "az-bucket" });
    const std::string bucket = "az-bucket";
    svc_reset(bucket);
    Store foreign = { { prefix, "0" },          { prefix + "x", "1" },        { prefix + "x/0/.zarray", "2" },     { prefix + "-old/zarr.json", "3" },
                      { prefix + ".zattrs", "4" }, { "zarr.json", "5" },      { "0/0/0/0", "6" },                 { "0/.zarray", "7" },
                      { "x" + prefix + "/0", "8" }, { "unrelated/" + prefix + "/.zgroup", "9" } };
    Store old;
    if (r.chance(60)) {
        for (auto& [k, v] : ref.store) {
            if (r.chance(60)) {
                old[k] = r.chance(50) ? std::string(v.size() + 100, 'o') : std::string(v.size() / 2, 'o');
            }
        }
    }
    std::atomic<int> busy{ 0 };
    std::vector<std::string> buckets = { bucket, bucket + "2", "az", "other-bucket" };
    uint64_t planted = 0;
    std::map<std::string, std::map<std::string, std::string>> before;
    for (auto& b : buckets) {
        svc().add_bucket(b);
        for (auto& [k, v] : foreign) {
            svc().call(azs3::Op::PutObject, busy, b, k, {}, 0, v);
            ++planted;
        }
        for (auto& [k, v] : old) {
            svc().call(azs3::Op::PutObject, busy, b, prefix + "/" + k, {}, 0, v);
            ++planted;
        }
        before[b] = svc().objects(b);
    }
    const bool faulty = r.chance(25);
    if (faulty) {
        const uint64_t at = r.range(0, 10);
        svc().set_fault([=](azs3::Op o, uint64_t n, const std::string&) { return o == azs3::Op::PutObject && n >= at && n < at + 2 ? azs3::Fault::Error : azs3::Fault::None; });
    }
    rep.sample = case_json(c);
    rep.sample["prefix"] = prefix;
    auto run = stream_to_s3(c, r.chance(20) ? " " + prefix + "\t" : prefix, data, cuts, S3Opts{});
    svc().set_fault(nullptr);
    uint64_t n = 0;
    for (auto& e : svc().events()) {
        if (n++ < planted || e.op == azs3::Op::ListBuckets) {
            continue;
        }
        rep.count("s3_requests");
        if (e.bucket != bucket) {
            rep.bad("ownership.outside", std::string(azs3::op_name(e.op)) + " in bucket '" + e.bucket + "'");
        } else if (e.op != azs3::Op::BucketExists && e.key.rfind(prefix + "/", 0) != 0) {
            rep.bad("ownership.outside", std::string(azs3::op_name(e.op)) + " of '" + e.key + "', the prefix is '" + prefix + "'");
        }
    }
    for (auto& b : buckets) {
        auto now = svc().objects(b);
        for (auto& [k, v] : before[b]) {
            const bool ours = b == bucket && k.rfind(prefix + "/", 0) == 0;
            if (!ours && (!now.count(k) || now[k] != v)) {
                rep.bad("ownership.outside", "object '" + k + "' of bucket '" + b + "' was changed");
            }
        }
        for (auto& [k, v] : now) {
            const bool ours = b == bucket && k.rfind(prefix + "/", 0) == 0;
            if (!ours && !before[b].count(k)) {
                rep.bad("ownership.outside", "object '" + k + "' was added to bucket '" + b + "'");
            }
        }
        rep.count("foreign_objects", before[b].size());
    }
    if (!run.reported()) {
        auto now = strip_prefix(svc().objects(bucket), prefix);
        for (auto& [k, v] : ref.store) {
            if (!now.count(k) || now[k] != v) {
                rep.bad("ownership.not-replaced", "object '" + k + "' is not what a fresh store holds");
                break;
            }
        }
        for (auto& [k, v] : now) {
            if (!ref.store.count(k)) {
                rep.bad("ownership.leftover", "object '" + k + "' is not part of the store");
                break;
            }
        }
        rep.count("stores_compared");
    } else if (!faulty) {
        rep.bad("ownership.not-replaced", "the stream failed: " + run.log.substr(0, 300));
    }
    rep.sigs.push_back("own-s3 v" + std::to_string(c.version) + (old.empty() ? " fresh" : " old") + (faulty ? " faulty" : "") + " " + prefix.substr(0, 4));
}
