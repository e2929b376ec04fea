// File sinks and vectorized writers against plain byte arrays.
#include "ffs.hh"
#include "file.sink.hh"
#include "perturb.hh"
#include "reg.hh"
#include "sink.creator.hh"
#include "vectorized.file.writer.hh"
#include <climits>
#include <sys/uio.h>
using namespace hx;

namespace {
// a sparse byte array of any size
struct Model
{
    static constexpr uint64_t P = 4096;
    std::map<uint64_t, std::array<uint8_t, P>> pages;
    uint64_t size = 0;

    void write(uint64_t off, const uint8_t* p, uint64_t n)
    {
        if (n == 0) {
            return;
        }
        size = std::max(size, off + n);
        while (n) {
            auto [it, fresh] = pages.try_emplace(off / P);
            if (fresh) {
                it->second.fill(0);
            }
            const uint64_t k = std::min(n, P - off % P);
            memcpy(it->second.data() + off % P, p, k);
            off += k, p += k, n -= k;
        }
    }
    // empty when the file holds exactly this
    std::string differs(const std::string& path) const
    {
        int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
        if (fd < 0) {
            return "cannot be opened: " + std::string(strerror(errno));
        }
        std::unique_ptr<int, void (*)(int*)> closer(&fd, [](int* f) { close(*f); });
        struct stat st;
        fstat(fd, &st);
        if ((uint64_t)st.st_size != size) {
            return "has " + std::to_string(st.st_size) + " bytes instead of " + std::to_string(size);
        }
        std::array<uint8_t, P> buf;
        auto check = [&](uint64_t pg, const uint8_t* want) -> std::string {
            buf.fill(0);
            const ssize_t n = pread(fd, buf.data(), P, (off_t)(pg * P));
            for (ssize_t i = 0; i < n; ++i) {
                if (buf[i] != (want ? want[i] : 0)) {
                    return "differs at offset " + std::to_string(pg * P + i);
                }
            }
            return {};
        };
        for (auto& [pg, want] : pages) {
            if (auto d = check(pg, want.data()); !d.empty()) {
                return d;
            }
        }
        // everything else is zero
        uint64_t off = 0;
        while (off < size) {
            off_t data = lseek(fd, (off_t)off, SEEK_DATA);
            if (data < 0) {
                break;
            }
            off_t hole = lseek(fd, data, SEEK_HOLE);
            for (uint64_t pg = (uint64_t)data / P; pg * P < (uint64_t)hole; ++pg) {
                if (!pages.count(pg)) {
                    if (auto d = check(pg, nullptr); !d.empty()) {
                        return d + " (never written)";
                    }
                }
            }
            off = (uint64_t)hole;
        }
        return {};
    }
};

bool
visible(const std::string& path, uint64_t off, const uint8_t* p, size_t n)
{
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) {
        return false;
    }
    Bytes b(n);
    size_t got = 0;
    while (got < n) {
        ssize_t k = pread(fd, b.data() + got, n - got, (off_t)(off + got));
        if (k <= 0) {
            break;
        }
        got += (size_t)k;
    }
    close(fd);
    return got == n && memcmp(b.data(), p, n) == 0;
}

void
random_bytes(Rng& r, uint8_t* p, size_t n)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t v = r.next() | 0x0101010101010101ull; // never zero: holes show
        memcpy(p + i, &v, 8);
    }
    for (; i < n; ++i) {
        p[i] = (uint8_t)(1 + r.next() % 255);
    }
}

size_t
random_size(Rng& r)
{
    switch (r.range(0, 9)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return (size_t)r.pick({ 1023, 1024, 8190, 8191, 8192, 8193, 4096 }); // around stdio buffer sizes
        case 3: return (size_t)r.range(1, 200000);
        default: return (size_t)r.range(1, 3000);
    }
}
} // namespace

HX_CASE(file_sink)
{
    TempDir td(args, index);
    NoStdin closed(index % 6 == 5);
    const int n_sinks = (int)r.pick({ 1, 1, 1, 3 });
    const bool far = r.chance(20);
    const int faults = r.chance(30) ? (int)r.range(1, 4) : 0; // 1 errno once, 2 errno from then on, 3 short writes, 4 EINTR
    const bool via_creator = r.chance(50);
    std::vector<std::string> paths;
    std::vector<Model> models(n_sinks);
    std::vector<char> broken(n_sinks, 0);
    std::vector<std::unique_ptr<zarr::Sink>> sinks;
    LogCapture cap;
    json sizes = json::array();
    for (int i = 0; i < n_sinks; ++i) {
        auto p = td / ((via_creator && r.chance(30) ? "new/" : "") + std::string("f") + std::to_string(i));
        if (p.find("/new/") == std::string::npos && r.chance(60)) {
            // an older file, longer or shorter
            std::ofstream(p, std::ios::binary) << std::string(r.range(0, 20000), '!');
        }
        paths.push_back(p);
        try {
            if (via_creator) {
                sinks.push_back(zarr::SinkCreator::make_sink(p));
            } else {
                sinks.push_back(std::make_unique<zarr::FileSink>(p));
            }
        } catch (const std::exception& e) {
            rep.bad("fsink.open", std::string("a sink for a writable file could not be made: ") + e.what());
            return;
        }
        if (!sinks.back()) {
            rep.bad("fsink.open", "a sink for a writable file could not be made");
            return;
        }
    }
    if (faults) {
        const uint64_t nth = r.range(0, 12);
        const int err = r.pick({ ENOSPC, EIO, EFBIG, EDQUOT });
        fsf::arm(td.p.string(), [=](fsf::Op op, const std::string&, uint64_t n) {
            fsf::Action a;
            if (op != fsf::Write) {
                return a;
            }
            switch (faults) {
                case 1: a.err = n == nth ? err : 0; break;
                case 2: a.err = n >= nth ? err : 0; break;
                case 3: a.partial = mix(n + nth) % 2; break;
                default: a.err = mix(n + nth) % 2 ? EINTR : 0; break;
            }
            return a;
        });
    }
    const int ops = (int)r.range(0, 30);
    for (int k = 0; k < ops && rep.viol.size() < 3; ++k) {
        const int i = (int)r.range(0, n_sinks - 1);
        const size_t n = random_size(r);
        uint64_t off = r.pick<uint64_t>({ 0, models[i].size, r.range(0, models[i].size), r.range(0, models[i].size + 5000) });
        if (far && r.chance(30)) {
            off = r.pick<uint64_t>({ (1ull << 31) - 5, (1ull << 31), (1ull << 32) - 7, (1ull << 32) + 11, 3ull << 31, 1ull << 36 }) + r.range(0, 100);
        }
        std::unique_ptr<uint8_t[]> p(new uint8_t[n ? n : 1]);
        random_bytes(r, p.get(), n);
        const auto faults_before = fsf::faults();
        bool ok = false;
        try {
            ok = sinks[i]->write(off, { (const std::byte*)p.get(), n });
        } catch (const std::exception&) {
            // a failure, loudly
        }
        if (ok) {
            if (!broken[i]) {
                models[i].write(off, p.get(), n);
            }
            if (n && !visible(paths[i], off, p.get(), n)) {
                rep.bad("fsink.not-visible", "a write of " + std::to_string(n) + " bytes at " + std::to_string(off) +
                                               " returned true and cannot be read");
            }
            rep.count("writes");
            rep.count("bytes", n);
        } else {
            rep.count("writes_failed");
            if (fsf::faults() == faults_before && !broken[i]) {
                rep.bad("fsink.failed", "a write of " + std::to_string(n) + " bytes at " + std::to_string(off) + " failed without any fault");
            }
            if (faults == 3 || faults == 4) {
                rep.bad("fsink.failed", "a short or interrupted system write was not carried on");
            }
            broken[i] = 1; // what exactly such a file holds is not specified
        }
        // bytes of the caller are not kept
        memset(p.get(), 0xee, n);
    }
    rep.count("faults_injected", fsf::faults() + fsf::partials());
    fsf::disarm();
    for (int i = 0; i < n_sinks; ++i) {
        bool ok = false;
        try {
            ok = zarr::finalize_sink(std::move(sinks[i]));
        } catch (const std::exception& e) {
        }
        if (!broken[i]) {
            if (!ok) {
                rep.bad("fsink.finalize", "finalizing failed although every write succeeded");
            }
            auto d = models[i].differs(paths[i]);
            if (!d.empty()) {
                rep.bad("fsink.content", "the file " + d);
            }
            rep.count("files_compared");
        }
    }
    rep.sample = { { "sinks", n_sinks }, { "ops", ops }, { "far", far }, { "faults", faults } };
    rep.sigs.push_back(std::to_string(n_sinks) + "/" + std::to_string(ops) + (far ? "far" : "") + std::to_string(faults) + (via_creator ? "c" : ""));
}

// sinks that cannot work are not handed out as working
HX_CASE(file_sink_open)
{
    TempDir td(args, index);
    LogCapture cap;
    std::string path, why;
    fs::create_directories(td / "dir");
    std::ofstream(td / "file") << "x";
    fs::create_directories(td / "ro");
    chmod((td / "ro").c_str(), 0500);
    std::ofstream(td / "rofile") << "y";
    chmod((td / "rofile").c_str(), 0400);
    if (symlink("/dev/full", (td / "full").c_str())) {
    }
    if (symlink((td / "nowhere/deeper/x").c_str(), (td / "dangling").c_str())) {
    }
    const bool root = geteuid() == 0;
    struct Bad
    {
        std::string path;
        const char* why;
    };
    std::vector<Bad> bad = { { td / "file/below", "its parent is a file" },
                             { td / "dir", "it is a directory" },
                             { td / std::string(300, 'n'), "its name is too long" },
                             { td / "dangling", "a dangling link to a missing directory" } };
    if (!root) {
        bad.push_back({ td / "ro/f", "its directory is read-only" });
        bad.push_back({ td / "ro/d/f", "its directory cannot be created" });
        bad.push_back({ td / "rofile", "it is read-only" });
    }
    if (access("/dev/full", W_OK) == 0) {
        bad.push_back({ td / "full", "the device is full" });
    }
    const auto& b = bad[index % bad.size()];
    const bool via_creator = (index / bad.size()) % 2;
    const bool injected = (index / bad.size() / 2) % 3 == 2;
    std::string p = b.path;
    if (injected) {
        p = td / "fine";
        fsf::arm(td.p.string(), [&](fsf::Op op, const std::string&, uint64_t) {
            fsf::Action a;
            a.err = op == fsf::Open ? EMFILE : 0;
            return a;
        });
    }
    bool worked = false;
    try {
        std::unique_ptr<zarr::Sink> s;
        if (via_creator) {
            s = zarr::SinkCreator::make_sink(p);
        } else {
            s = std::make_unique<zarr::FileSink>(p);
        }
        if (s) {
            const std::string text(r.range(1, 20000), 'z');
            worked = s->write(0, { (const std::byte*)text.data(), text.size() }) && zarr::finalize_sink(std::move(s));
            rep.count("handed_out");
        } else {
            rep.count("refused");
        }
    } catch (const std::exception&) {
        rep.count("refused");
    }
    fsf::disarm();
    if (worked) {
        rep.bad("fsink.broken-sink", std::string("a sink was handed out and worked although ") + (injected ? "its file could not be opened" : b.why));
    }
    chmod((td / "ro").c_str(), 0700);
    rep.count("opens");
    rep.sigs.push_back(std::string(injected ? "injected" : b.why) + (via_creator ? "/creator" : "/direct"));
}

HX_CASE(vector_write)
{
    TempDir td(args, index);
    NoStdin closed(index % 6 == 5);
    LogCapture cap;
    const auto path = td / "v";
    Model model;
    if (r.chance(60)) {
        Bytes old(r.range(0, 30000));
        random_bytes(r, old.data(), old.size());
        std::ofstream(path, std::ios::binary).write((const char*)old.data(), (std::streamsize)old.size());
        model.write(0, old.data(), old.size());
    }
    const int faults = r.chance(55) ? (int)r.range(1, 5) : 0; // 1 errno, 2 short, 3 EINTR, 4 short and EINTR, 5 short then errno
    const bool far = r.chance(25);
    std::unique_ptr<zarr::VectorizedFileWriter> w;
    try {
        w = std::make_unique<zarr::VectorizedFileWriter>(path);
    } catch (const std::exception& e) {
        rep.bad("vwriter.open", e.what());
        return;
    }
    const int calls = (int)r.range(1, 6);
    bool exact = true; // the model is exact until a call fails
    for (int k = 0; k < calls && rep.viol.size() < 3; ++k) {
        const size_t n = r.pick<size_t>({ 0, 1, 2, (size_t)r.range(1, 40), (size_t)IOV_MAX - 1, (size_t)IOV_MAX, (size_t)IOV_MAX + 1,
                                          (size_t)r.range(1, 3 * IOV_MAX) });
        std::vector<std::unique_ptr<std::byte[]>> own;
        std::vector<std::span<std::byte>> bufs;
        Bytes all;
        const size_t big = n < 50 ? 20000 : 200;
        for (size_t i = 0; i < n; ++i) {
            const size_t len = r.chance(15) ? 0 : r.chance(20) ? 1 : r.range(1, big);
            own.emplace_back(new std::byte[len ? len : 1]);
            random_bytes(r, (uint8_t*)own.back().get(), len);
            bufs.emplace_back(len || r.chance(50) ? own.back().get() : nullptr, len);
            all.insert(all.end(), (uint8_t*)own.back().get(), (uint8_t*)own.back().get() + len);
        }
        const Bytes before = all;
        uint64_t off = r.pick<uint64_t>({ 0, model.size, r.range(0, model.size), r.range(0, model.size + 9000) });
        if (far && r.chance(60)) {
            off = r.pick<uint64_t>({ (1ull << 31) - 5, (1ull << 31), (1ull << 32) - 7, (1ull << 32) + 11, 3ull << 31, 1ull << 36 }) + r.range(0, 100);
        }
        const uint64_t nth = r.range(0, 3), salt = r.next();
        const int err = r.pick({ ENOSPC, EIO, EFBIG });
        if (faults) {
            fsf::arm(td.p.string(), [=](fsf::Op op, const std::string&, uint64_t c) {
                fsf::Action a;
                if (op != fsf::Write) {
                    return a;
                }
                const bool coin = mix(salt + c) % 2;
                switch (faults) {
                    case 1: a.err = c >= nth ? err : 0; break;
                    case 2: a.partial = coin; break;
                    case 3: a.err = coin ? EINTR : 0; break;
                    case 4: a.partial = coin; a.err = !coin && mix(salt - c) % 2 ? EINTR : 0; break;
                    default: a.partial = c < nth; a.err = c >= nth ? err : 0; break;
                }
                return a;
            });
        }
        bool ok = false;
        try {
            ok = w->write_vectors(bufs, off);
        } catch (const std::exception&) {
        }
        const bool hard = (faults == 1 || faults == 5) && fsf::faults() > 0;
        rep.count("faults_injected", faults ? fsf::faults() + fsf::partials() : 0);
        fsf::disarm();
        const std::string what = std::to_string(n) + " buffers with " + std::to_string(all.size()) + " bytes at " + std::to_string(off);
        Bytes after;
        for (auto& b : bufs) {
            after.insert(after.end(), (uint8_t*)b.data(), (uint8_t*)b.data() + b.size());
        }
        if (after != before) {
            rep.bad("vwriter.buffers", "writing changed the caller's buffers");
        }
        if (ok && hard) {
            rep.bad("vwriter.false-success", "writing " + what + " returned true although the system refused a part");
        }
        if (!ok && !hard) {
            rep.bad("vwriter.failed", "writing " + what + " failed" + (faults ? " after short or interrupted writes" : ""));
        }
        if (ok) {
            if (exact) {
                model.write(off, all.data(), all.size());
            }
            if (!all.empty() && !visible(path, off, all.data(), all.size())) {
                rep.bad("vwriter.content", "writing " + what + " returned true and the file does not hold the concatenation");
            }
        } else {
            exact = false;
        }
        if (exact) {
            auto d = model.differs(path);
            if (!d.empty()) {
                rep.bad("vwriter.elsewhere", "after writing " + what + " the file " + d);
            }
        }
        rep.count("calls");
        rep.count("buffers", n);
        rep.count("bytes", all.size());
        rep.count(ok ? "true_returned" : "false_returned");
        rep.sigs.push_back(std::to_string(faults) + (far ? "far" : "") + (n == 0 ? "0" : n == 1 ? "1" : n < IOV_MAX ? "few" : n == IOV_MAX ? "max" : "many") +
                           (all.empty() ? "e" : "") + (ok ? "t" : "f"));
    }
    rep.sample = { { "calls", calls }, { "faults", faults }, { "far", far } };
}

// concurrent calls leave what some order of the calls would
HX_CASE(vector_threads)
{
    TempDir td(args, index);
    LogCapture cap;
    const auto path = td / "v";
    const int n = (int)r.range(2, 4);
    const uint64_t base = r.chance(20) ? (1ull << 31) - 50 : 0;
    struct Call
    {
        uint64_t off;
        std::vector<Bytes> bufs;
        Bytes all;
        bool ok = false;
    };
    std::vector<Call> calls(n);
    for (auto& c : calls) {
        c.off = base + r.range(0, 400);
        const size_t k = r.range(1, 6);
        for (size_t i = 0; i < k; ++i) {
            Bytes b(r.range(1, 300));
            random_bytes(r, b.data(), b.size());
            c.all.insert(c.all.end(), b.begin(), b.end());
            c.bufs.push_back(std::move(b));
        }
    }
    const uint64_t salt = r.next();
    fsf::arm(td.p.string(), [=](fsf::Op op, const std::string&, uint64_t c) {
        fsf::Action a;
        if (op == fsf::Write) {
            a.partial = mix(salt + c) % 4 != 0 && c < 60;
            a.delay_us = (unsigned)(mix(salt - c) % 60);
        }
        return a;
    });
    {
        zarr::VectorizedFileWriter w(path);
        std::atomic<int> go{ 0 };
        std::vector<std::thread> ts;
        for (auto& c : calls) {
            ts.emplace_back([&] {
                std::vector<std::span<std::byte>> v;
                for (auto& b : c.bufs) {
                    v.emplace_back((std::byte*)b.data(), b.size());
                }
                ++go;
                while (go < n) {
                }
                c.ok = w.write_vectors(v, c.off);
            });
        }
        for (auto& t : ts) {
            t.join();
        }
    }
    rep.count("short_writes", fsf::partials());
    fsf::disarm();
    for (auto& c : calls) {
        if (!c.ok) {
            rep.bad("vwriter.failed", "a concurrent call failed");
        }
    }
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) {
        order[i] = i;
    }
    bool found = false;
    std::string diff;
    int orders = 0;
    do {
        Model m;
        for (int i : order) {
            m.write(calls[i].off, calls[i].all.data(), calls[i].all.size());
        }
        diff = m.differs(path);
        ++orders;
        found = diff.empty();
    } while (!found && std::next_permutation(order.begin(), order.end()));
    if (!found) {
        rep.bad("vwriter.interleaved", "no order of the " + std::to_string(n) + " concurrent calls explains the file: it " + diff);
    }
    rep.count("concurrent_calls", n);
    rep.count("orders_tried", orders);
    std::string o;
    for (int i : order) {
        o += std::to_string(i);
    }
    rep.sigs.push_back("order " + o + (base ? " far" : ""));
    rep.sample = { { "calls", n }, { "base", base } };
}
