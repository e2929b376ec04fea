// What the logger writes to the standard streams, and that its level changes nothing else.
#include "drive.hh"
#include "ffs.hh"
#include "logger.hh"
#include "reg.hh"
#include "s3common.hh"
#include <regex>
using namespace hx;

extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

namespace {
// what really arrives on file descriptors 1 and 2
struct FdCapture
{
    int saved[2], file[2];
    std::string path[2];
    FdCapture(const std::string& dir)
    {
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        for (int i = 0; i < 2; ++i) {
            path[i] = dir + "/fd" + std::to_string(i + 1);
            saved[i] = fcntl(i + 1, F_DUPFD_CLOEXEC, 10);
            file[i] = open(path[i].c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
            dup2(file[i], i + 1);
        }
        if (__sanitizer_set_report_fd) {
            __sanitizer_set_report_fd((void*)(intptr_t)saved[1]);
        }
    }
    void stop()
    {
        if (saved[0] < 0) {
            return;
        }
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        for (int i = 0; i < 2; ++i) {
            dup2(saved[i], i + 1);
            close(saved[i]);
            close(file[i]);
            saved[i] = -1;
        }
        if (__sanitizer_set_report_fd) {
            __sanitizer_set_report_fd((void*)2);
        }
    }
    ~FdCapture() { stop(); }
    std::string text(int i) { return read_file(path[i]); }
};

struct Msg
{
    LogLevel level;
    int line;
    std::string text;
};

const char* level_name[] = { "DEBUG", "INFO", "WARNING", "ERROR" };

std::vector<std::string>
split_lines(const std::string& t, bool& whole)
{
    std::vector<std::string> v;
    size_t i = 0;
    whole = t.empty() || t.back() == '\n';
    while (i < t.size()) {
        auto j = t.find('\n', i);
        if (j == std::string::npos) {
            j = t.size();
        }
        v.push_back(t.substr(i, j - i));
        i = j + 1;
    }
    return v;
}

std::string
payload(Rng& r, uint64_t id)
{
    std::string t = "id=" + std::to_string(id) + ";";
    const size_t n = r.pick<size_t>({ 0, 5, 40, 200, (size_t)r.range(0, 6000) });
    static const char* bits[] = { "abc", " ", "100%", "%s%n", "\xc3\xa9", "[ERROR]", "\t", "{}", "'\"", "\\n", "2026-01-01 00:00:00.000 " };
    while (t.size() < n) {
        t += bits[r.range(0, 10)];
    }
    return t + ";end";
}

// one call of the logging macros; returns what must be on the line
Msg
log_one(Rng& r, uint64_t id)
{
    Msg m;
    m.level = (LogLevel)r.range(LogLevel_Debug, LogLevel_Error);
    const std::string t = payload(r, id);
    const int kind = (int)r.range(0, 3);
    const int64_t num = (int64_t)r.next();
    switch (kind) {
        case 0:
            m.text = t;
            switch (m.level) {
                case LogLevel_Debug: LOG_DEBUG(t); m.line = __LINE__; break;
                case LogLevel_Info: LOG_INFO(t); m.line = __LINE__; break;
                case LogLevel_Warning: LOG_WARNING(t); m.line = __LINE__; break;
                default: LOG_ERROR(t); m.line = __LINE__; break;
            }
            break;
        case 1:
            m.text = "value " + std::to_string(num) + " of " + t;
            switch (m.level) {
                case LogLevel_Debug: LOG_DEBUG("value ", num, " of ", t); m.line = __LINE__; break;
                case LogLevel_Info: LOG_INFO("value ", num, " of ", t); m.line = __LINE__; break;
                case LogLevel_Warning: LOG_WARNING("value ", num, " of ", t); m.line = __LINE__; break;
                default: LOG_ERROR("value ", num, " of ", t); m.line = __LINE__; break;
            }
            break;
        case 2:
            m.text = t + "true?" + "c" + std::to_string((unsigned)num % 97);
            switch (m.level) {
                case LogLevel_Debug: LOG_DEBUG(t.c_str(), "true?", 'c', (unsigned)num % 97); m.line = __LINE__; break;
                case LogLevel_Info: LOG_INFO(t.c_str(), "true?", 'c', (unsigned)num % 97); m.line = __LINE__; break;
                case LogLevel_Warning: LOG_WARNING(t.c_str(), "true?", 'c', (unsigned)num % 97); m.line = __LINE__; break;
                default: LOG_ERROR(t.c_str(), "true?", 'c', (unsigned)num % 97); m.line = __LINE__; break;
            }
            break;
        default:
            m.text = t;
            Logger::log(m.level, "/some/where/logger.cc", 12345, "fun", std::string_view(t));
            m.line = 12345;
            break;
    }
    return m;
}
} // namespace

HX_CASE(log_lines)
{
    TempDir td(args, index);
    const int n_threads = (int)r.pick({ 1, 2, 4, 8 });
    const int per = (int)r.range(1, 40);
    const bool toggling = r.chance(25); // the level changes while others log: any message may or may not pass
    const ZarrLogLevel level = (ZarrLogLevel)r.range(0, ZarrLogLevelCount - 1);
    const auto old = Zarr_get_log_level();
    if (Zarr_set_log_level(level) != ZarrStatusCode_Success || Zarr_get_log_level() != level) {
        rep.bad("log.level", "the log level did not read back as set");
    }
    std::vector<std::vector<Msg>> sent(n_threads);
    std::vector<Rng> rngs;
    for (int t = 0; t < n_threads; ++t) {
        rngs.emplace_back(r.next());
    }
    const time_t t0 = time(nullptr);
    std::string text[2];
    {
        FdCapture cap(td.p.string());
        std::vector<std::thread> ts;
        std::atomic<int> running{ n_threads };
        for (int t = 0; t < n_threads; ++t) {
            ts.emplace_back([&, t] {
                for (int k = 0; k < per; ++k) {
                    sent[t].push_back(log_one(rngs[t], (uint64_t)t * 1000 + k));
                }
                --running;
            });
        }
        if (toggling) {
            int k = 0;
            while (running) {
                Zarr_set_log_level((ZarrLogLevel)(k++ % ZarrLogLevelCount));
                (void)Zarr_get_log_level();
            }
        }
        for (auto& t : ts) {
            t.join();
        }
        cap.stop();
        text[0] = cap.text(0);
        text[1] = cap.text(1);
    }
    const time_t t1 = time(nullptr);
    Zarr_set_log_level(old);
    std::map<std::string, std::vector<const Msg*>> by_id;
    uint64_t n_sent = 0, n_due[2] = {}, n_seen = 0;
    std::map<std::string, Msg> pending[2];
    for (auto& v : sent) {
        for (auto& m : v) {
            ++n_sent;
            const bool due = m.level >= (LogLevel)level;
            if (due || toggling) {
                const int s = m.level == LogLevel_Error ? 1 : 0;
                pending[s][m.text] = m;
                n_due[s] += due;
            }
        }
    }
    for (int s = 0; s < 2; ++s) {
        const char* name = s ? "standard error" : "standard output";
        bool whole;
        for (auto& ln : split_lines(text[s], whole)) {
            // timestamp, level, file:line, text at the end
            std::tm tm{};
            int ms = -1, used = 0;
            const bool stamp = sscanf(ln.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min,
                                      &tm.tm_sec, &ms, &used) == 7 &&
                               used == 23;
            if (!stamp) {
                rep.bad("log.line", std::string("a line on ") + name + " is not whole: '" + ln.substr(0, 160) + "'");
                break;
            }
            tm.tm_year -= 1900;
            tm.tm_mon -= 1;
            tm.tm_isdst = -1;
            const time_t when = mktime(&tm);
            if (when < t0 - 1 || when > t1 + 1) {
                rep.bad("log.timestamp", "'" + ln.substr(0, 60) + "' was logged between " + std::to_string(t0) + " and " + std::to_string(t1));
            }
            // the text is the longest known one the line ends with
            const Msg* hit = nullptr;
            auto at = ln.find("id=");
            for (auto& [t, m] : pending[s]) {
                if (ln.size() >= t.size() && ln.compare(ln.size() - t.size(), t.size(), t) == 0 && (!hit || t.size() > hit->text.size())) {
                    hit = &m;
                }
            }
            (void)at;
            if (!hit) {
                const bool other = std::any_of(pending[1 - s].begin(), pending[1 - s].end(), [&](auto& p) { return ln.ends_with(p.first); });
                rep.bad(other ? "log.stream" : "log.line", std::string("unexpected line on ") + name + ": '" + ln.substr(0, 160) + "'");
                break;
            }
            const std::string head = ln.substr(0, ln.size() - hit->text.size());
            if (head.find(level_name[hit->level]) == std::string::npos ||
                head.find("logger.cc:" + std::to_string(hit->line)) == std::string::npos || head.find("some/where") != std::string::npos) {
                rep.bad("log.position", "the line '" + ln.substr(0, 160) + "' lacks level " + level_name[hit->level] + " or position logger.cc:" +
                                          std::to_string(hit->line));
            }
            ++n_seen;
            pending[s].erase(std::string(hit->text));
        }
        if (!whole) {
            rep.bad("log.line", std::string("the last line on ") + name + " is not whole");
        }
        if (!toggling && !pending[s].empty() && rep.viol.empty()) {
            auto& [t, m] = *pending[s].begin();
            rep.bad("log.lost", std::to_string(pending[s].size()) + " messages at or above level " + std::to_string(level) +
                                  " are missing, among them one of level " + level_name[m.level] + ": " + t.substr(0, 80));
        }
    }
    rep.count("messages_sent", n_sent);
    rep.count("lines_seen", n_seen);
    rep.count("messages_suppressed", n_sent - n_seen);
    rep.sample = { { "threads", n_threads }, { "messages", per }, { "level", (int)level }, { "toggling", toggling } };
    rep.sigs.push_back(std::to_string(n_threads) + "/" + std::to_string((int)level) + (toggling ? "t" : "") + "/" + std::to_string(per / 8) +
                       (n_due[0] ? "o" : "") + (n_due[1] ? "e" : ""));
}

// The same stream with the same failure under every log level: same store, same statuses, same detection.
HX_CASE(log_indifferent)
{
    GenOpts o;
    o.max_yx = 14;
    o.max_dims = 4;
    o.max_chunks = 40;
    o.max_stream = 200 << 10;
    o.multiscale_percent = 20;
    o.max_frames = 40;
    Case c = gen_case(r, o);
    const bool s3 = index % 3 == 2;
    const int fault = (int)r.range(0, 3); // none, opens, writes, invalid settings / S3 errors
    const uint64_t salt = r.next(), every = r.range(2, 9);
    if (fault == 3 && !s3) {
        c.dims[r.range(0, c.dims.size() - 1)].name = " ";
    }
    rep.sample = case_json(c);
    rep.sample["fault"] = fault;
    rep.sample["s3"] = s3;
    Bytes data;
    Cuts cuts;
    {
        Case d = c;
        data = stream_bytes(d, d.frames);
        cuts = gen_cuts(r, data.size(), d.frame_bytes(), (int)r.range(0, 2));
    }
    struct Seen
    {
        bool created;
        std::vector<int> codes;
        std::vector<size_t> counts;
        Store store;
        uint64_t faults;
        std::string log;
    };
    auto run = [&](ZarrLogLevel level) {
        Seen seen{};
        TempDir td(args, index);
        const auto before = Zarr_get_log_level();
        Zarr_set_log_level(level);
        LogCapture cap;
        std::atomic<uint64_t> hits{ 0 };
        const std::string root = td.p.string();
        if (s3) {
            svc_reset();
            if (fault) {
                svc().set_fault([&](azs3::Op op, uint64_t, const std::string& key) {
                    const bool hit = (op == azs3::Op::PutObject || (fault == 3 && op != azs3::Op::ListBuckets && op != azs3::Op::BucketExists)) &&
                                     hash_str(key, salt) % every == 0;
                    hits += hit;
                    return hit ? (fault == 1 ? azs3::Fault::Error : fault == 2 ? azs3::Fault::EmptyReply : azs3::Fault::Throw) : azs3::Fault::None;
                });
            }
        } else {
            fsf::arm(root, [&](fsf::Op op, const std::string& p, uint64_t) {
                fsf::Action a;
                if (fault && p.size() > root.size() && op == (fault == 1 ? fsf::Open : fsf::Write)) {
                    a.err = hash_str(p.substr(root.size()), salt) % every == 0 ? (fault == 1 ? EACCES : ENOSPC) : 0;
                }
                return a;
            });
        }
        S3Opts so;
        auto* s = create(c, s3 ? "s.zarr" : td / "s.zarr", s3 ? &so : nullptr);
        seen.created = s != nullptr;
        if (s) {
            size_t off = 0;
            for (auto n : cuts) {
                size_t out = 0;
                auto code = ZarrStream_append(s, data.data() + off, n, &out);
                seen.codes.push_back((int)code);
                seen.counts.push_back(code == ZarrStatusCode_Success ? out : 0);
                off += n;
            }
            ZarrStream_destroy(s);
        }
        seen.faults = s3 ? hits.load() : fsf::faults();
        fsf::disarm();
        svc().set_fault(nullptr);
        seen.log = cap.out() + cap.err();
        seen.store = s3 ? svc().objects("az-bucket") : load_dir(td / "s.zarr");
        if (Zarr_get_log_level() != level) {
            rep.bad("log.level", "the library changed the log level");
        }
        Zarr_set_log_level(before);
        return seen;
    };
    auto base = run(ZarrLogLevel_Debug);
    for (auto level : { ZarrLogLevel_Info, ZarrLogLevel_Warning, ZarrLogLevel_Error, ZarrLogLevel_None }) {
        auto s = run(level);
        const std::string ctx = "log level " + std::to_string(level) + " against Debug: ";
        if (level == ZarrLogLevel_None && !s.log.empty()) {
            rep.bad("log.none", "level None, yet something was logged: " + s.log.substr(0, 200));
        }
        if (s.created != base.created) {
            rep.bad("log.changes-status", ctx + "creation " + (s.created ? "succeeded" : "failed"));
        }
        if (s.codes != base.codes || s.counts != base.counts) {
            size_t k = 0;
            while (k < s.codes.size() && k < base.codes.size() && s.codes[k] == base.codes[k] && s.counts[k] == base.counts[k]) {
                ++k;
            }
            rep.bad("log.changes-status", ctx + "append " + std::to_string(k) + " returned " +
                                            (k < s.codes.size() ? std::to_string(s.codes[k]) : "nothing") + " instead of " +
                                            (k < base.codes.size() ? std::to_string(base.codes[k]) : "nothing"));
        }
        if (base.faults == 0 && s.faults == 0 && s.store != base.store) {
            rep.bad("log.changes-store", ctx + "the store differs");
        }
        rep.count("comparisons");
    }
    bool failed = !base.created;
    for (auto code : base.codes) {
        failed = failed || code;
    }
    rep.count("faults_injected", base.faults);
    rep.count(failed ? "failures_detected" : "successes");
    rep.sigs.push_back(std::string(s3 ? "s3" : "fs") + std::to_string(fault) + (failed ? "f" : "s") + (base.created ? "" : "c") + " " + signature(c));
}
