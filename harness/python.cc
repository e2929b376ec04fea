// The Python binding, in an embedded interpreter: what goes through it is compared with what goes through the C API.
#include <pybind11/pybind11.h>

#include "ffs.hh"
#include "python_driver.hh"
#include "reg.hh"
#include "s3common.hh"
#include <dirent.h>
using namespace hx;

extern "C" PyObject* PyInit_acquire_zarr();

// The binding's calls of the C API pass here (-Wl,--wrap): what they returned is what Python must see. While `fake` is set, some of them
// answer with a status of their own choice instead.
extern "C" ZarrStatusCode __real_ZarrStream_append(ZarrStream*, const void*, size_t, size_t*);
extern "C" ZarrStream* __real_ZarrStream_create(ZarrStreamSettings*);

namespace {
std::atomic<uint64_t> fake{ 0 };
thread_local std::vector<int> statuses; // of the calls this thread made since it last asked; -1: no stream, 0: fine
std::atomic<uint64_t> faked{ 0 };

bool
fake_now(uint64_t& pick)
{
    uint64_t f = fake.load();
    if (!f) {
        return false;
    }
    f = f * 6364136223846793005ull + 1442695040888963407ull;
    fake = f | 1;
    pick = f >> 40;
    return (f >> 33) % 6 == 0;
}
}

extern "C" ZarrStatusCode
__wrap_ZarrStream_append(ZarrStream* s, const void* data, size_t n, size_t* out)
{
    uint64_t pick;
    ZarrStatusCode rc;
    if (fake_now(pick)) {
        ++faked;
        if (out) {
            *out = 0;
        }
        rc = (ZarrStatusCode)(1 + pick % (ZarrStatusCodeCount - 1));
    } else {
        rc = __real_ZarrStream_append(s, data, n, out);
    }
    statuses.push_back((int)rc);
    return rc;
}

extern "C" ZarrStream*
__wrap_ZarrStream_create(ZarrStreamSettings* settings)
{
    uint64_t pick;
    ZarrStream* s = nullptr;
    if (!fake_now(pick)) {
        s = __real_ZarrStream_create(settings);
    } else {
        ++faked;
    }
    statuses.push_back(s ? 0 : -1);
    return s;
}

namespace {
// what the C calls since the last question returned: [number of calls, first failure]
PyObject*
c_statuses(PyObject*, PyObject*)
{
    int bad = 0;
    for (int v : statuses) {
        bad = bad ? bad : v;
    }
    PyObject* r = Py_BuildValue("(ni)", (Py_ssize_t)statuses.size(), bad);
    statuses.clear();
    return r;
}

PyObject*
c_status_message(PyObject*, PyObject* a)
{
    return PyUnicode_FromString(Zarr_get_status_message((ZarrStatusCode)PyLong_AsLong(a)));
}

PyObject*
c_log_level(PyObject*, PyObject*)
{
    return PyLong_FromLong(Zarr_get_log_level());
}
PyObject*
c_set_log_level(PyObject*, PyObject* a)
{
    Zarr_set_log_level((ZarrLogLevel)PyLong_AsLong(a));
    Py_RETURN_NONE;
}
PyMethodDef azv_methods[] = { { "log_level", c_log_level, METH_NOARGS, "" }, { "set_log_level", c_set_log_level, METH_O, "" }, { "statuses", c_statuses, METH_NOARGS, "" }, { "status_message", c_status_message, METH_O, "" }, {} };
PyModuleDef azv_module = { PyModuleDef_HEAD_INIT, "azv", "", -1, azv_methods };
PyObject*
init_azv()
{
    return PyModule_Create(&azv_module);
}

PyObject* driver = nullptr;

[[noreturn]] void
give_up(const char* what)
{
    fprintf(stderr, "python: %s\n", what);
    if (PyErr_Occurred()) {
        PyErr_Print();
    }
    fflush(stderr);
    _exit(2);
}

void
start()
{
    if (driver) {
        return;
    }
    PyImport_AppendInittab("acquire_zarr", PyInit_acquire_zarr);
    PyImport_AppendInittab("azv", init_azv);
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.utf8_mode = 1;
    pre.allocator = PYMEM_ALLOCATOR_MALLOC; // so that AddressSanitizer sees every object
    if (PyStatus_Exception(Py_PreInitialize(&pre))) {
        give_up("cannot preinitialize");
    }
    PyConfig cfg;
    PyConfig_InitIsolatedConfig(&cfg);
    cfg.site_import = 0;
    cfg.write_bytecode = 0;
    cfg.install_signal_handlers = 0;
    PyConfig_SetString(&cfg, &cfg.program_name, L"/usr/bin/python3");
    if (PyStatus_Exception(Py_InitializeFromConfig(&cfg))) {
        give_up("cannot initialize");
    }
    if (PyRun_SimpleString("import sys\nsys.path += ['/opt/veriftools/pyvenv/lib/python3.12/site-packages', "
                           "'/usr/lib/python3/dist-packages']\n")) {
        give_up("no sys.path");
    }
    PyObject* code = Py_CompileString(python_driver, "driver.py", Py_file_input);
    if (!code) {
        give_up("the driver does not compile");
    }
    driver = PyImport_ExecCodeModule("azv_driver", code);
    if (!driver) {
        give_up("the driver does not load");
    }
}

struct Answer
{
    json j;
    std::string bytes;
};

Answer
call(const char* fn, const json& spec, const Bytes& data)
{
    const std::string text = spec.dump();
    PyObject* f = PyObject_GetAttrString(driver, fn);
    PyObject* r = PyObject_CallFunction(f, "s#y#", text.data(), (Py_ssize_t)text.size(), data.data() ? (const char*)data.data() : "", (Py_ssize_t)data.size());
    Py_DECREF(f);
    if (!r) {
        give_up("the driver raised");
    }
    if (PyErr_Occurred()) {
        give_up("an exception is pending after the driver returned");
    }
    Answer a;
    const char* t = PyUnicode_AsUTF8(PyTuple_GetItem(r, 0));
    PyObject* b = PyTuple_GetItem(r, 1);
    a.j = json::parse(t);
    a.bytes.assign(PyBytes_AsString(b), (size_t)PyBytes_Size(b));
    Py_DECREF(r);
    return a;
}

void
take(const Answer& a, CaseReport& rep)
{
    for (auto& b : a.j["bad"]) {
        rep.bad(b[0], b[1]);
    }
    for (auto& [k, v] : a.j["counts"].items()) {
        rep.count(k.c_str(), v.get<uint64_t>());
    }
    for (auto& s : a.j["seen"]) {
        rep.sigs.push_back("array " + s.get<std::string>());
    }
}

json
spec_of(const Case& c, const std::string& path, const std::string& tmp, uint64_t seed)
{
    json j = { { "seed", seed & 0x7fffffff },   { "path", path },         { "tmp", tmp },
               { "version", c.version },       { "dtype", (int)c.dtype }, { "multiscale", c.multiscale } };
    for (auto& d : c.dims) {
        j["dims"].push_back({ d.name, (int)d.type, d.array, d.chunk, d.shard });
    }
    if (c.compressed) {
        j["compression"] = { c.compressor, c.codec, c.level, c.shuffle };
    }
    if (c.has_custom) {
        j["custom"] = c.custom;
    }
    return j;
}

Case
small_case(Rng& r)
{
    GenOpts o;
    o.max_yx = 24;
    o.max_dims = 5;
    o.max_chunks = 60;
    o.max_stream = 300 << 10;
    o.max_frames = 40;
    o.multiscale_percent = 20;
    return gen_case(r, o);
}

void
compare(const Store& want, const Store& got, CaseReport& rep, const std::string& ctx)
{
    for (auto& [k, v] : want) {
        auto it = got.find(k);
        if (it == got.end() || it->second != v) {
            rep.bad("python.store", ctx + k + (it == got.end() ? " is missing" : " differs") + " from what the C API writes for the same settings and bytes");
            return;
        }
    }
    for (auto& [k, v] : got) {
        if (!want.count(k)) {
            rep.bad("python.store", ctx + k + " exists, the C API does not write it");
            return;
        }
    }
    rep.count("stores_compared");
}

size_t
open_descriptors()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) {
            ++n;
        }
        closedir(d);
    }
    return n;
}
size_t
live_threads()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (readdir(d)) {
            ++n;
        }
        closedir(d);
    }
    return n;
}
bool
settles(const std::function<bool()>& f)
{
    for (int i = 0; i < 500; ++i) {
        if (f()) {
            return true;
        }
        usleep(2000);
    }
    return false;
}
} // namespace

HX_CASE(py_store)
{
    start();
    Case c = small_case(r);
    const bool s3 = r.chance(25);
    rep.sample = case_json(c);
    rep.sample["s3"] = s3;
    TempDir td(args, index), mm(args, index + 1000000000);
    auto spec = spec_of(c, s3 ? "some/prefix.zarr" : td / "s.zarr", mm.p.string(), r.next());
    S3Opts so;
    if (s3) {
        so = gen_s3(r);
        spec["s3"] = { so.endpoint, so.bucket, so.key, so.secret };
        svc_reset();
    }
    const auto data = stream_bytes(c, c.frames);
    const auto fds = open_descriptors(), threads = live_threads();
    LogCapture cap;
    auto a = call("store", spec, data);
    take(a, rep);
    if (!cap.err().empty() && rep.viol.empty()) {
        // provoked type errors are not the library's business, so nothing is logged as an error
        rep.bad("python.log", "errors were logged by a stream that reported success: " + cap.err().substr(0, 300));
    }
    if (!settles([&] { return open_descriptors() <= fds; })) {
        rep.bad("python.descriptors", std::to_string(open_descriptors() - fds) + " descriptors are still open after the stream was deleted");
    }
    if (!settles([&] { return live_threads() <= threads; })) {
        rep.bad("python.threads", "threads are still there after the stream was deleted");
    }
    Store got, want;
    const Bytes bytes(a.bytes.begin(), a.bytes.end());
    if (bytes.size() != data.size() && rep.viol.empty()) {
        rep.bad("python.driver", "the driver appended " + std::to_string(bytes.size()) + " of " + std::to_string(data.size()) + " bytes");
    }
    auto cuts = gen_cuts(r, bytes.size(), c.frame_bytes(), 0);
    if (s3) {
        got = strip_prefix(svc().objects(so.bucket), "some/prefix.zarr");
        std::vector<Problem> pr;
        check_callers(so, pr);
        rep.add(pr, "through Python");
        svc_reset();
        auto run = stream_to_s3(c, "some/prefix.zarr", bytes, cuts, so);
        want = strip_prefix(svc().objects(so.bucket), "some/prefix.zarr");
        if (run.reported()) {
            rep.inconclusive = "the C API failed";
            return;
        }
    } else {
        got = load_dir(td / "s.zarr");
        auto o = stream_to_dir(c, td / "twin", bytes, cuts, rep, "C twin");
        want = std::move(o.store);
    }
    compare(want, got, rep, s3 ? "S3: " : "");
    rep.count("frames", c.frames);
    if (s3) {
        rep.count("s3_stores");
    }
    rep.sigs.push_back((s3 ? "s3 " : "") + signature(c));
}

HX_CASE(py_threads)
{
    start();
    Case c = small_case(r);
    rep.sample = case_json(c);
    TempDir td(args, index), mm(args, index + 1000000000);
    auto spec = spec_of(c, td / "s", mm.p.string(), r.next());
    const int n = (int)r.range(2, 4);
    spec["streams"] = n;
    const auto data = stream_bytes(c, c.frames);
    {
        LogCapture cap;
        auto a = call("threads", spec, data);
        take(a, rep);
        size_t off = 0;
        for (int k = 0; k < n && off + 8 <= a.bytes.size(); ++k) {
            uint64_t len;
            memcpy(&len, a.bytes.data() + off, 8);
            Bytes bytes(a.bytes.begin() + (long)off + 8, a.bytes.begin() + (long)(off + 8 + len));
            off += 8 + len;
            auto o = stream_to_dir(c, td / "twin", bytes, gen_cuts(r, bytes.size(), c.frame_bytes(), 1), rep, "C twin");
            compare(o.store, load_dir(td / ("s" + std::to_string(k))), rep, "thread " + std::to_string(k) + ": ");
        }
    }
    rep.count("python_threads", (uint64_t)n);
    rep.sigs.push_back(std::to_string(n) + " " + signature(c));
}

// With the same files failing, Python raises exactly where the C API reports.
HX_CASE(py_failures)
{
    start();
    Case c = small_case(r);
    c.multiscale = false;
    const int fault = (int)r.range(0, 2);
    const uint64_t salt = r.next(), every = r.range(2, 12);
    rep.sample = case_json(c);
    TempDir td(args, index), mm(args, index + 1000000000);
    auto spec = spec_of(c, td / "s.zarr", mm.p.string(), r.next());
    const auto data = stream_bytes(c, c.frames);
    const std::string root = td.p.string();
    auto arm = [&] {
        fake = fault ? 0 : salt | 1;
        if (!fault) {
            return;
        }
        fsf::arm(root, [&](fsf::Op op, const std::string& p, uint64_t) {
            fsf::Action a;
            if (p.size() > root.size() && op == (fault == 1 ? fsf::Open : fsf::Write)) {
                a.err = hash_str(p.substr(root.size()), salt) % every == 0 ? (fault == 1 ? EACCES : ENOSPC) : 0;
            }
            return a;
        });
    };
    const auto fds = open_descriptors(), threads = live_threads();
    LogCapture cap;
    faked = 0;
    arm();
    auto a = call("failing", spec, data);
    const uint64_t hits = fault ? fsf::faults() : faked.load();
    fsf::disarm();
    fake = 0;
    take(a, rep);
    if (!settles([&] { return open_descriptors() <= fds && live_threads() <= threads; })) {
        rep.bad("python.leak", "descriptors or threads are left after a failed stream was deleted");
    }
    const bool created = !(a.j["outcomes"].size() == 1 && a.j["outcomes"][0].is_string());
    bool failed = !created;
    for (auto& o : a.j["outcomes"]) {
        failed = failed || (o.is_number() && o.get<int>());
    }
    rep.count("faked", faked);
    if (hits && !faked && !failed && cap.err().empty()) {
        rep.bad("python.silent", std::to_string(hits) + " failed calls were neither raised nor logged");
    }
    rep.count("faults_injected", hits);
    rep.count(failed ? "exceptions_raised" : "no_exception");
    // the interpreter and the library still work
    if (index % 4 == 0) {
        Case d = small_case(r);
        auto sp = spec_of(d, td / "again.zarr", mm.p.string(), r.next());
        auto b = call("store", sp, stream_bytes(d, d.frames));
        take(b, rep);
        Bytes bytes(b.bytes.begin(), b.bytes.end());
        auto o = stream_to_dir(d, td / "twin", bytes, gen_cuts(r, bytes.size(), d.frame_bytes(), 0), rep, "C twin");
        compare(o.store, load_dir(td / "again.zarr"), rep, "after a failure: ");
    }
    rep.sigs.push_back(std::to_string(fault) + (created ? failed ? "a" : "n" : "c") + " " + signature(c));
}

HX_CASE(py_properties)
{
    start();
    Case c = small_case(r);
    TempDir td(args, index);
    auto spec = spec_of(c, td / "s.zarr", td.p.string(), r.next());
    svc_reset();
    const auto fds = open_descriptors(), threads = live_threads();
    {
        LogCapture cap;
        auto a = call("properties", spec, {});
        take(a, rep);
    }
    if (!settles([&] { return open_descriptors() <= fds && live_threads() <= threads; })) {
        rep.bad("python.leak", "descriptors or threads are left after streams that could not be created");
    }
    if (fs::exists(td / "s.zarr")) {
        rep.bad("python.touched", "a stream with invalid settings left something on disk");
    }
    rep.sigs.push_back("properties " + std::to_string(index % 8));
}
