"""Which phases decide which property."""
from .runner import Phase

CHECKS = {}


def check(pid, level, technique, note, phases, rule, observe=None, assumptions=(), **kw):
    """observe: per subcommand, the counters that must not be zero for the run to count as evidence."""
    CHECKS[pid] = dict(level=level, technique=technique, note=note, phases=phases, rule=rule, observe=observe or {},
                       assumptions=list(assumptions), **kw)


def api(*files):
    return ["main.cc", "perturb.cc", "ffs.cc", *files]


STORE = api("api_store.cc")
LIVE = api("api_live.cc")
META = api("api_meta.cc")
PYR = api("api_pyramid.cc")
S3 = api("api_s3.cc")

GEN = ("cases are drawn from the seed: 3-6 dimensions of every type, ragged and oversized chunks and shards, all data types, codecs and "
       "patterns, frame counts at and around layer boundaries; two cases are distinct if they differ in version, type, tiling class "
       "per dimension, compression or the class of the stopping point, not only in sizes")
S3_ASSUME = "the S3 service is the strict in-memory stand-in of shim/miniocpp, not a real one (no network, minio-cpp not installed)"

HUGE = api("api_huge.cc")
HUGE_KW = dict(variant="plain", name="huge", workers=3, max_mb=24000, stall=300)
HUGE_RULE = "; and streams with a frame, chunk, shard or append call beyond 2 or 4 GiB, or with more than 65535 frames or chunks"
check("C01", "exploration", "runtime monitoring: generated streams under ASan+UBSan, independent Zarr V2 reader as oracle",
      "Every executed stream is decoded by a reader written from the Zarr V2 format and compared bit for bit; executions only, no proof.",
      [Phase("v2_roundtrip", STORE, 1600, 40000), Phase("huge_v2", HUGE, 6, 30, **HUGE_KW)], GEN + HUGE_RULE,
      {"v2_roundtrip": ["frames", "chunks_decoded", "bytes_read_back"], "huge_v2": ["streams"]})
check("C02", "exploration", "runtime monitoring: generated streams under ASan+UBSan, independent Zarr V3 shard reader as oracle",
      "Every executed stream is decoded through the shard indexes by an independent reader, index bounds, overlaps and strays included.",
      [Phase("v3_roundtrip", STORE, 1600, 40000), Phase("huge_v3", HUGE, 6, 30, **HUGE_KW)], GEN + HUGE_RULE,
      {"v3_roundtrip": ["frames", "chunks_decoded", "shards_read"], "huge_v3": ["streams"]})
check("C03", "exploration", "runtime monitoring: differential execution of one byte stream under eight append framings",
      "Stores written under different framings are compared byte for byte with the frame-at-a-time store; buffers are exact-size and "
      "scribbled over after each append, so over-reads and retained references show.",
      [Phase("framing", STORE, 400, 8000), Phase("huge_append", HUGE, 2, 12, **HUGE_KW)], GEN + "; and in the cut into append calls; and single "
      "append calls of more than 4 GiB", {"framing": ["store_comparisons", "cuts"]})
check("C04", "exploration", "runtime monitoring: every stopping point of generated configurations, store read back",
      "For each configuration all frame counts from 0 to two layers (shards in V3) plus one are executed and verified.",
      [Phase("prefixes", STORE, 240, 4000)], GEN, {"prefixes": ["stopping_points", "chunks_decoded"]})
check("C05", "fault_enumeration", "runtime monitoring: concurrent reader oracle after each append, and SIGKILL of the writer at random points",
      "A reader checks the acknowledged layers on disk after appends while the stream is open, and after killing a writer process.",
      [Phase("live", LIVE, 1200, 10000), Phase("sigkill", LIVE, 800, 8000, variant="plain")], GEN + "; and in the kill point",
      {"live": ["reader_visits", "durable_frames_checked", "level_prefixes_seen"], "sigkill": ["kills", "killed_mid_stream"]},
      ["a killed process, not a power failure: what reached the kernel counts as on disk"])
check("C06", "exploration", "runtime monitoring: metadata oracle over generated settings, names and custom JSON",
      "Every document of each finished store is parsed by an independent parser and compared with the settings.",
      [Phase("metadata", META, 2500, 30000)], GEN + "; and in the custom metadata", {"metadata": ["documents", "datasets", "facts_checked"]})
check("C07", "exploration", "runtime monitoring: each stored level recomputed in exact arithmetic from the stored level below",
      "Levels are read back and every pixel compared with the exact mean of its source pixels (128-bit integers, long double).",
      [Phase("pyramid", PYR, 1500, 40000), Phase("pyramid_levels", PYR, 300, 6000), Phase("huge_pyramid", HUGE, 1, 8, **HUGE_KW)],
      GEN + "; and frames beyond 2 GiB", {"pyramid": ["levels_checked", "pixels_checked"], "pyramid_levels": ["levels"]})
check("C08", "exploration", "runtime monitoring: differential S3/filesystem runs with an online protocol checker in the S3 service stand-in",
      "Objects are compared byte for byte with the files of the same stream; the request log is checked against the multipart protocol.",
      [Phase("s3_equal", S3, 800, 12000), Phase("s3_sink", ["main.cc", "perturb.cc", "s3pool.cc"], 400, 6000, name="s3pool"),
       Phase("huge_s3", HUGE, 3, 24, **HUGE_KW)], GEN + "; and objects beyond 4 GiB and 255 parts",
      {"s3_sink": ["writes", "bytes", "parts"], "huge_s3": ["bytes_in_parts"], "s3_equal": ["objects", "s3_requests", "multipart_uploads", "parts", "callers_checked"]}, [S3_ASSUME])
S3POOL = ["main.cc", "perturb.cc", "s3pool.cc"]
check("C09", "fault_enumeration", "runtime monitoring: injected S3 request faults, request-log and outcome oracle under ASan+UBSan",
      "Faults of four kinds at chosen requests, once or repeatedly; silence requires a complete store, completed uploads must have all parts.",
      [Phase("s3_faults", S3, 200, 4000), Phase("s3_sink_faults", S3POOL, 500, 8000, name="s3pool")],
      "random configurations with random fault plans (request kind, position, fault kind, repetition); distinct by the plan's class and "
      "by how the failure was reported; single sinks with faults at their requests, and writes that carry on after a failure",
      {"s3_faults": ["faults_injected", "reported_by_create", "reported_by_append", "reported_by_log", "multipart_uploads"],
       "s3_sink_faults": ["sink_faults", "published", "withheld"]}, [S3_ASSUME])

TPOOL = ["main.cc", "perturb.cc", "tpool.cc"]
check("C15", "exploration", "runtime monitoring: job ledger over random pool histories with injected lock delays, under ASan+UBSan and TSan",
      "Every job's acceptance, executions, thread and error report are recorded while producers, failing and nested jobs, stop and destruction race.",
      [Phase("tpool", TPOOL, 30000, 600000, name="tpool", stall=40), Phase("tpool", TPOOL, 6000, 100000, variant="tsan", name="tpool", stall=40),
       Phase("tpool_idle", TPOOL, 3000, 60000, name="tpool", stall=90)],
      "random pool histories: requested threads, producers, jobs, failing share, nesting, stop/destroy mode, delays; distinct by those classes",
      {"tpool": ["jobs_accepted", "jobs_refused", "jobs_executed", "jobs_failed", "queued_jobs_dropped"], "tpool_idle": ["waiting_jobs", "rounds"]})

DIMS = ["main.cc", "perturb.cc", "dims.cc"]
DIM_RULE = ("random geometries of 3-8 dimensions in four size classes (tiny ones enumerated frame by frame, the others at all edges and at random "
            "up to sizes that no longer fit memory); distinct by class, rank, element size and which counts exceed 32 bits")
check("C16", "exploration", "runtime monitoring: the mapping functions observed on generated geometries against exact 128-bit C-order positions, under UBSan",
      "Every executed placement is compared with the position computed from the multi-index; tiny layers are enumerated, large ones sampled.",
      [Phase("dims_place", DIMS, 40000, 1000000, name="dims"), Phase("v2_roundtrip", STORE, 300, 6000)], DIM_RULE,
      {"dims_place": ["frames_placed", "layers_enumerated", "layers_sampled", "counts_checked"], "v2_roundtrip": ["frames"]})
check("C17", "exploration", "runtime monitoring: the shard mapping observed on generated grids against exact C-order positions, and the files it creates",
      "Every executed mapping is compared with the position computed from the multi-index; small grids are enumerated; files are created and named.",
      [Phase("dims_shard", DIMS, 40000, 1000000, name="dims"), Phase("sink_order", DIMS, 800, 20000, name="dims"),
       Phase("v3_roundtrip", STORE, 300, 6000)], DIM_RULE,
      {"dims_shard": ["chunks_mapped", "grids_enumerated", "grids_sampled"], "sink_order": ["files"], "v3_roundtrip": ["chunks_decoded"]})

SINKS = api("sinks.cc")
check("C18", "exploration", "runtime monitoring: file sinks against a sparse byte-array model, with injected system-call faults, under ASan+UBSan",
      "Every write is read back through another descriptor when it returns, and each finalized file is compared with the model.",
      [Phase("file_sink", SINKS, 12000, 200000, name="sinks"), Phase("file_sink_open", SINKS, 600, 6000, name="sinks"),
       Phase("huge_file", HUGE, 2, 16, **HUGE_KW)],
      "random write sequences (overlaps, gaps, empty, around buffer sizes, beyond 2 and 4 GiB), single writes of more than 2 and 4 GiB, and unopenable files; distinct by number of "
      "sinks and writes, distance and fault class",
      {"file_sink": ["writes", "writes_failed", "faults_injected", "files_compared"], "file_sink_open": ["opens", "refused"], "huge_file": ["bytes_compared"]})
check("C19", "exploration", "runtime monitoring: vectorized writes against a byte-array model with short, interrupted and failing system writes, and a serializability oracle",
      "Every call's result is compared with the model; concurrent calls must be explained by some order of the calls.",
      [Phase("vector_write", SINKS, 6000, 100000, name="sinks"), Phase("vector_threads", SINKS, 4000, 60000, name="sinks"),
       Phase("vector_threads", SINKS, 1500, 20000, variant="tsan", name="sinks"), Phase("huge_vectors", HUGE, 3, 24, **HUGE_KW)],
      "random buffer lists (empty to three times IOV_MAX), offsets and single calls and buffers (beyond 2 and 4 GiB), older contents and fault plans; distinct by those classes",
      {"vector_write": ["true_returned", "false_returned", "faults_injected", "buffers"], "vector_threads": ["concurrent_calls", "short_writes"],
       "huge_vectors": ["buffers", "bytes_compared"]})

LOG = api("logger.cc")
check("C20", "exploration", "runtime monitoring: every line on file descriptors 1 and 2 checked against the messages sent; the same failing streams under all levels",
      "Lines are matched one to one with messages sent by up to eight threads; statuses and stores are compared across all log levels.",
      [Phase("log_lines", LOG, 4000, 60000, name="logger"), Phase("log_lines", LOG, 600, 8000, variant="tsan", name="logger"),
       Phase("log_indifferent", LOG, 1500, 30000, name="logger")],
      "random messages, threads and levels, with and without level changes while logging; random streams with path-determined faults under "
      "all levels; distinct by those classes",
      {"log_lines": ["lines_seen", "messages_suppressed"], "log_indifferent": ["comparisons", "failures_detected", "successes"]})

check("C25", "exploration", "runtime monitoring: connection ledger over concurrent get/return histories with injected lock delays, under ASan+UBSan and TSan",
      "Each connection's holder is tracked; blocked requests must be served by a return; connections are counted before and after.",
      [Phase("s3_pool", S3POOL, 4000, 80000, name="s3pool", stall=60), Phase("s3_pool", S3POOL, 1500, 20000, variant="tsan", name="s3pool", stall=60),
       Phase("s3_users", S3POOL, 1200, 20000, name="s3pool", stall=120), Phase("s3_users", S3POOL, 300, 5000, variant="tsan", name="s3pool", stall=120)],
      "random pool sizes, users, holding times, invalid connections and delays; distinct by those classes and the most connections held at once",
      {"s3_pool": ["gets", "cycles", "waiters", "pools_refused"], "s3_users": ["users_failed", "users_served", "requests_failed"]}, [S3_ASSUME])

SETTINGS = api("api_settings.cc")
check("C11", "exploration", "runtime monitoring: generated valid and invalid settings, accept/reject oracle, snapshots of the filesystem and the buckets",
      "Every rejection is compared with full snapshots (inodes, contents, links) of what was there; every acceptance is streamed to and read back.",
      [Phase("settings", SETTINGS, 6000, 100000)],
      "valid settings at their limits, and settings invalid in one or two of 24 ways over four states of the target path or bucket; distinct by "
      "way, backend, version and state", {"settings": ["accepted", "rejected"]}, [S3_ASSUME])
MEMORY = api("api_memory.cc", "memfault.cc")
check("C12", "exploration", "runtime monitoring: random API call histories under ASan+UBSan, refused threads, failing allocations and impossible sizes",
      "Each call's status is compared with the documented one; a crash, an escaping exception or a hang is attributed to its history.",
      [Phase("total", SETTINGS, 4000, 80000), Phase("total", SETTINGS, 2000, 40000, variant="plain"), Phase("no_threads", SETTINGS, 400, 4000),
       Phase("no_memory", MEMORY, 1500, 30000, variant="plain", name="memory"),
       Phase("impossible", MEMORY, 1500, 30000, variant="plain", name="memory", rlimits={"RLIMIT_AS": 2 << 30}),
       Phase("deep", MEMORY, 100, 1000, variant="plain", name="memory", rlimits={"RLIMIT_AS": 1 << 30})],
      "random call histories with null, out-of-range and garbage arguments and failing devices; distinct by history",
      {"total": ["calls", "garbage_accepted", "garbage_rejected", "appends_failed", "appends_succeeded"], "no_threads": ["threads_refused", "created", "not_created"],
       "no_memory": ["allocations_refused", "reported_by_create", "reported_by_append"], "impossible": ["reported_by_create", "reported_by_append"], "deep": ["created"]})

COMPR = api("api_compression.cc")
check("C22", "exploration", "runtime monitoring: compressed and uncompressed twin stores compared chunk by chunk, chunk headers against a reference compression, failing compressions injected",
      "The whole product of codec, level, shuffle and type is executed; each chunk is decompressed and compared with the twin's raw bytes.",
      [Phase("compression", COMPR, 700, 20000, name="compression"), Phase("compression_fails", COMPR, 1000, 20000, name="compression")],
      "streams of random tilings over the 600 combinations of codec, level, shuffle and type, random, smooth, extreme and constant data; distinct by "
      "settings, type, data pattern, version and size class",
      {"compression": ["chunks_decompressed", "chunks_as_reference", "none_streams"], "compression_fails": ["failed_compressions", "reported_by_append"]})

OWN = api("api_ownership.cc")
check("C24", "exploration", "runtime monitoring: snapshots of everything around the store, every file opened for writing, and the finished store against a fresh one",
      "Streams are created over files, trees, older stores and links, through several path forms; everything else in the scratch world must not change.",
      [Phase("ownership", OWN, 3000, 50000, name="ownership"), Phase("ownership_s3", OWN, 1500, 20000, name="ownership")],
      "12 prior contents times 9 path forms, nasty names and metadata, with and without faults; on S3 neighbours with similar keys in four buckets; "
      "distinct by prior content, path form, version and fault class",
      {"ownership": ["outside_snapshots", "files_opened_or_written", "stores_compared", "faulted_streams"], "ownership_s3": ["foreign_objects", "stores_compared"]},
      [S3_ASSUME])

RES = api("api_resources.cc", "memfault.cc")
check("C21", "exploration", "runtime monitoring: counted threads, descriptors, S3 clients and heap bytes over repeated life cycles with and without failures, and along long streams",
      "malloc and pthread_create are interposed; equal cycles must not each keep more memory, and every thread and descriptor must be gone.",
      [Phase("resources", RES, 10000, 150000, variant="plain", name="resources"), Phase("bounded", RES, 700, 5000, variant="plain", name="resources")],
      "random streams in ten modes (success, abandoned, filesystem, S3, thread and memory faults at random points, failures while destroying, invalid "
      "settings, unwritable paths), each repeated 3-17 times; long streams of 120 or more layers; distinct by mode, version, compression, levels and outcome",
      {"resources": ["cycles", "cycles_with_failed_appends", "streams_not_created", "faults"], "bounded": ["layers", "samples"]}, [S3_ASSUME])

SCHED = api("api_sched.cc")
check("C23", "exploration", "runtime monitoring: stores of one stream under perturbed schedules compared byte for byte; concurrent, failing and blocked streams beside each other",
      "Processor counts, thread limits, delays at locks, waits, system calls and S3 requests vary; every store is compared with a calm run's.",
      [Phase("schedules", SCHED, 500, 8000, variant="asanx", name="sched"), Phase("streams", SCHED, 700, 12000, variant="asanx", name="sched"),
       Phase("blocked", SCHED, 500, 8000, variant="asanx", name="sched")],
      "random streams on 1 to 8 processors, with refused threads and injected delays; two to five concurrent streams of both versions and backends, one "
      "of them failing in half of the cases; one stream blocked at a random operation; distinct by those classes",
      {"schedules": ["schedules", "store_comparisons", "delays_injected", "threads_refused"], "streams": ["concurrent_streams", "faulted_streams"],
       "blocked": ["blocked_streams"]}, [S3_ASSUME])

ALL = api("api_store.cc", "api_live.cc", "api_meta.cc", "api_pyramid.cc", "api_s3.cc", "api_settings.cc", "api_fsfault.cc", "api_compression.cc", "api_ownership.cc",
          "api_sched.cc", "dims.cc", "tpool.cc", "sinks.cc", "logger.cc", "s3pool.cc")


def everything(variant, table, **kw):
    return [Phase(sub, ALL, q, t, variant=variant, name="all", extra={"--perturb": 1, "--modest": 1, "--ctype": 1} if variant == "asanx" else {"--perturb": 1, "--modest": 1}, **kw) for sub, q, t in table]


VALGRIND = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=96", "--leak-check=no", "--fair-sched=yes", "--max-stackframe=16000000", "--num-callers=24"]
check("C13", "exploration", "sanitizers: ASan, UBSan (with float-cast-overflow) and checked standard containers over every workload, valgrind memcheck over a sample",
      "All harness workloads, faults included, run under the sanitizers with perturbed schedules; memcheck looks for uninitialised bytes used or written out.",
      everything("asanx", [("v2_roundtrip", 500, 10000), ("v3_roundtrip", 500, 10000), ("framing", 120, 3000), ("prefixes", 60, 1000), ("live", 300, 3000),
                           ("pyramid", 500, 10000), ("pyramid_levels", 60, 1000), ("s3_equal", 250, 4000), ("s3_faults", 60, 1500), ("fs_faults", 120, 3000),
                           ("total", 1500, 40000), ("settings", 1500, 40000), ("compression", 120, 3000), ("compression_fails", 500, 10000),
                           ("ownership", 400, 8000), ("streams", 250, 5000), ("s3_sink", 100, 2000), ("dims_place", 6000, 200000), ("dims_shard", 6000, 200000),
                           ("file_sink", 2500, 50000), ("vector_write", 1500, 30000), ("tpool", 5000, 100000), ("s3_pool", 800, 15000), ("s3_users", 200, 4000), ("s3_sink_faults", 150, 3000), ("log_lines", 600, 10000),
                           ("no_threads", 200, 3000)]) +
      [Phase("v2_roundtrip", ALL, 33, 600, variant="plain", name="all", wrapper=VALGRIND, tag="v2_roundtrip/valgrind", stall=300),
       Phase("v3_roundtrip", ALL, 33, 600, variant="plain", name="all", wrapper=VALGRIND, tag="v3_roundtrip/valgrind", stall=300),
       Phase("pyramid", ALL, 33, 600, variant="plain", name="all", wrapper=VALGRIND, tag="pyramid/valgrind", stall=300),
       Phase("s3_equal", ALL, 33, 400, variant="plain", name="all", wrapper=VALGRIND, tag="s3_equal/valgrind", stall=300),
       Phase("total", ALL, 110, 2000, variant="plain", name="all", wrapper=VALGRIND, extra={"--modest": 1}, tag="total/valgrind", stall=300),
       Phase("fs_faults", ALL, 11, 200, variant="plain", name="all", wrapper=VALGRIND, tag="fs_faults/valgrind", stall=300),
       Phase("no_memory", MEMORY, 700, 20000, variant="plain", name="memory")],
      "the cases of the other checks with other numbers, under perturbed schedules; distinct as described there",
      {"v2_roundtrip": ["chunks_decoded"], "s3_faults": ["faults_injected"], "fs_faults": ["faults_injected"], "total": ["calls"]},
      ["UBSan's enum and vptr checks are off (the C API takes any integer as an enumerator)", S3_ASSUME],
      only_keys=r"address\.|ub\.|valgrind\.|crash\.(?!exit)")
check("C14", "exploration", "sanitizers: ThreadSanitizer over single, concurrent, failing and blocked streams, pools and loggers, with injected delays",
      "Every pair of accesses the executions made is checked for a happens-before order; schedules are perturbed at locks, waits and thread starts.",
      everything("tsan", [("schedules", 160, 3000), ("streams", 350, 6000), ("blocked", 120, 2000), ("v2_roundtrip", 200, 4000), ("v3_roundtrip", 200, 4000),
                          ("pyramid", 150, 3000), ("s3_equal", 120, 2000), ("s3_faults", 40, 800), ("fs_faults", 80, 1500), ("compression_fails", 300, 5000),
                          ("total", 500, 10000), ("tpool", 3000, 60000), ("s3_pool", 700, 12000), ("s3_users", 100, 2000), ("s3_sink_faults", 100, 2000), ("log_lines", 300, 5000), ("vector_threads", 500, 8000),
                          ("no_threads", 100, 2000)]),
      "the multi-threaded cases of the other checks under ThreadSanitizer; distinct as described there",
      {"streams": ["concurrent_streams", "delays_injected"], "s3_faults": ["faults_injected"], "fs_faults": ["faults_injected"], "tpool": ["jobs_executed"]},
      ["ThreadSanitizer sees the library, the harness and the S3 stand-in; libstdc++ and libblosc are not instrumented", S3_ASSUME],
      only_keys=r"thread\.(?!lock-order)")

NOT_APPLICABLE = {}
FSF = api("api_fsfault.cc")
check("C10", "fault_enumeration", "runtime monitoring: faults injected into open/mkdir/write calls and made by the kernel, outcome oracle under ASan+UBSan",
      "Each plan fails chosen system calls on the store (or lets the kernel fail them); silence requires a byte-identical complete store, and "
      "layers acknowledged before a failure must be readable.",
      [Phase("fs_faults", FSF, 400, 8000), Phase("fs_real", FSF, 500, 8000)],
      "random configurations with random fault plans (call kind, position, errno or short write, repetition) and kernel-made faults; distinct "
      "by the plan's class and by how the failure was reported",
      {"fs_faults": ["faults_injected", "reported_by_create", "reported_by_append", "reported_by_log", "acknowledged_layers_checked"],
       "fs_real": ["kernel_faults", "kernel_device_full", "kernel_file_size", "kernel_descriptors"]},
      ["fsync is not called by the library and power failures are out of scope"])

PY = dict(variant="asan", name="python", link=("-lpython3.12", "-Wl,--wrap=ZarrStream_append", "-Wl,--wrap=ZarrStream_create"), stall=150)
PYTHON = api("python.cc", "repo:python/acquire-zarr-py.cpp")
check("C26", "exploration", "runtime monitoring: the binding in an embedded interpreter under ASan+UBSan, its stores compared with those of the C API",
      "The binding is compiled against a stand-in for pybind11; random settings and array layouts go through it and the same through the C API.",
      [Phase("py_store", PYTHON, 1200, 30000, **PY), Phase("py_properties", PYTHON, 200, 3000, **PY), Phase("py_failures", PYTHON, 400, 8000, **PY),
       Phase("py_threads", PYTHON, 150, 3000, **PY)],
      "random streams with settings built in random ways and arrays in 16 memory layouts; distinct by the stream's class and by layout and rank",
      {"py_store": ["stores_compared", "arrays_appended", "noncontiguous_arrays", "s3_stores"], "py_properties": ["errors_provoked", "facts_checked"],
       "py_failures": ["faults_injected", "exceptions_raised", "faked"], "py_threads": ["stores_compared"]},
      ["pybind11 is not installed: shim/pybind11 stands in for it, so the binding's own code is checked, not pybind11's", S3_ASSUME])
