// The Python side of python.cc: builds settings and arrays at random, streams, and tells what it saw.
static const char* const python_driver = R"PY(
import gc, json, os, random, sys, tempfile, threading, traceback
import numpy as np
import acquire_zarr as az
import azv

DTYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"]
KINDS = ["SPACE", "CHANNEL", "TIME", "OTHER"]
CODECS = ["NONE", "BLOSC_LZ4", "BLOSC_ZSTD"]
COMPRESSORS = ["NONE", "BLOSC1"]


class Report:
    def __init__(self):
        self.bad, self.counts, self.seen = [], {}, set()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def expect(self, ok, key, msg):
        self.count("facts_checked")
        if not ok:
            self.bad.append([key, msg])

    def raises(self, what, kinds, f):
        self.count("errors_provoked")
        try:
            f()
        except kinds:
            return True
        except BaseException as e:
            self.bad.append(["python.exception-type", f"{what}: {type(e).__name__}: {e}"])
            return False
        self.bad.append(["python.no-exception", f"{what}: nothing was raised"])
        return False


class Sub(np.ndarray):
    pass


# ---------------------------------------------------------------------------------------------------- settings objects
def set_in_some_way(rng, cls, values):
    """an object of cls with the given properties: by keywords, by attributes, or both, overwriting"""
    how = rng.randrange(4)
    items = list(values.items())
    rng.shuffle(items)
    if how == 0:
        return cls(**dict(items))
    o = cls()
    if how == 2:
        k = rng.randrange(len(items) + 1)
        o = cls(**dict(items[:k]))
        items = items[k:]
    if how == 3:  # set twice
        for k, v in reversed(items):
            setattr(o, k, v)
    for k, v in items:
        setattr(o, k, v)
    return o


def dimension(rng, d):
    return set_in_some_way(rng, az.Dimension, dict(name=d[0], kind=getattr(az.DimensionType, KINDS[d[1]]), array_size_px=d[2],
                                                   chunk_size_px=d[3], shard_size_chunks=d[4]))


def fill_dimensions(rng, s, dims):
    ds = [dimension(rng, d) for d in dims]
    how = rng.randrange(5)
    if how == 0:
        s.dimensions.extend(ds)
    elif how == 1:
        for d in ds:
            s.dimensions.append(d)
    elif how == 2:
        v = az.VectorDimension(ds)
        s.dimensions = v
        del v
    elif how == 3:
        for d in reversed(ds):
            s.dimensions.insert(0, d)
    else:
        for d in ds:
            s.dimensions.append(az.Dimension())
        for i, d in enumerate(ds):
            if i % 2:
                s.dimensions[i] = d
            else:
                e = s.dimensions[i]  # a reference into the list
                for k in ("name", "kind", "array_size_px", "chunk_size_px", "shard_size_chunks"):
                    setattr(e, k, getattr(d, k))
    for d in ds:  # copies: changing them now has no effect
        d.name = "changed"
        d.array_size_px = 999


def settings(rng, spec):
    values = dict(store_path=spec["path"], version=getattr(az.ZarrVersion, "V%d" % spec["version"]),
                  data_type=getattr(az.DataType, DTYPES[spec["dtype"]].upper()), multiscale=spec["multiscale"])
    if "custom" in spec:
        values["custom_metadata"] = spec["custom"]
    elif rng.random() < 0.3:
        values["custom_metadata"] = None
    if "compression" in spec:
        co, cc, le, sh = spec["compression"]
        values["compression"] = set_in_some_way(rng, az.CompressionSettings, dict(
            compressor=getattr(az.Compressor, COMPRESSORS[co]), codec=getattr(az.CompressionCodec, CODECS[cc]), level=le, shuffle=sh))
    elif rng.random() < 0.3:
        values["compression"] = None
    if "s3" in spec:
        values["s3"] = set_in_some_way(rng, az.S3Settings, dict(zip(("endpoint", "bucket_name", "access_key_id", "secret_access_key"), spec["s3"])))
    elif rng.random() < 0.3:
        values["s3"] = None
    dims_by_keyword = rng.random() < 0.25
    if dims_by_keyword:
        values["dimensions"] = az.VectorDimension([dimension(rng, d) for d in spec["dims"]])
    s = set_in_some_way(rng, az.StreamSettings, values)
    if not dims_by_keyword:
        fill_dimensions(rng, s, spec["dims"])
    return s


def check_settings(rep, s, spec):
    """what was set is what is there"""
    rep.expect(s.store_path == spec["path"], "python.settings", f"store_path is {s.store_path!r} instead of {spec['path']!r}")
    rep.expect(s.version == getattr(az.ZarrVersion, "V%d" % spec["version"]), "python.settings", f"version is {s.version}")
    rep.expect(s.data_type == getattr(az.DataType, DTYPES[spec["dtype"]].upper()), "python.settings", f"data_type is {s.data_type}")
    rep.expect(s.multiscale is spec["multiscale"], "python.settings", f"multiscale is {s.multiscale}")
    rep.expect(s.custom_metadata == spec.get("custom"), "python.settings", f"custom_metadata is {s.custom_metadata!r}")
    c = s.compression
    rep.expect((c is None) == ("compression" not in spec), "python.settings", f"compression is {c}")
    if c is not None and "compression" in spec:
        rep.expect([int(c.compressor), int(c.codec), c.level, c.shuffle] == spec["compression"], "python.settings", f"compression is {c}")
    t = s.s3
    rep.expect((t is None) == ("s3" not in spec), "python.settings", f"s3 is {t}")
    if t is not None and "s3" in spec:
        rep.expect([t.endpoint, t.bucket_name, t.access_key_id, t.secret_access_key] == spec["s3"], "python.settings", f"s3 is {t}")
        rep.expect(len(spec["s3"][3]) < 6 or spec["s3"][3] not in repr(t), "python.secret", "repr shows the whole secret")
    got = [[d.name, int(d.kind), d.array_size_px, d.chunk_size_px, d.shard_size_chunks] for d in s.dimensions]
    rep.expect(got == spec["dims"], "python.settings", f"dimensions are {got} instead of {spec['dims']}")
    text = repr(s)
    rep.expect(isinstance(text, str) and all(d[0] in text for d in spec["dims"]), "python.repr", text[:300])


# --------------------------------------------------------------------------------------------------------------- arrays
def layout(rng, flat, shape, tmp, rep):
    """an array of this shape with these elements in C order, in some memory layout; and the memory behind it, if it may be written"""
    x = flat.reshape(shape)
    nd = x.ndim
    how = rng.choice(["c", "c", "readonly", "fortran", "permuted", "negative", "padded", "steps", "unaligned", "memmap", "subclass", "bytes",
                      "strange-ones", "two", "overlap", "broadcast"])
    if x.size == 0 and how in ("memmap", "overlap", "broadcast"):
        how = "c"
    if nd == 0 and how not in ("readonly", "unaligned", "subclass", "strange-ones"):
        how = "c"
    base = None
    if how == "c":
        a = base = x.copy()
    elif how == "readonly":
        a = np.frombuffer(x.tobytes(), dtype=x.dtype).reshape(shape)
    elif how == "fortran":
        a = base = np.asfortranarray(x.copy())
    elif how == "permuted":
        p = list(range(nd))
        rng.shuffle(p)
        base = np.ascontiguousarray(x.transpose(p))
        a = base.transpose(np.argsort(p)) if nd else base
    elif how == "negative":
        f = tuple(slice(None, None, rng.choice([1, -1])) for _ in range(nd))
        base = np.ascontiguousarray(x[f])
        a = base[f]
    elif how in ("padded", "two"):
        lo = [rng.randrange(3) for _ in shape]
        hi = [rng.randrange(3) for _ in shape]
        base = np.full([n + i + j for n, i, j in zip(shape, lo, hi)], 77).astype(x.dtype)
        a = base[tuple(slice(i, i + n) for n, i in zip(shape, lo))]
        a[...] = x
        if how == "two" and nd:
            base = np.ascontiguousarray(base[::-1])
            a = base[::-1][tuple(slice(i, i + n) for n, i in zip(shape, lo))]
    elif how == "steps":
        st = [rng.randrange(1, 4) for _ in shape]
        base = np.full([max(1, n * k) for n, k in zip(shape, st)], 78).astype(x.dtype)
        a = base[tuple(slice(None, n * k, k) for n, k in zip(shape, st))]
        a[...] = x
    elif how == "unaligned":
        raw = bytearray(b"\x01" + x.tobytes())
        a = np.frombuffer(raw, dtype=x.dtype, offset=1).reshape(shape)
        base = np.frombuffer(raw, dtype="u1")
    elif how == "memmap":
        fn = os.path.join(tmp, "m%d" % rng.randrange(1 << 40))
        a = base = np.memmap(fn, dtype=x.dtype, mode="w+", shape=x.shape)
        a[...] = x
    elif how == "subclass":
        base = x.copy()
        a = base.view(Sub)
    elif how == "bytes":
        a = base = x.copy().view("u1") if nd and x.size else x.copy()
    elif how == "strange-ones":  # axes of length 1 may have any stride
        base = x.copy()
        a = np.lib.stride_tricks.as_strided(base.reshape((1,) + shape + (1,)), shape=(1,) + shape + (1,), strides=(12345 * x.itemsize,) + base.strides + (-7,))
    elif how == "overlap":  # sliding windows over one line
        n = shape[-1] if nd else 1
        base = np.resize(x.reshape(-1), n + (x.size // n if n else 0)).copy()
        m = base.size - n + 1
        k = max(1, x.size // max(1, n))
        a = np.lib.stride_tricks.as_strided(base, shape=(min(k, m), n), strides=(base.itemsize, base.itemsize))
        if a.size != x.size:
            a = base = x.copy()
    else:  # broadcast: one line for all
        if nd < 2:
            a = base = x.copy()
        else:
            base = x.reshape(-1, shape[-1])[0].copy()
            a = np.broadcast_to(base, shape)
    rep.seen.add(how + ("" if a.flags.c_contiguous else "!") + str(a.ndim))
    if not a.flags.c_contiguous:
        rep.count("noncontiguous_arrays")
    return a, base


def pieces(rng, spec, data):
    """cuts the bytes into arrays: whole frames, several frames, single elements, fractions of frames"""
    dt = np.dtype(DTYPES[spec["dtype"]])
    h, w = spec["dims"][-2][2], spec["dims"][-1][2]
    fb = h * w * dt.itemsize
    off, style = 0, rng.randrange(4)
    while off < len(data):
        left = len(data) - off
        n = rng.choice([1, 1, 2, 3, 7]) if style < 3 else 1
        kind = style if style < 3 else rng.randrange(4)
        if rng.random() < 0.05:
            yield off, 0, dt, rng.choice([(0, h, w), (h, 0), (0,)])
        if kind <= 1 and left >= fb:
            n = min(n, left // fb)
            yield off, n * fb, dt, ((h, w) if n == 1 and rng.random() < 0.7 else (n, h, w))
            off += n * fb
        elif kind == 2:
            m = min(left // dt.itemsize, rng.choice([1, w, w * max(1, h // 2), w * h + 1, 3]))
            if m == 1 and rng.random() < 0.5:
                yield off, dt.itemsize, dt, ()
            else:
                yield off, m * dt.itemsize, dt, (m,)
            off += m * dt.itemsize
        else:
            m = min(left, rng.choice([1, 5, fb, fb + 1, 64]))
            yield off, m, np.dtype("u1"), ((m,) if m % 2 or rng.random() < 0.5 else (2, m // 2))
            off += m


WRONG = [lambda: [1, 2, 3], lambda: None, lambda: b"abcd", lambda: 7, lambda: "x", lambda: memoryview(b"abcd"), lambda: {"a": 1}, lambda: (1, 2)]


def stream(rng, spec, data, rep, failing=False):
    """Streams and returns what the arrays hold, in C order, and the outcome of each append."""
    appended, outcomes = [], []
    tmp = spec["tmp"]
    s = settings(rng, spec)
    check_settings(rep, s, spec)
    azv.statuses()
    try:
        z = az.ZarrStream(s)
        calls, bad = azv.statuses()
        rep.expect(bad == 0, "python.silent", "ZarrStream_create failed, ZarrStream(settings) did not raise")
    except RuntimeError as e:
        calls, bad = azv.statuses()
        rep.expect(calls == 0 or bad != 0, "python.create", f"ZarrStream_create succeeded, ZarrStream(settings) raised {e}")
        rep.expect(failing, "python.create", f"ZarrStream raised {e} for valid settings")
        return b"", ["create"]
    # the stream has its own copy of everything
    s.store_path = "/nonexistent/elsewhere"
    s.custom_metadata = "{}"
    for d in s.dimensions:
        d.chunk_size_px = 0
    s.dimensions.clear()
    if rng.random() < 0.5:
        del s
        gc.collect()
    rep.expect(z.is_active() is True, "python.active", "a new stream is not active")
    for off, n, dt, shape in pieces(rng, spec, data):
        flat = np.frombuffer(data, dtype=dt, offset=off, count=n // dt.itemsize) if n else np.empty(0, dtype=dt)
        a, base = layout(rng, flat, shape, tmp, rep)
        want = a.tobytes()
        if rng.random() < 0.03:
            w = rng.choice(WRONG)()
            rep.raises(f"append({type(w).__name__})", (TypeError,), lambda: z.append(w))
        refs = sys.getrefcount(a)
        azv.statuses()
        try:
            r = z.append(a)
            rep.expect(r is None, "python.append", f"append returned {r!r}")
            outcomes.append(0)
            bad = azv.statuses()[1]
            rep.expect(bad == 0, "python.silent", f"ZarrStream_append returned {bad} ({azv.status_message(bad)}), append did not raise")
        except RuntimeError as e:
            calls, bad = azv.statuses()
            rep.expect(calls == 0 or bad != 0, "python.append", f"ZarrStream_append succeeded, append raised {e}")
            rep.expect(failing, "python.append", f"append of {a.shape} {a.dtype} strides {a.strides} raised {e}")
            rep.expect(str(e) != "", "python.message", "an exception without a message")
            outcomes.append(1)
        rep.expect(sys.getrefcount(a) == refs, "python.refcount", f"append changed the array's references from {refs} to {sys.getrefcount(a)}")
        rep.expect(a.tobytes() == want, "python.modified", "append changed the array")
        appended.append(want)
        rep.count("arrays_appended")
        if base is not None and base.flags.writeable:
            base[...] = 85  # the caller may reuse it at once
        del a, base
    rep.expect(z.is_active() is True, "python.active", "the stream is not active after appending")
    end = rng.randrange(3)
    if end == 0:
        del z
    elif end == 1:
        hold = [z]
        hold.append(hold)  # only the collector finds it
        del z, hold
        gc.collect()
    else:
        z = None
    return b"".join(appended), outcomes


def guarded(f):
    def g(text, data):
        rep = Report()
        out = b""
        spec = json.loads(text)
        extra = {}
        try:
            out, extra = f(random.Random(spec["seed"]), spec, data, rep)
        except BaseException:
            rep.bad.append(["python.exception", traceback.format_exc()[-1200:]])
        gc.collect()
        return json.dumps(dict(bad=rep.bad[:20], counts=rep.counts, seen=sorted(rep.seen), **extra)), out
    return g


@guarded
def store(rng, spec, data, rep):
    out, outcomes = stream(rng, spec, data, rep)
    return out, dict(outcomes=outcomes)


@guarded
def failing(rng, spec, data, rep):
    out, outcomes = stream(rng, spec, data, rep, failing=True)
    return out, dict(outcomes=outcomes)


@guarded
def threads(rng, spec, data, rep):
    """several streams in several Python threads"""
    outs, errs = {}, []

    def one(k, sp, seed):
        try:
            mine = Report()
            outs[k] = stream(random.Random(seed), sp, data, mine)[0]
            with lock:
                rep.bad += mine.bad
                rep.seen |= mine.seen
                for n, v in mine.counts.items():
                    rep.count(n, v)
        except BaseException:
            errs.append(traceback.format_exc()[-800:])

    lock = threading.Lock()
    ts = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    for k in range(spec["streams"]):
        sp = dict(spec, path=spec["path"] + str(k))
        ts.append(threading.Thread(target=one, args=(k, sp, rng.random())))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    for e in errs:
        rep.bad.append(["python.exception", e])
    rep.expect(len(outs) == len(ts) or errs, "python.threads", "a thread is missing")
    if len({outs[k] for k in outs}) > 1:
        pass  # layouts differ, and some of them change the content
    return b"".join(len(outs.get(k, b"")).to_bytes(8, "little") + outs.get(k, b"") for k in range(len(ts))), {}


def text(rng, n=12):
    return "".join(rng.choice("abc XYZ09_/\\\"'{}<>\u00e9\u4e2d\U0001f600\t") for _ in range(rng.randrange(n)))


def plain(rng, n):  # keys are ASCII
    return "".join(rng.choice("abcXYZ019/+=") for _ in range(rng.randrange(n)))


@guarded
def properties(rng, spec, data, rep):
    # enumerators keep their names, values and identity
    for enum, names, values in ((az.DataType, [d.upper() for d in DTYPES], range(10)), (az.DimensionType, KINDS, range(4)), (az.Compressor, COMPRESSORS, range(2)),
                                (az.CompressionCodec, CODECS, range(3)), (az.ZarrVersion, ["V2", "V3"], (2, 3)),
                                (az.LogLevel, ["DEBUG", "INFO", "WARNING", "ERROR", "NONE"], range(5))):
        for n, v in zip(names, values):
            e = getattr(enum, n)
            rep.expect(int(e) == v and e.name == n and e == enum(v) and e.value == v, "python.enum", f"{enum.__name__}.{n} is {int(e)} {e.name}")
        rep.expect(list(enum.__members__) == names, "python.enum", f"{enum.__name__} has {list(enum.__members__)}")
    # defaults
    s = az.StreamSettings()
    rep.expect((s.store_path, s.custom_metadata, s.s3, s.compression, s.multiscale, len(s.dimensions)) == ("", None, None, None, False, 0), "python.default", repr(s))
    rep.expect(s.data_type == az.DataType.UINT8 and s.version == az.ZarrVersion.V2, "python.default", repr(s))
    d = az.Dimension()
    rep.expect((d.name, d.kind, d.array_size_px, d.chunk_size_px, d.shard_size_chunks) == ("", az.DimensionType.SPACE, 0, 0, 0), "python.default", repr(d))
    c = az.CompressionSettings()
    rep.expect((c.compressor, c.codec, c.level, c.shuffle) == (az.Compressor.NONE, az.CompressionCodec.NONE, 0, 0), "python.default", repr(c))
    t = az.S3Settings()
    rep.expect((t.endpoint, t.bucket_name, t.access_key_id, t.secret_access_key) == ("", "", "", ""), "python.default", repr(t))
    # every value comes back
    for _ in range(20):
        v = dict(name=text(rng), kind=rng.choice([getattr(az.DimensionType, k) for k in KINDS]), array_size_px=rng.choice([0, 1, 2**31, 2**32 - 1, rng.randrange(2**32)]),
                 chunk_size_px=rng.choice([0, 1, 2**32 - 1, rng.randrange(2**32)]), shard_size_chunks=rng.choice([0, 2**16, 2**32 - 1, rng.randrange(2**32)]))
        d = set_in_some_way(rng, az.Dimension, v)
        rep.expect({k: getattr(d, k) for k in v} == v, "python.settings", f"{v} came back as {d}")
        rep.expect(all(str(v[k]) in repr(d) for k in ("array_size_px", "chunk_size_px", "shard_size_chunks")) and v["name"] in repr(d), "python.repr", repr(d))
        v = dict(compressor=rng.choice([az.Compressor.NONE, az.Compressor.BLOSC1]), codec=rng.choice([getattr(az.CompressionCodec, k) for k in CODECS]),
                 level=rng.randrange(256), shuffle=rng.randrange(256))
        c = set_in_some_way(rng, az.CompressionSettings, v)
        rep.expect({k: getattr(c, k) for k in v} == v, "python.settings", f"{v} came back as {c}")
        v = dict(endpoint=text(rng), bucket_name=text(rng), access_key_id=plain(rng, 20), secret_access_key=plain(rng, 60))
        t = set_in_some_way(rng, az.S3Settings, v)
        rep.expect({k: getattr(t, k) for k in v} == v, "python.settings", f"{v} came back as {t}")
        rep.expect(len(v["secret_access_key"]) < 6 or f"secret_access_key='{v['secret_access_key']}'" not in repr(t), "python.secret", "repr shows the whole secret")
        s = set_in_some_way(rng, az.StreamSettings, dict(store_path=text(rng, 200), custom_metadata=rng.choice([None, "", text(rng, 100)]), s3=rng.choice([None, t]),
                                                        compression=rng.choice([None, c]), multiscale=rng.random() < .5))
        x = (s.store_path, s.custom_metadata, s.s3 is None, s.compression is None, s.multiscale)
        s.dimensions.append(d)
        e = s.dimensions[0]
        del s
        gc.collect()
        rep.expect(e.name == d.name and e.array_size_px == d.array_size_px, "python.lifetime", "a dimension changed when its settings went away")
        repr(e)
    # wrong values raise and change nothing
    d = az.Dimension(name="n", array_size_px=5, chunk_size_px=6, shard_size_chunks=7)
    any_error = (TypeError, ValueError, RuntimeError, OverflowError)
    for k in ("array_size_px", "chunk_size_px", "shard_size_chunks"):
        for w in (-1, 2**32, 2**64, "3", None, 1.5, [1]):
            rep.raises(f"Dimension.{k} = {w!r}", any_error, lambda: setattr(d, k, w))
            rep.raises(f"Dimension({k}={w!r})", any_error, lambda: az.Dimension(**{k: w}))
    for w in (None, 3, [1]):
        rep.raises(f"Dimension.name = {w!r}", any_error, lambda: setattr(d, "name", w))
    for w in ("TIME", 2.5, az.DataType.UINT8):
        rep.raises(f"Dimension.kind = {w!r}", any_error, lambda: setattr(d, "kind", w))
    rep.expect((d.name, d.kind, d.array_size_px, d.chunk_size_px, d.shard_size_chunks) == ("n", az.DimensionType.SPACE, 5, 6, 7), "python.settings", repr(d))
    c = az.CompressionSettings(level=3, shuffle=1)
    for k in ("level", "shuffle"):
        for w in (-1, 256, 2**40, "3", None, 1.5):
            rep.raises(f"CompressionSettings.{k} = {w!r}", any_error, lambda: setattr(c, k, w))
            rep.raises(f"CompressionSettings({k}={w!r})", any_error, lambda: az.CompressionSettings(**{k: w}))
    rep.expect((c.level, c.shuffle) == (3, 1), "python.settings", repr(c))
    s = az.StreamSettings()
    for k, ws in dict(store_path=(None, 3), version=("V2", 2.5, None), data_type=("uint8", None), s3=(3, "x", c), compression=(3, "x", d), dimensions=(3, None),
                      custom_metadata=(3, {})).items():
        for w in ws:
            rep.raises(f"StreamSettings.{k} = {w!r}", any_error, lambda: setattr(s, k, w))
            if w is not None:
                rep.raises(f"StreamSettings({k}={w!r})", any_error, lambda: az.StreamSettings(**{k: w}))
    rep.expect((s.store_path, s.s3, s.compression, s.version, s.data_type) == ("", None, None, az.ZarrVersion.V2, az.DataType.UINT8), "python.settings", repr(s))
    for w in (lambda: az.ZarrStream(), lambda: az.ZarrStream(None), lambda: az.ZarrStream(3), lambda: az.ZarrStream(az.Dimension())):
        rep.raises("ZarrStream of something else", any_error, w)
    # settings that no stream can have
    for _ in range(6):
        sp = json.loads(json.dumps(spec))
        how = rng.randrange(8)
        if how == 0:
            sp["path"] = ""
        elif how == 1:
            sp["dims"] = sp["dims"][:2]
        elif how == 2:
            sp["dims"][rng.randrange(len(sp["dims"]))][3] = 0
        elif how == 3:
            sp["dims"][rng.randrange(1, len(sp["dims"]))][2] = 0
        elif how == 4:
            sp["custom"] = rng.choice(["{", "nope", "{\"a\":}"])
        elif how == 5:
            sp["dims"][rng.randrange(len(sp["dims"]))][0] = ""
        elif how == 6:
            sp["compression"] = [1, 1, 10 + rng.randrange(200), 0]
        else:
            sp["s3"] = rng.choice([["", "b", "k", "s"], ["http://x", "", "k", "s"], ["http://x", "b", "", "s"], ["http://x", "b", "k", ""]])
        s = settings(rng, sp)
        rep.raises(f"ZarrStream with invalid settings ({how})", (RuntimeError,), lambda: az.ZarrStream(s))
    # log levels go through
    levels = [az.LogLevel.DEBUG, az.LogLevel.INFO, az.LogLevel.WARNING, az.LogLevel.ERROR, az.LogLevel.NONE]
    old = az.get_log_level()
    for _ in range(8):
        v = rng.choice(levels)
        rep.expect(az.set_log_level(v) is None if rng.random() < .5 else az.set_log_level(level=v) is None, "python.log", "set_log_level returned something")
        rep.expect(az.get_log_level() == v and azv.log_level() == int(v), "python.log", f"{v} was set, the level is {az.get_log_level()}, {azv.log_level()} in C")
        u = rng.randrange(5)
        azv.set_log_level(u)
        rep.expect(int(az.get_log_level()) == u, "python.log", f"{u} was set in C, get_log_level says {az.get_log_level()}")
    for w in (None, "DEBUG", 1.5):
        rep.raises(f"set_log_level({w!r})", any_error, lambda: az.set_log_level(w))
    az.set_log_level(old)
    return b"", {}
)PY";
