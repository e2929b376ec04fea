"""Builds the harness together with the library, from /repo's working tree, with a content-hash object cache."""
import fcntl
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("AZV_REPO", "/repo"))
BUILD = Path(os.environ.get("AZV_BUILD", VERIF / "build"))

VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=enum,vptr "
                        "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS", ""),
    "asanx": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=enum,vptr "
                         "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DAZV_PERTURB", ""),
    "tsan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -DAZV_PERTURB", ""),
    "plain": ("clang++", "-O1 -g1 -fno-omit-frame-pointer", ""),
}
COMMON = ["-std=c++20", "-include", "string", "-fPIE", "-DACQUIRE_ZARR_API_VERSION=\"0.0.1\"", "-w"]


class BuildError(Exception):
    pass


def _headers_digest(repo, harness):
    h = hashlib.sha256()
    for root in (repo / "include", repo / "src", repo / "python", VERIF / "shim", harness):
        for p in sorted(root.rglob("*")):
            if p.is_file() and p.suffix in (".h", ".hh", ".hpp", ".hxx", ".inl", ".ipp", ".def", ""):
                h.update(str(p.relative_to(root)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.digest()


def library_sources(repo=REPO):
    out = []
    for d in ("src/streaming", "src/logger"):
        out += sorted((repo / d).rglob("*.cpp"))
    return out


def build(variant, harness_sources, name, extra_flags=(), link=(), repo=REPO, with_library=True):
    """Returns the path of the binary <name>, built from the library and harness_sources (paths under /verif/harness, or under
    /repo if they begin with "repo:")."""
    cxx, cflags, lflags = VARIANTS[variant]
    harness = VERIF / "harness"
    inc = [f"-I{VERIF / 'shim'}", f"-I{repo / 'include'}", f"-I{repo / 'src' / 'logger'}", f"-I{repo / 'src' / 'streaming'}",
           f"-I{harness}"]
    flags = cflags.split() + COMMON + list(extra_flags) + inc
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hd = _headers_digest(repo, harness)
        sources = (library_sources(repo) if with_library else []) + [repo / s[5:] if s.startswith("repo:") else harness / s for s in harness_sources]
        jobs, objs = [], []
        for src in sources:
            key = hashlib.sha256(hd + " ".join([cxx] + flags).encode() + str(src).encode() + src.read_bytes()).hexdigest()[:24]
            obj = BUILD / "obj" / variant / f"{src.stem}-{key}.o"
            objs.append(obj)
            if not obj.exists():
                jobs.append((src, obj))
        (BUILD / "obj" / variant).mkdir(parents=True, exist_ok=True)

        def compile_one(job):
            src, obj = job
            tmp = obj.with_suffix(".tmp")
            r = subprocess.run([cxx] + flags + ["-c", str(src), "-o", str(tmp)], capture_output=True, text=True)
            if r.returncode == 0:
                tmp.rename(obj)
                return None
            return f"{src}:\n{r.stderr[-4000:]}"

        # big translation units first
        jobs.sort(key=lambda j: -j[0].stat().st_size)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            errors = [e for e in ex.map(compile_one, jobs) if e]
        if errors:
            raise BuildError("compilation failed\n" + "\n".join(errors))
        lk = hashlib.sha256(("\n".join(map(str, objs)) + lflags + " ".join(link)).encode()).hexdigest()[:16]
        exe = BUILD / "bin" / f"{name}-{variant}-{lk}"
        if not exe.exists():
            exe.parent.mkdir(parents=True, exist_ok=True)
            r = subprocess.run([cxx] + cflags.split() + lflags.split() + ["-fuse-ld=lld", "-rdynamic"] + list(map(str, objs)) +
                               ["-o", str(exe) + ".tmp", "-lblosc", "-lpthread", "-ldl"] + list(link), capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link failed\n" + r.stderr[-4000:])
            os.rename(str(exe) + ".tmp", exe)
        prune(variant, name, exe)
        return exe


def prune(variant, name, keep):
    """Keeps the cache small: the newest 12 binaries, and objects for about as many trees."""
    bins = sorted((BUILD / "bin").glob("*"), key=lambda p: p.stat().st_mtime, reverse=True)
    for p in bins[24:]:
        if p != keep:
            p.unlink(missing_ok=True)
    objs = sorted((BUILD / "obj").rglob("*.o"), key=lambda p: p.stat().st_mtime, reverse=True)
    for p in objs[1500:]:
        p.unlink(missing_ok=True)
