"""Runs the cases of a harness subcommand in parallel worker processes, survives their crashes and hangs, and collects what
the monitors reported."""
import ctypes
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

UNPRIV = 65534


class Phase:
    def __init__(self, sub, sources, quick, thorough, variant="asan", name=None, stall=100, env=None, workers=11, cpus=None,
                 extra=None, unpriv=True, flags=(), link=(), rlimits=None, wrapper=None, tag=None, max_crashes=4,
                 max_mb=6000):
        self.__dict__.update(locals())
        self.name = name or "api"
        self.env = env or {}
        self.extra = extra or {}
        self.tag = tag or f"{sub}/{variant}"


class Result:
    def __init__(self):
        self.cases = 0
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.violations = []  # dicts: key, msg, phase, case, cmd
        self.inconclusive = []
        self.errors = []

    def merge(self, o):
        self.cases += o.cases
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.sigs |= o.sigs
        self.samples += o.samples
        self.violations += o.violations
        self.inconclusive += o.inconclusive
        self.errors += o.errors


def scratch_root():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (2 << 30):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


_can_drop = None


def can_drop():
    global _can_drop
    if _can_drop is None:
        try:
            _can_drop = os.geteuid() == 0 and subprocess.run(["/bin/true"], user=UNPRIV, group=UNPRIV, extra_groups=[]).returncode == 0
        except Exception:
            _can_drop = False
    return _can_drop


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:"
                    "quarantine_size_mb=96:max_allocation_size_mb=12000:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:print_summary=1",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1:print_summary=1:history_size=4:report_signal_unsafe=0",
}


def crash_key(rc, err):
    """A stable name for the way a worker died."""
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+(?: [\w-]+)?)", err)
    if m:
        what = m.group(2).replace(" ", "-")
        if m.group(1) == "UndefinedBehavior":
            u = re.search(r"runtime error: ([a-z -]+)", err)
            what = (u.group(1).strip().replace(" ", "-")[:50] if u else what)
            return "ub." + what
        return f"{m.group(1).lower()}.{what}"
    if "terminate called" in err or "terminating" in err:
        return "crash.terminate"
    if rc == 96:
        m = re.search(r"==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid (?:read|write|free)|Mismatched free|Source and dest|Argument .* fishy|Jump to)", err)
        return "valgrind." + (m.group(1).replace(" ", "-").lower() if m else "error")
    if rc < 0:
        try:
            return "crash." + signal.Signals(-rc).name
        except ValueError:
            return f"crash.signal{-rc}"
    return f"crash.exit{rc}"


def crash_excerpt(err):
    if "Memcheck" in err or re.search(r"^==\d+== ", err, re.M):
        return "\n".join(ln for ln in err.splitlines() if re.match(r"==\d+== ", ln))[-3500:]
    i = max(err.rfind("==ERROR"), err.rfind("runtime error:"), err.rfind("WARNING: ThreadSanitizer"))
    if i >= 0:
        j = err.rfind("\n", 0, i) + 1
        return err[j:j + 3500]
    return err[-2500:]


def available_mb():
    try:
        return int(re.search(r"MemAvailable:\s*(\d+)", Path("/proc/meminfo").read_text()).group(1)) >> 10
    except (OSError, AttributeError):
        return 1 << 30


class Worker:
    peak = 0

    def __init__(self, phase, exe, base, k, args, timeout_scale=1):
        self.phase, self.exe, self.base, self.k, self.args = phase, exe, base, k, args
        self.out = base / f"out.{k}.jsonl"
        self.err = base / f"err.{k}.txt"
        self.scr = base / f"scr.{k}"
        self.proc = None
        self.pos = 0
        self.partial = b""
        self.started = None
        self.finished = False
        self.last = time.monotonic()
        self.crashes = 0
        self.runaway = False
        self.sampled, self.snap, self.quiet_since, self.quiet_samples = 0, None, 0, 0

    def start(self, first, step, count):
        self.first, self.step, self.count = first, step, count
        shutil.rmtree(self.scr, ignore_errors=True)
        self.scr.mkdir()
        self.scr.chmod(0o777)
        p = self.phase
        cmd = [str(self.exe), p.sub, "--seed", str(self.args["seed"]), "--tier", self.args["tier"], "--scratch", str(self.scr),
               "--out", str(self.out), "--first", str(first), "--step", str(step), "--count", str(count)]
        for key, v in p.extra.items():
            cmd += [key, str(v)]
        if p.wrapper:
            cmd = p.wrapper + cmd
        self.cmd = cmd
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["TMPDIR"] = str(self.scr)
        env["HOME"] = str(self.scr)
        env.update({k2: v2.replace("@SCRATCH@", str(self.scr)) for k2, v2 in p.env.items()})
        # different numbers of processors to run on, so different interleavings (how many the library sees is main.cc's business)
        avail = sorted(os.sched_getaffinity(0))
        want = (p.cpus or [8, 1, 2, 3, 4, 8, 2, 6])[self.k % len(p.cpus or [0] * 8)]
        n = min(len(avail), want)
        start = (self.k * 3) % len(avail)
        mine = {avail[(start + i) % len(avail)] for i in range(n)}

        def pre():
            os.sched_setaffinity(0, mine)
            os.setpgid(0, 0)
            try:
                # nothing of ours outlives this program
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            except Exception:
                pass
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            for lim, val in (p.rlimits or {}).items():
                resource.setrlimit(getattr(resource, lim), (val, val))

        kw = dict(user=UNPRIV, group=UNPRIV, extra_groups=[]) if p.unpriv and can_drop() else {}
        if kw:
            # directories of someone else which the worker may write to
            for name, gid, mode in (("by-group", UNPRIV, 0o575), ("by-others", 0, 0o557)):
                d = self.scr / name
                d.mkdir()
                os.chown(d, 0, gid)
                d.chmod(mode)
        for f in (self.out, self.err):
            f.touch()
            f.chmod(0o666)
        self.errf = open(self.err, "ab")
        self.errpos = self.err.stat().st_size
        self.proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, env=env, preexec_fn=pre,
                                     cwd=str(self.scr), **kw)
        self.started = None
        self.finished = False
        self.last = time.monotonic()

    def poll_output(self, res):
        with open(self.out, "rb") as f:
            f.seek(self.pos)
            data = f.read()
        self.pos += len(data)
        if data:
            self.last = time.monotonic()
        lines = (self.partial + data).split(b"\n")
        self.partial = lines.pop()
        for ln in lines:
            j = json.loads(ln)
            if "s" in j:
                self.started = j["s"]
            elif "d" in j:
                self.started = None
                self.next = j["d"] + self.step
                res.cases += 1
                for k, v in j["n"].items():
                    if isinstance(v, (int, float)):
                        res.counters[k] = res.counters.get(k, 0) + v
                res.sigs.update(f"{self.phase.sub}: {g}" for g in j["g"])
                if "x" in j and len(res.samples) < 6:
                    res.samples.append({"phase": self.phase.tag, "case": j["d"], "input": j["x"]})
                if "i" in j:
                    res.inconclusive.append(f"{self.phase.tag} case {j['d']}: {j['i']}")
                for key, msg in j["v"]:
                    res.violations.append(dict(key=key, msg=msg, phase=self.phase.tag, case=j["d"], input=j.get("x")))
            elif "end" in j:
                self.finished = True

    def asleep(self):
        """Whether no thread of the worker has run for most of the time without progress, and all of them sleep. Nothing in it can wake
        it then: it is not slow, it is stuck."""
        now = time.monotonic()
        if now - self.last < 5 or now - self.sampled < 1:
            return False
        self.sampled = now
        snap = self.threads()
        if snap is None or snap != self.snap:
            self.snap, self.quiet_since, self.quiet_samples = snap, now, 0
            return False
        self.quiet_samples += 1
        return self.quiet_samples >= 12 and now - self.quiet_since > 0.6 * self.phase.stall

    def threads(self):
        """(thread, times it was scheduled) of all threads, or None if one of them can run"""
        pid, out = self.proc.pid, []
        try:
            if any(Path(f"/proc/{pid}/task/{t}/children").read_text().strip() for t in os.listdir(f"/proc/{pid}/task")):
                return None
            for t in sorted(map(int, os.listdir(f"/proc/{pid}/task"))):
                st = dict(ln.split(":", 1) for ln in Path(f"/proc/{pid}/task/{t}/status").read_text().splitlines() if ":" in ln)
                if st["State"].split()[0] != "S":
                    return None
                out.append((t, int(st["voluntary_ctxt_switches"]), int(st["nonvoluntary_ctxt_switches"])))
        except (OSError, KeyError, ValueError, IndexError):
            return None
        if self.phase.variant == "tsan" and len(out) > 1:
            del out[1]  # ThreadSanitizer's own thread, which wakes now and then
        return out if any(n for _, n, _ in out) else None

    def check_size(self, res):
        """Threads or memory that pile up would take down everything else that runs here."""
        try:
            st = dict(ln.split(":", 1) for ln in Path(f"/proc/{self.proc.pid}/status").read_text().splitlines() if ":" in ln)
            threads, rss = int(st["Threads"]), int(st["VmRSS"].split()[0]) >> 10
        except (OSError, KeyError, ValueError):
            return
        Worker.peak = max(Worker.peak, rss)
        if threads > MAX_THREADS or rss > (self.phase.max_mb if available_mb() > 4000 else MAX_MB // 3):
            case = self.started if self.started is not None else self.next
            key, msg = ("runaway.threads", f"{threads} threads") if threads > MAX_THREADS else ("runaway.memory", f"{rss} MB of memory")
            res.violations.append(dict(key=key, msg=f"{msg} in one process", phase=self.phase.tag, case=case, input=None))
            self.runaway = True
            self.kill()

    def tail(self):
        with open(self.err, "rb") as f:
            f.seek(self.errpos)
            return f.read()[-200000:].decode("utf-8", "replace")

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                self.proc.kill()
            self.proc.wait()

    def reap_group(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass


ENOUGH = 40  # cases that failed, after which a phase need not go on
# of one worker: no workload needs nearly as much (those with a max_mb of their own aside)
MAX_THREADS = 1500
MAX_MB = 6000


def run_phase(phase, exe, args, only=None, log=lambda s: None, counts=lambda key: True):
    """counts(key): whether a violation of that key is news to the caller"""
    res = Result()
    count = phase.thorough if args["tier"] == "thorough" else phase.quick
    base = Path(tempfile.mkdtemp(prefix="azv.", dir=scratch_root()))
    base.chmod(0o755)
    local_exe = base / "exe"
    shutil.copy2(exe, local_exe)
    local_exe.chmod(0o755)
    workers = []
    try:
        if only is not None:
            todo = [(only, 1, only + 1)]
        else:
            n = max(1, min(phase.workers, count))
            todo = [(k, n, count) for k in range(n)]
        for k, (first, step, cnt) in enumerate(todo):
            w = Worker(phase, local_exe, base, k if only is None else only % phase.workers, args)
            w.next = first
            w.start(first, step, cnt)
            workers.append(w)
        confirmed_hang = False
        live = list(workers)
        looked, failed = 0, set()
        checked = time.monotonic()
        while live:
            time.sleep(0.03)
            failed.update(v["case"] for v in res.violations[looked:] if counts(v["key"]))
            looked = len(res.violations)
            if len(failed) >= ENOUGH:
                log(f"{phase.tag}: {len(failed)} cases failed: that is enough")
                break
            if time.monotonic() - checked > 0.2:
                checked = time.monotonic()
                for w in live:
                    w.check_size(res)
            for w in list(live):
                w.poll_output(res)
                rc = w.proc.poll()
                if rc is not None:
                    w.poll_output(res)
                    w.reap_group()
                    if w.runaway:
                        live.remove(w)
                        continue
                    if rc == 0 and w.finished:
                        live.remove(w)
                        continue
                    err = w.tail()
                    if w.started is None or rc == 2:
                        res.errors.append(f"{phase.tag}: worker {w.k} ended with {rc} outside a case: {err[-1500:]}")
                        live.remove(w)
                        continue
                    res.cases += 1
                    res.violations.append(dict(key=crash_key(rc, err), msg=crash_excerpt(err), phase=phase.tag, case=w.started,
                                               input=None))
                    w.crashes += 1
                    nxt = w.started + w.step
                    if w.crashes >= phase.max_crashes or nxt >= w.count:
                        live.remove(w)
                        continue
                    w.start(nxt, w.step, w.count)
                elif (stuck := w.asleep()) or time.monotonic() - w.last > phase.stall * (2 if only is not None else 1):
                    case = w.started
                    stack = gdb_stack(w.proc.pid)
                    w.kill()
                    w.poll_output(res)
                    if case is None or w.started is None:
                        res.errors.append(f"{phase.tag}: worker {w.k} stalled outside a case")
                        live.remove(w)
                        continue
                    if only is not None or stuck:
                        why = f"all threads sleep and none has run for {0.6 * phase.stall:.0f} s" if stuck else f"no progress for {phase.stall * 2} s"
                        res.violations.append(dict(key="hang", msg=f"{why}\n{stack}", phase=phase.tag, case=case, input=None))
                        confirmed_hang = True
                        live.remove(w)
                        continue
                    if not confirmed_hang:
                        log(f"{phase.tag}: case {case} made no progress for {phase.stall} s, running it again alone")
                        again = run_phase(phase, exe, args, only=case, log=log)
                        for v in again.violations:
                            confirmed_hang = confirmed_hang or v["key"] == "hang"
                        res.violations += again.violations
                        res.errors += again.errors
                        res.cases += 1
                        if not again.violations:
                            res.inconclusive.append(f"{phase.tag} case {case}: stalled once, finished when run again")
                    nxt = case + w.step
                    if confirmed_hang or nxt >= w.count:
                        live.remove(w)
                    else:
                        w.start(nxt, w.step, w.count)
                    for o in live:
                        o.last = time.monotonic()
            if confirmed_hang:
                for w in live:
                    w.kill()
                live = []
    finally:
        for w in workers:
            w.kill()
            try:
                w.errf.close()
            except Exception:
                pass
        shutil.rmtree(base, ignore_errors=True)
        if os.environ.get("AZV_PEAK"):
            log(f"{phase.tag}: a worker took up to {Worker.peak} MB")
    return res


def gdb_stack(pid):
    """Where a stalled worker of ours stands (best effort)."""
    try:
        r = subprocess.run(["gdb", "-p", str(pid), "-batch", "-ex", "set pagination off", "-ex", "thread apply all bt 8"],
                           capture_output=True, text=True, timeout=40)
        return r.stdout[-3000:]
    except Exception:
        return ""
