#!/usr/bin/env python3
"""Runs one check: run.py <property> | --replay <file> | --setup | --list.  Exit 0: held; 1: VIOLATION; 2: error."""
import json
import os
import re
import sys
import time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from azv import build as B  # noqa: E402
from azv import runner as R  # noqa: E402
from azv.checks import CHECKS, NOT_APPLICABLE  # noqa: E402

VERIF = Path(__file__).resolve().parent
EVID = VERIF / "evidence"


def known_findings():
    out = []
    p = VERIF / "known-findings.txt"
    if p.exists():
        for ln in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m:
                out.append(m.groups())
    return out


def exe_for(phase):
    return B.build(phase.variant, phase.sources, phase.name, phase.flags, phase.link)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if sys.argv[1] == "--list":
        print("\n".join(CHECKS))
        return 0
    if sys.argv[1] == "--manifest":
        (VERIF / "MANIFEST.json").write_text(json.dumps(dict(
            version=1, setup_cmd="python3 run.py --setup",
            hooks=dict(guard="AZV_UNUSED", enable="no hooks: the checks observe public and internal interfaces, system calls and the S3 "
                       "client from outside; /repo holds only unguarded fix: commits", source_commits=[]),
            checks=[dict(property=k, quick_cmd=f"python3 run.py {k}", thorough_cmd=f"python3 run.py {k} --tier=thorough",
                         evidence_file=f"evidence/{k}.json", technique=c["technique"], level=c["level"], level_note=c["note"])
                    for k, c in sorted(CHECKS.items())],
            not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())]), indent=1) + "\n")
        return 0
    if sys.argv[1] == "--setup":
        # every check builds what it needs from /repo's current tree; this only shows that each variant can be built
        seen = set()
        for ph in CHECKS["C01"]["phases"] + CHECKS["C21"]["phases"] + CHECKS["C23"]["phases"] + CHECKS["C15"]["phases"]:
            if ph.variant not in seen:
                seen.add(ph.variant)
                exe_for(ph)
        print(f"built {len(seen)} harness binaries")
        return 0
    only = None
    if sys.argv[1] == "--replay":
        rp = json.loads(Path(sys.argv[2]).read_text())
        pid, tier, seed, only = rp["property"], rp["tier"], rp["seed"], rp
    else:
        pid = sys.argv[1]
        for a in sys.argv[2:]:
            if a.startswith("--tier="):
                tier = a[7:]
            elif a.startswith("--seed="):
                seed = int(a[7:])
    check = CHECKS[pid]
    args = dict(seed=seed, tier=tier)
    t0 = time.monotonic()
    total = R.Result()
    per_phase = []
    log = lambda s: print(s, flush=True)
    listed = {k for p, k, w in known_findings() if p == pid}
    try:
        for ph in check["phases"]:
            if only and ph.tag != only["phase"]:
                continue
            if (ph.thorough if tier == "thorough" else ph.quick) == 0:
                continue
            exe = exe_for(ph)
            t1 = time.monotonic()
            r = R.run_phase(ph, exe, args, only=only["case"] if only else None, log=log,
                            counts=lambda key: key not in listed and re.match(check.get("only_keys", ""), key))
            per_phase.append(dict(phase=ph.tag, cases=r.cases, distinct=len(r.sigs), wall_s=round(time.monotonic() - t1, 1),
                                  violations=len(r.violations), observed=r.counters))
            log(f"{pid} {ph.tag}: {r.cases} cases, {len(r.sigs)} distinct, {len(r.violations)} violations, "
                f"{time.monotonic() - t1:.1f} s {json.dumps(r.counters)}")
            need = check.get("observe", {}).get(ph.sub, [])
            if only is None:
                for k in need:
                    if not r.counters.get(k) and not r.violations:
                        r.errors.append(f"{ph.tag}: the monitors saw no '{k}' events: the workload did not exercise the property")
            if check.get("only_keys"):
                # other properties' oracles run along; this check is about what the sanitizers say
                mine = [v for v in r.violations if re.match(check["only_keys"], v["key"])]
                per_phase[-1]["violations"], per_phase[-1]["others"] = len(mine), len(r.violations) - len(mine)
                r.violations = mine
            total.merge(r)
    except B.BuildError as e:
        print(f"error: {e}")
        return 2
    if only is None and total.cases == 0:
        total.errors.append("no case ran")

    known = [(p, k, w) for p, k, w in known_findings() if p == pid]
    printed, fresh = set(), {}
    for v in total.violations:
        hit = [w for p, k, w in known if k == v["key"]]
        if hit:
            if hit[0] not in printed:
                printed.add(hit[0])
                print(f"KNOWN-FINDING: property={pid} {hit[0]}")
            v["known"] = True
        else:
            fresh.setdefault(v["key"], []).append(v)
    if only is None:
        # a listed finding that this run did not meet is still listed
        for p, k, w in known:
            if w not in printed:
                printed.add(w)
                print(f"KNOWN-FINDING: property={pid} {w}")
    EVID.mkdir(exist_ok=True)
    rdir = EVID / "replays"
    status = 0
    if fresh:
        rdir.mkdir(exist_ok=True)
        status = 1
        for n, (key, vs) in enumerate(sorted(fresh.items(), key=lambda kv: kv[1][0]["case"])):
            if n >= 5:
                break
            v = vs[0]
            path = rdir / f"{pid}-{re.sub(r'[^A-Za-z0-9.-]+', '_', key)}.json"
            path.write_text(json.dumps(dict(property=pid, tier=tier, seed=seed, phase=v["phase"], case=v["case"], key=key,
                                            what=v["msg"], input=v["input"], others=len(vs) - 1,
                                            run=f"python3 {VERIF}/run.py --replay {path}"), indent=1))
            print(f"[{key}] x{len(vs)} {v['phase']} case {v['case']}: {v['msg'][:900]}")
            print(f"VIOLATION property={pid} replay={path}")
    for e in total.errors[:5]:
        print("error: " + e)
    for i in total.inconclusive[:5]:
        print("inconclusive: " + i)
    if only is None:
        ev = dict(property=pid, tier=tier, seed=seed, level=check["level"],
                  coverage=dict(evaluations=total.cases, distinct_nontrivial=len(total.sigs),
                                rule=check.get("rule", ""), samples=total.samples[:6] or ["none"],
                                observed=total.counters, phases=per_phase,
                                known_findings_met=sorted(printed),
                                inconclusive=total.inconclusive[:20]),
                  assumptions=check.get("assumptions", []), wall_s=round(time.monotonic() - t0, 1),
                  violations=sum(len(v) for v in fresh.values()))
        (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    if status == 0 and total.errors:
        status = 2
    if status == 0:
        print(f"{pid}: held on {total.cases} cases ({time.monotonic() - t0:.1f} s)")
    return status


sys.exit(main())
