#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]   or   check.py --replay FILE

Builds what the check needs from /repo's working tree, runs the generators, writes
evidence/ID.json and exits 0 (held) or 1 (VIOLATION line printed).
"""
import json, os, re, sys, time, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_lib
from checks import CHECKS

VERIF = build_lib.VERIF

def known_findings():
    """known_findings.txt: lines 'known: property=ID id=NAME text' and 'fixed: property=ID ...'"""
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError:
        pass
    return out

def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[pid]
    t0 = time.time()
    parts = [p for p in chk["parts"] if tier in p]
    by_variant = {}
    for p in parts:
        by_variant.setdefault(p["variant"], set()).add(p["harness"])
        for extra in p.get("also", []):
            by_variant[p["variant"]].add(extra)
    for v, hs in by_variant.items():
        build_lib.build(v, sorted(hs))
    tb = time.time() - t0
    rep_dir = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
    os.makedirs(rep_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vchk-")
    os.environ["VERIF_SCRATCH"] = scratch
    rc = 0
    stats = []
    violations = 0
    kf = known_findings()
    seen_known = set()
    try:
        for i, p in enumerate(parts):
            cases, budget = p[tier]
            exe = os.path.join(build_lib.BUILD, p["variant"], p["harness"])
            sf = os.path.join(scratch, "stats%d.json" % i)
            rp = os.path.join(rep_dir, "%s-%s-%d.replay" % (pid, tier, i))
            cmd = [exe, "--property", pid, "--tier", tier, "--seed", str(seed), "--cases", str(cases),
                   "--budget", str(budget), "--jobs", str(p.get("jobs", 8)), "--stats", sf,
                   "--replay-out", rp, "--logdir", scratch_sub(scratch, i)]
            if p.get("only"):
                cmd += ["--only", p["only"]]
            env = dict(os.environ, VERIF_VARIANT=p["variant"], VERIF_BINDIR=os.path.dirname(exe))
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", env=env)
            if r.returncode not in (0, 1):
                sys.stdout.write(r.stdout)
                print("check error: %s exited with %d" % (p["harness"], r.returncode))
                return 3
            part_viol = r.returncode == 1
            for l in r.stdout.splitlines():
                m = re.match(r"KNOWN (\S+)", l)
                if m:
                    key = (pid, m.group(1))
                    if key in kf:
                        seen_known.add(key)
                    else:
                        with open(rp, "w") as f:
                            f.write("property: %s\nunlisted finding: %s\n" % (pid, m.group(1)))
                        print("VIOLATION property=%s replay=%s" % (pid, rp))
                        part_viol = True
                elif not l.startswith("VIOLATION") or r.returncode == 1:
                    print(l)
            if part_viol:
                with open(rp, "a") as f:
                    f.write("variant: %s\nharness: %s\n" % (p["variant"], p["harness"]))
                violations += 1
                rc = 1
            try:
                s = json.load(open(sf))
            except Exception:
                s = {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "discarded": 0, "classes": {},
                     "per_sub": {}, "samples": []}
            s["variant"], s["harness"] = p["variant"], p["harness"]
            stats.append(s)
            if rc:
                break
        for key in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (key[0], kf[key]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    classes, per = {}, {}
    samples = []
    for s in stats:
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in s["per_sub"].items():
            per[k] = per.get(k, 0) + v
        samples += s["samples"][:12]
    cov = {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
        "rule": chk["rule"],
        "samples": samples[:24],
        "discarded": sum(s["discarded"] for s in stats),
        "nontrivial": sum(s["nontrivial"] for s in stats),
        "cases_by_generator": per,
        "classes": classes,
        "parts": [{"variant": s["variant"], "harness": s["harness"], "evaluations": s["evaluations"],
                   "wall_s": s.get("wall_s"), "coverage_counters_hit": s.get("coverage_counters_hit_by_best_worker"),
                   "coverage_counters": s.get("coverage_counters"), "violation": s.get("violation")} for s in stats],
        "build_s": round(tb, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"), "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %s (%d cases, %d distinct non-trivial, %.0f s)" % (
        pid, tier, "VIOLATED" if rc else "held", cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return rc

def scratch_sub(scratch, i):
    d = os.path.join(scratch, "log%d" % i)
    os.makedirs(d, exist_ok=True)
    return d

def replay(path):
    d = {}
    for l in open(path):
        m = re.match(r"(\w+): (.*)", l)
        if m:
            d[m.group(1)] = m.group(2)
    v, h = d["variant"], d["harness"]
    also = [x for p in CHECKS[d["property"]]["parts"] for x in p.get("also", [])]
    build_lib.build(v, sorted(set([h] + also)))
    scratch = tempfile.mkdtemp(prefix="vchk-")
    env = dict(os.environ, VERIF_VARIANT=v, VERIF_BINDIR=os.path.join(build_lib.BUILD, v), VERIF_SCRATCH=scratch)
    try:
        return subprocess.run([os.path.join(build_lib.BUILD, v, h), "--replay", path], env=env).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
