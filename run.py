#!/usr/bin/env python3
"""Driver of the lexi model-checking framework.

  run.py CHECK [--tier quick|thorough]      build from /repo, explore, write evidence/<id>.json
  run.py CHECK --replay FAMILY LO HI        rebuild and replay the cases [LO, HI) of one family
  run.py --all [--tier ...]                 every check in turn

Exit 0: held on everything explored; 1 (with a VIOLATION line): broken; 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LEXI_REPO", "/repo")
NCPU = max(1, min(16, os.cpu_count() or 1))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class CheckError(Exception): pass

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace")

def lib_sources():
    s = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if not s: raise CheckError("no library sources under %s/src" % REPO)
    return s

def pool(jobs):
    """jobs: list of (cmd, what); returns list of (rc, out)"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda j: sh(j[0], timeout=600), jobs))

def lib_jobs(tmp, tag="lib", cxx="g++", flags=("-O2",), std="c++14", only=None, perfile=None):
    jobs, objs = [], []
    for s in lib_sources():
        if only and not only(s): continue
        o = os.path.join(tmp, tag + "_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        extra = list(perfile(s)) if perfile else []
        jobs.append(([cxx, "-std=" + std, "-w", "-include", "cstdint", "-I" + REPO + "/include", *flags, *extra, "-c", s, "-o", o], "lib:" + s))
        objs.append(o)
    return jobs, objs

def build(tmp, harness, exe=None, cxx="g++", flags=("-O2",), std="c++14", hflags=(), hstd="gnu++17", libs=("-lquadmath",), hsrc=None, mainsrc=None):
    """library + harness -> executable path. Raises CheckError; .harness_only set if the library itself compiled."""
    exe = exe or os.path.join(tmp, harness)
    jobs, objs = lib_jobs(tmp, harness + "_lib", cxx, flags, std)
    nlib = len(jobs)
    hs = hsrc or [os.path.join(V, "harness", harness + ".cpp")]
    for i, h in enumerate(hs):
        o = os.path.join(tmp, "%s_h%d.o" % (harness, i))
        jobs.insert(0, ([cxx, "-std=" + hstd, "-w", "-I" + V + "/lib", "-I" + V + "/harness", "-I" + REPO + "/include", *flags, *hflags, "-c", h, "-o", o], "harness:" + h))
        objs.append(o)
    if mainsrc:
        o = os.path.join(tmp, harness + "_main.o"); objs.append(o)
        jobs.insert(0, ([cxx, "-std=" + hstd, "-w", "-I" + V + "/lib", "-I" + V + "/harness", "-I" + REPO + "/include", *flags, "-c", mainsrc, "-o", o], "harness:" + mainsrc))
    jobs.sort(key=lambda j: not j[1].startswith("harness:"))   # the slow compilations first
    res = pool(jobs)
    bad = [(j[1], out) for j, (rc, out) in zip(jobs, res) if rc != 0]
    if bad:
        e = CheckError("cannot compile %s:\n%s" % (bad[0][0], bad[0][1][-4000:]))
        e.harness_only = all(b[0].startswith("harness:") for b in bad)
        e.log = bad[0][1]
        raise e
    rc, out = sh([cxx, *flags, *hflags, *objs, "-o", exe, "-pthread", *libs], timeout=600)
    if rc != 0:
        e = CheckError("cannot link:\n" + out[-4000:]); e.harness_only = True; e.log = out
        raise e
    return exe

# ------------------------------------------------------------------------------------------ one exploration
class Result:
    def __init__(self):
        self.cases = self.calls = self.distinct = 0
        self.families, self.samples, self.assumptions = [], [], []
        self.extra = {}
        self.fail = None          # dict: msg, replay command list, detail
        self.complete = True
    def merge(self, j, prefix=""):
        self.cases += j["cases"]; self.calls += j["calls"]; self.distinct += j["distinct"]
        self.families += [dict(f, name=prefix + f["name"]) for f in j["families"]]
        self.complete = self.complete and j["complete"]

HARD = {}
def start_hard(tmp, want, step=1):
    """starts the search for the hardest conversion inputs (lib/hard.py) while things compile"""
    b, t = os.path.join(tmp, "hard.bin"), os.path.join(tmp, "hard.txt")
    os.environ["MC_HARD"], os.environ["MC_HARD_TXT"] = b, t
    HARD["p"] = subprocess.Popen([sys.executable, os.path.join(V, "lib", "hard.py"), b, t, str(want), str(step)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def wait_hard():
    p = HARD.pop("p", None)
    if p:
        out = p.communicate()[0]
        if p.returncode: raise CheckError("hard.py failed: " + out.decode()[-2000:])

def explore(exe, tmp, tier, workers=None, hang=60, env=None, extra=(), timeout=None):
    wait_hard()
    out = os.path.join(tmp, "result.json")
    if os.path.exists(out): os.remove(out)
    timeout = timeout or (840 if tier != "thorough" else 24 * 3600)
    rc, log = sh([exe, "--out", out, "--tier", tier, "--workers", str(workers or NCPU), "--hang", str(hang), *extra], timeout=timeout, env=env, cwd=tmp)
    if rc == 2: raise CheckError("explorer ended with %s:\n%s" % (rc, log[-3000:]))
    if rc not in (0, 3) or not os.path.exists(out):
        # the explorer itself died or stalled: library code used while the space is being set up did that
        return {"cases": 0, "calls": 0, "distinct": 0, "complete": False, "families": [], "log": log,
                "fail": {"family": "setup", "idx": 0, "lo": 0, "msg": ("hang: " if rc == -999 else "crash: ") + "the library ended the process (status %s) while the space was being set up: %s" % (rc, " ".join(log.split())[-600:])}}
    j = json.load(open(out)); j["log"] = log
    return j

def confirm(exe, tmp, tier, fail, env=None):
    """Replays a failing case in fresh processes. Returns (lo, hi, text) of the smallest reproduction, or None."""
    idx, lo = fail["idx"], fail["lo"]
    if fail["family"] == "setup": return None
    for a in ([idx] if lo == idx else [idx, lo]):
        rc, log = sh([exe, "--tier", tier, "--replay", fail["family"], str(a), str(idx + 1)], timeout=180, env=env, cwd=tmp)
        if rc != 0 and rc != 2: return a, idx + 1, log[-1500:]
    return None

def run_explorer(chk, exe, tmp, tier, res, env=None, prefix="", workers=None, hang=60, extra=(), timeout=None):
    j = explore(exe, tmp, tier, workers, hang, env, extra, timeout)
    if "fail" in j:
        f = j["fail"]; c = confirm(exe, tmp, tier, f, env)
        if c is None:
            j2 = explore(exe, tmp, tier, workers, 4 * hang, env, extra, timeout)
            if "fail" not in j2 and (f["msg"].startswith("hang") or "signal 9 " in f["msg"]):
                j = j2     # a stalled or full machine, not the code
            else:
                f = j2.get("fail", f); c = (f["lo"], f["idx"] + 1, "(reproduced by re-running the family; single case alone did not fail)" if "fail" in j2 else "(seen once; the outcome is not deterministic)")
        if c is not None:
            res.fail = {"family": prefix + f["family"], "msg": f["msg"], "lo": c[0], "hi": c[1], "log": c[2] + (("\n" + j.get("log", "")) if chk.get("showlog") else "")}
    res.merge(j, prefix)
    return j

def samples(exe, tmp, tier, env=None):
    rc, log = sh([exe, "--tier", tier, "--samples"], timeout=120, env=env, cwd=tmp)
    return [l for l in log.splitlines() if l.strip()]

# ------------------------------------------------------------------------------------------ checks
def simple(chk, tier, tmp, res, replay=None):
    try:
        exe = build(tmp, chk["harness"], flags=chk.get("flags", ("-O2", "-g1")), hflags=chk.get("hflags", ()), libs=chk.get("libs", ("-lquadmath",)))
    except CheckError as e:
        if chk.get("compile_is_property") and getattr(e, "harness_only", False):
            m = [l for l in e.log.splitlines() if "error" in l or "undefined" in l]
            res.fail = {"family": "compile", "msg": "a supported type/entry-point combination does not compile or link: " + (m[0] if m else ""), "lo": 0, "hi": 0, "log": e.log[-3000:]}
            return
        raise
    if replay: return do_replay(exe, tier, replay, tmp)
    run_explorer(chk, exe, tmp, tier, res, workers=chk.get("workers"), hang=chk.get("hang", 60))
    res.samples = samples(exe, tmp, tier)

def do_replay(exe, tier, replay, tmp, env=None):
    wait_hard()
    rc, log = sh([exe, "--tier", tier, "--replay", *replay], timeout=600, env=env, cwd=tmp)
    print(log); return rc

CHECKS = {}
def check(id, fn=simple, **kw):
    CHECKS[id] = dict(id=id, fn=fn, harness=kw.pop("harness", id.lower()), **kw)

import importlib
sys.path.insert(0, os.path.join(V, "lib"))
sys.modules.setdefault("run", sys.modules[__name__])
import checks   # registers CHECKS

def known_findings(pid):
    p = os.path.join(V, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def run_check(pid, tier, replay=None):
    chk = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=pid.lower() + "-", dir=os.path.join(V, "build"))
    res = Result()
    try:
        if chk.get("hard"): start_hard(tmp, *chk["hard"][tier == "thorough"])
        if replay:
            r = chk["fn"](chk, tier, tmp, res, replay=replay)
            if res.fail: print(res.fail["msg"]); r = 3
            return r
        chk["fn"](chk, tier, tmp, res)
    finally:
        if "p" in HARD: HARD["p"].kill(); HARD.pop("p").wait()
        shutil.rmtree(tmp, ignore_errors=True)
    wall = round(time.time() - t0, 3)
    cov = {"states": res.distinct, "transitions": res.calls, "traces_validated_against_impl": res.cases,
           "samples": res.samples[:40] or ["(none)"], "exhaustive": bool(res.complete and not res.fail),
           "bounds": ["%s: %s (%d)" % (f["name"], f["bound"], f["count"]) for f in res.families],
           "meaning": "states = distinct outcomes/model states observed (hashed, measured); transitions = calls into the library checked against the reference model; traces_validated_against_impl = complete executions (cases, schedules or operation sequences) run on the real code"}
    cov.update(res.extra)
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": chk.get("assumptions", []) + res.assumptions, "wall_s": wall, "violations": 1 if res.fail else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in res.extra.get("known_findings_seen", []): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if res.fail:
        d = os.path.join(V, "out"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "replay-%s.sh" % pid)
        with open(p, "w") as f:
            f.write("#!/bin/sh\n# %s\n# family %s, case %d\n" % (res.fail["msg"].replace("\n", " "), res.fail["family"], res.fail["hi"] - 1))
            f.write("exec python3 %s/run.py %s --tier %s --replay '%s' %d %d\n" % (V, pid, tier, res.fail["family"], res.fail["lo"], res.fail["hi"]))
            f.write("\n".join("# " + l for l in res.fail["log"].splitlines()) + "\n")
        os.chmod(p, 0o755)
        print("%s: %s" % (res.fail["family"], res.fail["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("%s %s: held on %d executions, %d checked calls, %d distinct outcomes, %.1f s" % (pid, tier, res.cases, res.calls, res.distinct, wall))
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?"); ap.add_argument("--all", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay", nargs=3)
    ap.add_argument("--setup", action="store_true", help="check that the tools the framework needs are there")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "clang++", "localedef"):
            if not shutil.which(t): print("missing tool:", t); return 2
        for d in ("build", "out", "evidence"): os.makedirs(os.path.join(V, d), exist_ok=True)
        print("ok: %d checks registered" % len(CHECKS)); return 0
    ids = sorted(CHECKS) if a.all else [a.check]
    worst = 0
    for i in ids:
        if i not in CHECKS: print("unknown check", i); return 2
        try: r = run_check(i, a.tier, a.replay)
        except CheckError as e: print("ERROR %s: %s" % (i, e)); r = 2
        sys.stdout.flush()
        worst = max(worst, r or 0)
    return worst

if __name__ == "__main__":
    sys.exit(main())
