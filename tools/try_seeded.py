#!/usr/bin/env python3
"""Tries planted bugs in /repo one after another: builds, stable tests, demo on clean and patched tree, and the checks.
usage: try_seeded.py [--checks own|all|none] [id...]   (leaves /repo as it was)"""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, t=900, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
args = sys.argv[1:]; mode = "own"
if args and args[0] == "--checks": mode = args[1]; args = args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))
assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout
allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
sh(["bash", "/opt/vp/build.sh"]); clean = {}
for i in ids: clean[i] = sh(["bash", V + "/seeded/" + i + "/demo.sh"], 300, cwd="/repo").returncode
for i in ids:
    d = V + "/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]; msg = []
    r = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode: print(i, "DOES NOT APPLY", r.stdout.decode()); continue
    try:
        b = sh(["bash", "/opt/vp/build.sh"])
        if b.returncode: print(i, "DOES NOT BUILD", b.stdout.decode()[-1500:]); continue
        sh(["bash", "/opt/vp/test.sh", "/tmp/t.json"]); ok = stable <= set(json.load(open("/tmp/t.json"))["passed"])
        dem = sh(["bash", d + "/demo.sh"], 300, cwd="/repo")
        valid = ok and clean[i] == 0 and dem.returncode != 0
        out = {}
        for p in ([] if mode == "none" else [prop] if mode == "own" else [prop] + [q for q in allp if q != prop]):
            t = time.time(); c = sh(["python3", V + "/run.py", p, "--tier", "quick"], 900, cwd=V); o = c.stdout.decode()
            out[p] = ("CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in o else "quiet" if c.returncode == 0 else "ERROR%d %s" % (c.returncode, o[-300:])) + " %.0fs" % (time.time() - t)
        print("%-22s %s tests=%s demo clean=%d patched=%d | %s %s | also: %s" % (i, "valid" if valid else "INVALID", ok, clean[i], dem.returncode, prop, out.get(prop), " ".join(q for q in out if q != prop and out[q].startswith("CAUGHT"))), flush=True)
        for q in out:
            if out[q].startswith("ERROR"): print("   ", q, out[q])
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
sh(["bash", "/opt/vp/build.sh"])
