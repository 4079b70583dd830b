#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (run from anywhere)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
T = {
 "C13": ("exhaustive enumeration of operation histories on the real code", "All histories over a colliding operation alphabet up to the stated depth give the fresh-process results; longer histories only as periodic pumping."),
 "C14": ("stateless model checking of the real code: systematic thread-schedule enumeration under a controlled scheduler with happens-before race detection", "Every interleaving of the listed thread programs up to the stated preemption bound, at instrumented shared accesses of the library objects; sequentially consistent schedules, with a vector-clock race check making that sound for race-free code. Trusts the instrumentation pass and the scheduler's own race canary, re-run every time."),
 "C15": ("exhaustive fault enumeration: every allocation of every scenario made to fail in turn", "Every single allocation failure point, and every fail-from-k suffix, of every scenario; leaks and retry checked on each. Allocations inside libc (not operator new) are not failed."),
 "C21": ("exhaustive exploration of bounded input spaces in every build variant, compared block by block", "All variants compute the same digest for every block of the same input spaces. Portable and MSVC paths are selected through preprocessor preludes on this machine; other CPUs are not covered."),
 "C22": ("exhaustive enumeration of literal configurations and inputs on the real code", "Every configuration of the menu is compiled and its whole extraction space explored."),
 "C23": ("exhaustive exploration of the bounded spaces of the other checks under AddressSanitizer and UBSan", "Memory and arithmetic errors visible to the sanitizers on the enumerated executions."),
 "C26": ("exhaustive enumeration of program histories (sets of life phases x conversions) on the real code, one process each", "Every set of phases up to the stated size for every conversion of the alphabet, in three builds; dynamic loading is not covered."),
 "C27": ("exhaustive enumeration of header sequences up to a length, compiled, linked into one program and executed", "Every sequence up to the stated length; the headers of lexi/detail on their own are not claimed."),
 "C28": ("exhaustive enumeration of operation sequences x environments x allocation failures on the real code, comparing the observable process state before and after every operation", "Every single operation, all pairs and some triples in the stated environments, value spaces, and every allocation failure point; the observed state is the list in harness/c28.cpp. errno and floating-point exception flags are excluded."),
 "C24": ("exhaustive enumeration of locales x bounded input spaces, compared with the C locale", "Locales are compiled from the system's definitions into a scratch directory; one known finding (decimal separator in extraction) is listed."),
}
DEFAULT = ("bounded exhaustive enumeration of executions of the real code against an independent reference model", "Every case of the bounded, deterministically indexed spaces in the evidence file is executed on the real code and compared step by step with an independent model (exact big-integer arithmetic, grammar or object-state model); values outside the bounds are not covered.")
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.CHECKS:
        t = T.get(i, DEFAULT)
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t[0], "level": "model_checking", "level_note": t[1]})
    else: na.append({"property": i, "reason": "check under construction, not claimed yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's sources as they are. Defects repaired in /repo and the one known finding are in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
