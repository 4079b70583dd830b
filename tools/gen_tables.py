#!/usr/bin/env python3
"""Fills DESIGN.md's tables: cost from evidence/*.json, catches from a log of try_seeded.py.  usage: gen_tables.py LOG..."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def block(s, name, body): return re.sub("(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)
ev = {os.path.basename(f)[:-5]: json.load(open(f)) for f in glob.glob(V + "/evidence/C*.json")}
rows = ["| id | wall s | states | checked calls |", "|---|---|---|---|"]
for i in sorted(ev): rows.append("| %s | %.0f | %s | %s |" % (i, ev[i]["wall_s"], format(ev[i]["coverage"]["states"], ","), format(ev[i]["coverage"]["transitions"], ",")))
s = open(V + "/DESIGN.md").read(); s = block(s, "cost", "\n".join(rows) + "\n")
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+valid .*\| (C\d\d) (CAUGHT|quiet)\S*.*\| also: ?(.*)", l)
        if m: o = res.get(m.group(1)); also = m.group(4).strip() or (o[2] if o else ""); res[m.group(1)] = (m.group(2), m.group(3), also)
rows = ["| planted bug | needs | own check | also caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    me = json.load(open(V + "/seeded/%s/meta.json" % i)); r = res.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, me["needs"].replace("|", "\\|"), (r[0] + (" yes" if r[1] == "CAUGHT" else " **missed**")) if r else "not tried", r[2] if r else ""))
s = block(s, "catch", "\n".join(rows) + "\n"); open(V + "/DESIGN.md", "w").write(s)
