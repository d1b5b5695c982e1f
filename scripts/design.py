#!/usr/bin/env python3
"""Fills in the tables of DESIGN.md between its <!-- x --> marks."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
muts, refs, per, rper = 0, 0, {}, {}
for l in open(root + "/scripts/mutants.txt"):
    if not l.startswith("@ "):
        continue
    w = l.split()
    if w[1].startswith("r-"):
        refs += 1
        for c in w[3:]:
            rper[c] = rper.get(c, 0) + 1
    else:
        muts += 1
        for c in w[2:]:
            per[c] = per.get(c, 0) + 1
cnt = ", ".join("%s %d+%d" % (c, per.get(c, 0), rper.get(c, 0)) for c in sorted(set(per) | set(rper)))
p = root + "/DESIGN.md"
s = open(p).read()
def fill(s, key, text):
    return re.sub(r"(<!-- %s -->).*?(<!-- /%s -->)" % (key, key), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
s = fill(s, "seeded", "\n" + "\n".join(rows) + "\n")
s = fill(s, "nm", str(muts))
s = fill(s, "nr", str(refs))
s = fill(s, "counts", "\n" + cnt + "\n")
open(p, "w").write(s)
