#!/usr/bin/env python3
"""Merges results of seedrun.py (JSON files given) into tools/seed_results.json and rewrites the table of
planted bugs at the end of DESIGN.md."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(HERE, "tools", "seed_results.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
for f in sys.argv[1:]:
    for k, v in json.load(open(f)).items():
        res.setdefault(k, {}).update(v)
ids = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
res = {k: res[k] for k in sorted(res) if k in ids}
json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
rows = ["| planted bug | property | needs | checks |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join("%s %s" % (c, v) for c, v in sorted(r.items())) or "not run"))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a = "<!-- seeds -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(ids), "planted bugs;", sum(1 for i in ids if "caught" not in res.get(i, {}).values()), "without a check that caught them")
