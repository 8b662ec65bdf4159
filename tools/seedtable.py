#!/usr/bin/env python3
"""developer helper: fill the seed table of DESIGN.md from seeded/*/meta.json and the outputs of runseeds.sh"""
import json, os, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds begin -->", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(HERE + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    p = m["property"]
    o = f"/tmp/seed.{i}.out"
    got = sorted(set(re.findall(r"replay=\S*/%s-(p\w+?)-\d+\.cases" % p, open(o).read()))) if os.path.exists(o) else []
    rows.append(f"| {i} | {p} | {m['needs']} | {p}{': ' + ', '.join(got) if got else ''} |")
rows += ["", "<!-- seeds end -->"]
t = open(HERE + "/DESIGN.md").read()
new = "\n".join(rows)
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", new)
else:
    t = re.sub(r"<!-- seeds begin -->.*<!-- seeds end -->", lambda _: new, t, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(t)
