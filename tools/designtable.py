#!/usr/bin/env python3
# writes the table of contracts in DESIGN.md (between the markers) and theorems.json, from the last runs (evidence/*.json)
import json, glob, re, os
rows = []
theorems = {}
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    b = c["bounded_contracts_not_counted"]
    pr = [n for n, d in c["contracts"].items() if d["status"] == "proved"]
    fa = [n for n, d in c["contracts"].items() if d["status"] == "failed"]
    theorems[e["property"]] = pr
    rows.append(f"**{e['property']}** ({len(pr)} of {len(c['contracts'])} contracts proved, {c['discharged']} of {c['obligations']} named obligations discharged, {c['functions_count']} functions of /repo executed under them, {len(c['contracts_on_library'])} library contracts used, solver {c['solver_seconds']} s, whole check {e['wall_s']:.0f} s)")
    rows.append("- proved: " + ", ".join(f"`{n}`" for n in pr))
    for n, w in b.items(): rows.append(f"- bounded: `{n}` — {w}")
    for n in fa: rows.append(f"- known finding: `{n}`")
    rows.append("")
t = "\n".join(rows)
p = "/verif/DESIGN.md"
s = open(p).read()
a, z = "<!-- table begin -->\n", "<!-- table end -->"
i, j = s.index(a) + len(a), s.index(z)
open(p, "w").write(s[:i] + t + s[j:])
json.dump(theorems, open("/verif/tools/theorems.json", "w"), indent=0)
