#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the contracts that exist
import json, re, glob
src = "".join(open(f).read() for f in glob.glob("/verif/proofs/src/specs/*.rs"))
names = set(re.findall(r"\bp(\d\d)_\w+", src))
LEVEL = {}
NOTE = {}
exec(open("/verif/levels.py").read())
import os
THM = json.load(open("/verif/tools/theorems.json")) if os.path.exists("/verif/tools/theorems.json") else {}
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i[1:] in names and i not in NA:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: contracts on the real functions, discharged by symbolic execution of rustc MIR with z3",
            "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, DEFAULT_NOTE), "theorems": THM.get(i, [])})
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
