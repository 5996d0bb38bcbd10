#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json
conf = json.load(open("/verif/checks.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: /repo is verified as it is; replay tests enter through go test -overlay", "source_commits": []}}
for p in props:
    i = p["id"]
    c = conf["properties"].get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i, "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
            "technique": c.get("technique", "contract-based deductive verification of the real Go code: SSA verification conditions discharged by z3/cvc5"),
            "level": c["level"], "level_note": c.get("note", "Every obligation generated from the current source of %s is discharged for all inputs; assumes the contracts of external interfaces listed in the evidence file." % c["functions"])})
    else:
        m["not_applicable"].append({"property": i, "reason": conf.get("not_applicable", {}).get(i, "no check yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
