#!/usr/bin/env python3
# Regenerates MANIFEST.json from the table below.
import json
T = json.load(open('/verif/checks.json'))
checks = []
for p, c in sorted(T['checks'].items()):
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"], **({"theorems": c["theorems"]} if "theorems" in c else {})})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks: contracts live in /verif/contracts and are bound by function name; the harness is added by a build overlay", "source_commits": []},
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(T['not_applicable'].items())],
     "notes": "gover (in /verif/gover) generates verification conditions from /repo's SSA on every run and discharges them with z3/cvc5; see DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
