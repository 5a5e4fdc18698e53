"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
from props import PROPS
from checks import CHECKS
ORDER = [p["id"] for p in PROPS]
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
            "technique": c.get("technique", "runtime monitoring: reference-model oracle over seeded workloads under AddressSanitizer/UBSan"),
            "level": "exploration", "level_note": "Holds on the executions explored, no more. " + p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "no check yet"})
m = {"version": 1, "setup_cmd": "python3 vbuild.py setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: every monitor uses public interfaces, subclasses and sanitizers; the harnesses compile /repo's sources unmodified", "source_commits": []},
     "notes": "properties.jsonl and this file are generated by gen.py from props.py and checks.py."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "unclaimed:", [x["property"] for x in na])
