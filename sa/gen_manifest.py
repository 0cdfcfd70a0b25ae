"""writes /verif/MANIFEST.json from spec.SPEC and properties.jsonl"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in ids:
    if p in spec.SPEC:
        s = spec.SPEC[p]
        checks.append({"property": p, "quick_cmd": "python3 sa/check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 sa/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
na = [{"property": p, "reason": spec.NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in spec.SPEC]
m = {"version": 1, "setup_cmd": "python3 sa/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo/src on every run and interpret it abstractly; nothing of the package is imported or executed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
