"""writes MANIFEST.json from pyvc/props.py and properties.jsonl"""
import json
from pyvc import props as P
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
TECH = "contracts on the real functions, discharged by symbolic execution of the source with z3 (pyvc); bounded replay harness for failing inputs"
NA = dict(P.NA)
checks, na = [], []
for i in ids:
    if i in P.PROPS:
        q = P.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": TECH if q["contracts"] else "executable contract checked on the real code over a bounded input space (no function within the verifier's reach)",
                       "level": q["level"], "level_note": q["note"] + (". Bounded, not proved: " + "; ".join(q["bounded"]) if q["bounded"] else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
