"""Write MANIFEST.json from the CLAIMS table; properties not claimed go under not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT_APPLICABLE  # noqa
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 -c \"import ast, sys; sys.exit(0 if sys.version_info >= (3, 10) else 1)\"",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are pure static analyses of /repo's current source (ast + an interprocedural path-sensitive abstract interpreter in sa/). No repository code is imported or executed; nothing is built. Known and fixed findings are in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "n/a")
