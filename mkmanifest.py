#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS

NOT_APPLICABLE = {}

props = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: the harness programs observe the public interface, the system-call boundary (interposed in the "
             "harness executable) and the sanitizers. Every check builds /repo's working tree itself under _build.",
}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["level_note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
