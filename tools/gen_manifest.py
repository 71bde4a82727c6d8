#!/usr/bin/env python3
"""MANIFEST.json from harness/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/harness/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf and os.path.exists(f"{V}/harness/{i}.cc"):
        c = conf[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", "stateless model checking of the real code: exhaustive enumeration of bounded operation histories and environment answers against a reference model"),
            "level": "model_checking",
            "level_note": "Every execution within these bounds is run on the real code and compared with the reference: " + c["bounds"]
                          + (" Assumes: " + "; ".join(c["assumptions"]) + "." if c.get("assumptions") else "")
                          + " Trusted: compiler, sanitizers, the reference model in harness/.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the C random generator, the clock and file writes are replaced at link time in the checker's own binaries."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
