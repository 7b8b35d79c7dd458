#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl + harness/checks.json (run from anywhere)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/harness/checks.json"))
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "", "enable": "none: the harnesses use the public API and link-time interposition", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check rebuilds libferret (or the Ruby extension) from /repo's working tree into /verif/.build."}
TECH = {
 "model_checking": "explicit-state exploration of all bounded operation sequences on the real code against a reference model",
 "fault_enumeration": "exhaustive enumeration of crash and fault points (every system call) of bounded histories on the real code",
 "exploration": "stateless exploration of all thread interleavings of the real code under a controlled scheduler up to a preemption bound",
}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]; lv = c.get("level", "model_checking")
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", TECH[lv]), "level": lv, "level_note": c.get("note", "bounded exhaustive; bounds are listed per scenario in the evidence file")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
