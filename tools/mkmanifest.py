"""Writes MANIFEST.json from properties.jsonl and the registered suites."""
import json, subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:]
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTE = {
 "default": "Every execution of the stated choice trees on the real Encode/Decode, judged by an independent reference model; says nothing about values outside the alphabets and bounds listed in DESIGN.md. Trusts the reference model and Go's runtime.",
}
TECH = {
 "default": "bounded-exhaustive exploration of the real code against an executable reference model",
 "C04": "exhaustive enumeration of read schedules with bounded split points on the real decoder",
 "C06": "exhaustive enumeration of truncation points and reader failures on the real decoder",
 "C07": "exhaustive enumeration of writer failures (call x partial length) on the real encoder",
 "C20": "exhaustive call histories and preemption-bounded statement-level schedules of the instrumented code",
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "check.sh builds mc/ against /repo's working tree in a scratch directory. No hooks are committed in /repo; C20 instruments a scratch copy."}
for p in props:
    i = p["id"]
    if ids and i not in ids:
        m["not_applicable"].append({"property": i, "reason": "check not yet built"})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["default"]), "level": "model_checking",
        "level_note": NOTE.get(i, NOTE["default"])})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
