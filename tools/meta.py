#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO = "rust/jstprove_io/src/"
ON = "rust/jstprove_onnx/src/"
P = []   # claimed
NA = []  # not claimed

def prop(id, title, statement, over, quant, why, files, mech, technique=None, level="exploration", note="", observe=None, na=None, hook=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": hook}}
    if na: NA.append((p, na))
    else: P.append((p, technique, level, note))

for part in ("meta_io.py", "meta_onnx.py", "meta_rest.py"):
    f = os.path.join(ROOT, "tools", part)
    if os.path.exists(f):
        exec(compile(open(f).read(), f, "exec"))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
    for p, _ in NA: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API of /repo's crates from path-dependency crates under /verif", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                 "technique": t, "level": l, "level_note": n} for p, t, l, n in P],
     "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
     "notes": "All checks are runtime monitors over executions of the real code; see DESIGN.md. known_findings.json lists fixed and open findings."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
for p, *_ in P + NA:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "claimed,", len(NA), "not applicable")
