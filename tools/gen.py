#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (committed outputs; run by hand)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, race=False, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, race=race, observe=observe))
exec(open(os.path.join(root, "tools", "props.py")).read())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
done = set(open(os.path.join(root, "tools", "claimed.txt")).read().split())
checks = []
for p in P:
    if p["id"] not in done: continue
    cmd = "bash run.sh " + p["id"] + (" race" if p["race"] else "")
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in done],
     "notes": "All checks run the real go-common code (built from /repo's working tree through a replace directive) in a child process under monitors; see DESIGN.md. VERIF_SEED selects the workloads, VERIF_TIER the depth. No hooks are compiled into /repo: faults, delays and probes are injected through its exported interfaces."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "checks")
