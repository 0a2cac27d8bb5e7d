#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, over_text, why, files, mech, technique, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=observe or [], na=na))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["over_text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")

checks = []
for p in P:
    if p["na"]:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash /verif/run.sh check %s quick" % p["id"],
        "thorough_cmd": "bash /verif/run.sh check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash /verif/run.sh setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "All checks drive the exported API, the language server over its wire protocol and the command line tools; no hooks are added to /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
