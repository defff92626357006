#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta  # noqa

PY = "/opt/venv/bin/python"
rows, checks, na = [], [], []
for p in meta.P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p["observe"]:
        anchors["observe_at"] = p["observe"]
    anchors["hook_needed"] = None
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": anchors})
    if not os.path.exists(os.path.join(HERE, "vp", "props", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "its monitor is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"{PY} run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough {PY} run.py {p['id']}",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": f"{PY} run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Pure-Python code under test, imported from /repo's working tree by fresh worker processes; no hooks were needed in /repo "
              "(monitors observe through public methods, wrapped at run time). See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(rows), "properties,", len(checks), "claimed,", len(na), "not applicable")
