#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing)."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None,
         technique=None, note=None, level="exploration", na=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], hook=hook, technique=technique,
                  note=note, level=level, na=na, thorough=thorough))

exec(open("tools/props_table.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": p["hook"]}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

built = {l.split()[0] for l in open("harness/checks.txt") if l.strip()}
hooks = None
if os.path.exists("tools/hooks.json"):
    hooks = json.load(open("tools/hooks.json"))
m = {"version": 1, "setup_cmd": "./setup.sh"}
if hooks: m["hooks"] = hooks
m["checks"] = []
m["not_applicable"] = []
for p in P:
    if p["na"] or p["id"] not in built:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "The monitor for this property is not built yet."})
        continue
    c = {"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "technique": p["technique"],
         "level": p["level"], "level_note": p["note"]}
    if p["thorough"]: c["thorough_cmd"] = f"./check.sh {p['id']} thorough"
    m["checks"].append(c)
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(m["checks"]), "claimed")
