#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []      # (property dict, technique, level_note)   technique None -> not applicable, level_note = reason


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = False
    PROPS.append(({"id": id, "title": title, "statement": statement,
                   "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, technique, note))


exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [p["id"] for p, _, _ in PROPS]
assert len(ids) == len(set(ids))
for p, _, _ in PROPS:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in sorted(PROPS, key=lambda x: x[0]["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "cd /verif && python3 -m rz.dump", "checks": [], "not_applicable": [],
     "notes": "All checks share one MIR dump of /repo's working tree (rebuilt whenever the sources change) and decide statically; "
              "nothing of /repo is executed. No hooks are needed in /repo; its commits are fixes of genuine defects (known_findings.txt)."}
for p, t, n in sorted(PROPS, key=lambda x: x[0]["id"]):
    i = p["id"]
    if t:
        m["checks"].append({"property": i, "quick_cmd": "cd /verif && python3 -m rz.run %s quick" % i,
                            "thorough_cmd": "cd /verif && python3 -m rz.run %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": n})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
