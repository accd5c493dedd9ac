#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/*.json-ish
Python dicts below (kept in one place so that the two never disagree)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []          # (id, title, statement, over, text, why, files, mechanism, observe_at, technique, level_note, na_reason)


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, na=na))


exec(open(os.path.join(V, "meta.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every monitor attaches at process, file, library or generated-code boundaries. "
              "Sanitizers (ASan, UBSan, LSan) are enabled by compiling /repo's sources in a scratch copy under /verif/.work."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    c = "python3 checks/%s.py" % p["id"].lower()
    m["checks"].append({"property": p["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
