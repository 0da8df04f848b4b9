#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so the two stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, state=state or []))

exec(open(os.path.join(V, "tools", "props.py")).read())

for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
    for id, title, statement, reason, files in NA:
        q = {"id": id, "title": title, "statement": statement,
             "quantifier": {"over": ["inputs"], "text": "every input of the function"},
             "why_tests_cant": "The tests hold fixed vectors; the claim is about every input.",
             "anchors": {"files": files, "mechanism": [dict(name="the function itself", where=files[0])]}}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "none needed: the checks build an instrumented copy of /repo's working tree through 'go build -overlay' (no source change)", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                 "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                 "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": n[0], "reason": n[3]} for n in NA]}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
