#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, technique, note))
    if na:
        NA.append({"property": id, "reason": na})

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [{
        "property": d["id"],
        "quick_cmd": f"./check.sh {d['id']} quick",
        "thorough_cmd": f"./check.sh {d['id']} thorough",
        "evidence_file": f"evidence/{d['id']}.json",
        "technique": t, "level": "exploration", "level_note": n,
    } for d, t, n in P if d["id"] not in na],
    "not_applicable": NA,
    "notes": "All checks run one binary, /verif/harness, against the crates in /repo by path. No hooks in /repo are needed. `./replay.sh FILE` re-runs one recorded episode. Recorded findings: known-findings.json.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
