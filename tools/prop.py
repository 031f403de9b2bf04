#!/usr/bin/env python3
"""Add or replace one property: tools/prop.py < JSON (fields of properties.jsonl, plus
technique/level_note which go to harness/ID/meta.json)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(p):
    path = os.path.join(HERE, "properties.jsonl")
    rows = [json.loads(l) for l in open(path)] if os.path.exists(path) else []
    rows = [r for r in rows if r["id"] != p["id"]] + [p]
    rows.sort(key=lambda r: r["id"])
    with open(path, "w") as f:
        for r in rows: f.write(json.dumps(r, ensure_ascii=False) + "\n")
def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    put({"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                     "observe_at": list(observe), "hook_needed": None}})
