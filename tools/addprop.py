"""Append or replace one property in properties.jsonl: addprop.py < property.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "properties.jsonl")
rows = [json.loads(l) for l in open(F)]
x = json.load(sys.stdin)
assert len(x["title"]) <= 80, len(x["title"])
rows = [r for r in rows if r["id"] != x["id"]] + [x]
rows.sort(key=lambda r: r["id"])
open(F, "w").write("".join(json.dumps(r) + "\n" for r in rows))
