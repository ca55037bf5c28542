"""MANIFEST.json from properties.jsonl and vf/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import props

NA = getattr(props, "NOT_APPLICABLE", {})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
  if i in props.PROPS:
    p = props.PROPS[i]
    mods = sorted({d.module for d in p["designs"]} | {t.gen.module for t in p["traces"] if t.gen})
    specs = sorted({t.spec for t in p["traces"]})
    checks.append(dict(
        property=i,
        quick_cmd=f"bin/check {i} --tier quick",
        thorough_cmd=f"bin/check {i} --tier thorough",
        technique="TLA+ specification model-checked with TLC (%s); traces recorded from the real code validated by TLC against %s%s" % (
            ", ".join(mods) or "ground clauses", ", ".join(specs),
            "; behaviours generated by TLC replayed into the code" if any(t.gen for t in p["traces"]) else ""),
        level=p.get("level", "model_checking"),
        level_note=p.get("note", "Design model exhaustive at small scale; implementation bound by trace validation on generated inputs (not a proof for all inputs). Trusts TLC, the Java big-integer overrides (self-tested against pure TLA+ definitions), Python recording code and XLA CPU.")))
  else:
    na.append(dict(property=i, reason=NA.get(i, "check not built yet; the property is in scope of the specification and will be claimed when its trace check exists")))
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="none", enable="no hooks are needed: the checks drive the public API of /repo's working tree", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
