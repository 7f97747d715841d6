"""Writes MANIFEST.json from properties.jsonl and the families that cover each property."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import families
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    fs = [f for f in families.ALL if f.covers(p)]
    if not fs:
        na.append(dict(property=p, reason="machinery for this property is still being built"))
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p,
                       thorough_cmd="python3 check.py %s --thorough" % p,
                       technique="TLA+ specification: TLC model checking, model-generated histories replayed into the "
                                 "code, TLC trace validation (%s)" % ", ".join(sorted({m for f in fs for m in (f.model, f.module) if m})),
                       level="model_checking",
                       level_note=families.note(p)))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         hooks=dict(guard="lokky_verif", enable="RUSTFLAGS='--cfg lokky_verif --extern lokky_verif_core=... --extern "
                    "lokky_verif_std=...' (see build_shim in vlib/core.py): core and std are replaced by shims whose "
                    "atomics call a scheduler. Only the concurrent drivers use it.", source_commits=hooks),
         not_applicable=na,
         notes="See DESIGN.md. Exit 2 means the check itself failed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
