#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (vlib/domains) and the catalogue (properties.jsonl)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib.registry import checks_of
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    cs = checks_of(p)
    if cs:
        specs = ", ".join(sorted({f"specs/{c.spec}" for c in cs}))
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick",
                           thorough_cmd=f"python3 check.py {p} --tier thorough",
                           technique="TLA+ specification model checked with TLC; traces of the implementation validated against it",
                           level="model_checking",
                           level_note=f"Design: exhaustive within small constants ({specs}). Implementation: every recorded execution (behaviours generated "
                                      "from the specification and seeded random histories) must be a behaviour of the specification. "
                                      + " ".join(c.note for c in cs if c.note)))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="none", enable="no hooks in /repo: the drivers use public and protected interfaces only", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks: python3 check.py <property>; they build drivers from /repo's working tree into /verif/.cache (ignored by git).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
