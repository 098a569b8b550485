#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and plan.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from plan import PLAN, NA
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        s = PLAN[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the compiled Rust code (LLVM IR) with an SMT solver deciding every assertion",
            level=s.get("level", "model_checking"),
            level_note="Bounded: %s. Outside: %s. %s Trusts rustc's IR, the executor (symx) and z3/cvc5; counterexamples are replayed on a native build." % (s["bounds"], s.get("outside", "-"),
                "Doubles are treated as the exact decimals they print as with exact arithmetic; exp/ln/sin/sqrt as uninterpreted functions with sound axioms." if any(t["mode"] == "real" for t in s["tasks"]) else "IEEE-754 doubles.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na, notes="see DESIGN.md")
if os.path.exists(R + "/hooks.json"): m["hooks"] = json.load(open(R + "/hooks.json"))
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
