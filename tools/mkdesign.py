#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md from plan.py, the seeds and their results."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from plan import PLAN
o = ["", "Entries (`t`: thorough tier only):", ""]
for p in sorted(PLAN):
    s = PLAN[p]
    o.append("* **%s** – bounds: %s. Outside: %s." % (p, s["bounds"], s.get("outside", "")))
    for t in s["tasks"]: o.append("  * `%s`%s %s" % (t["entry"], " (t)" if t["tier"] == "thorough" else "", t["bounds"]))
    ev = os.path.join(R, "evidence", p + ".json")
o.append("")
plan = "\n".join(o)
res = json.load(open(R + "/tools/seeded-results.json"))
m = ["", "| planted bug | property | needs | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(R + "/seeded")):
    d = json.load(open(R + "/seeded/%s/meta.json" % i))
    r = res.get(i)
    m.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), "not run" if not r else ("caught, %d s" % r["secs"] if r["caught"] else "missed (exit %d)" % r["rc"])))
m.append("")
t = open(R + "/DESIGN.md").read()
for n, x in (("plan", plan), ("matrix", "\n".join(m))):
    t = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (n, n), lambda _: "<!-- %s -->%s\n<!-- /%s -->" % (n, x, n), t, flags=re.S)
open(R + "/DESIGN.md", "w").write(t)
