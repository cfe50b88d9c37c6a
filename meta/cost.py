#!/usr/bin/env python3
"""Updates cost.json from the evidence files of the last runs"""
import glob, json, os
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(top, "meta", "cost.json")
cost = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(os.path.join(top, "evidence", "*.json")):
    d = json.load(open(e)); c = cost.setdefault(d["property"], {})
    s = d.get("wall_s")
    v = dict(s=round(s) if s else "?", x=d["coverage"]["executions"], t=d["coverage"]["transitions"])
    if d["tier"] == "quick": c.update(v)
    else: c["thorough"] = "%s s, %s executions" % (v["s"], v["x"])
json.dump(dict(sorted(cost.items())), open(f, "w"), indent=1); open(f, "a").write("\n")
