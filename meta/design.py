#!/usr/bin/env python3
"""Writes ../DESIGN.md: design_head.md, a section for each property, and the tables of findings and planted bugs"""
import glob, json, os, re
from catalogue import PROPS
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
cost = json.load(open(os.path.join(top, "meta", "cost.json")))
caught = {}
p = os.path.join(top, "meta", "caught.txt")
if os.path.exists(p):
    for line in open(p):
        w = line.split()
        if len(w) > 2: caught[w[0]] = (w[2], " ".join(w[3:]))
seeds = {}
for d in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); seeds[os.path.basename(os.path.dirname(d))] = m
out = [open(os.path.join(top, "meta", "design_head.md")).read().rstrip(), "", "# The properties", ""]
for pid, p in PROPS.items():
    out += ["## %s — %s" % (pid, p["title"]), "", p["statement"], ""]
    if p.get("harness") is None:
        out += ["*Not claimed:* " + p["na"], ""]
        continue
    mine = [s for s, m in seeds.items() if m["property"] == pid]
    out += ["* **Decided by** %s (`mc/%s.cc`, groups of `MC_BODY(\"%s\", ...)`)." % (p["technique"], p["harness"], pid),
            "* **Quantifier:** %s." % p["quant"].rstrip("."),
            "* **Enumerated (bounds):** %s." % p["bounds"].rstrip("."),
            "* **Code:** %s." % "; ".join("%s (`%s`)" % x for x in p["mech"]),
            "* **Why the tests cannot settle it:** %s" % p["why"],
            "* **Trust:** %s" % p["note"]]
    if pid in cost:
        out += ["* **Cost (8 cores):** quick %s s, %s executions, %s transitions%s." % (cost[pid]["s"], cost[pid]["x"], cost[pid]["t"],
                ("; thorough " + cost[pid]["thorough"]) if "thorough" in cost[pid] else "")]
    if mine: out += ["* **Planted bugs:** " + ", ".join("`%s`" % s for s in mine) + "."]
    out += [""]
out += ["# Defects found in typelib", "", "Each was shown against the real code by a check and repaired with a `fix:` commit in `/repo` or listed as a known finding in `known_findings.txt`.", "",
        "| property | commit | what failed |", "|---|---|---|"]
for line in open(os.path.join(top, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m: out += ["| %s | %s | %s |" % m.groups()]
    m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)", line)
    if m: out += ["| %s | known finding | %s (`%s`) |" % (m.group(1), m.group(3), m.group(2))]
out += ["", "# Planted bugs and the checks that catch them", "",
        "All of them compile, pass the existing tests, and have a demonstration that fails with the bug only (`tools/plant.py` builds and confirms them in a scratch clone, and runs the quick check on each).", "",
        "| bug | property | needs | outcome of the quick check |", "|---|---|---|---|"]
for s, m in seeds.items():
    r = caught.get(s, ("?", ""))
    key = re.search(r"key=(\S+)", r[1])
    out += ["| %s | %s | %s | %s%s |" % (s, m["property"], m["needs"].replace("|", "\\|"), r[0].lower(), (" (`%s`)" % key.group(1)) if key else "")]
open(os.path.join(top, "DESIGN.md"), "w").write("\n".join(out) + "\n")
