#!/usr/bin/env python3
"""Fills in the tables of DESIGN.md from plan.py, models.py, properties.jsonl and the seeded changes."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families, models
from plan import PLAN

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}


def per_property():
    t = []
    for p in sorted(PLAN):
        w, inv = models.MODELS.get(p, ([], ""))
        t.append("* **%s** %s  " % (p, props[p]["title"]))
        m = ["world%s %s: %s" % ("s" * (len(w) > 1), ", ".join(w), ", ".join("`%s`" % i for i in inv.split()))] if w else []
        m += ["`%s`" % d for d in models.DESIGN.get(p, [])]
        t.append("  TLC: %s.  " % "; ".join(m))
        t.append("  Executions of the program: " + ", ".join("%s %d/%d" % f for f in PLAN[p]["families"]) + ".")
    return "\n".join(t)


def all_families():
    t = ["| family | scenarios |", "|---|---|"]
    for n in sorted({f for p in PLAN.values() for f, _, _ in p["families"] if not f.startswith("gen:")}):
        f = getattr(families, n, None)
        doc = " ".join((f.__doc__ or "").split()) if f else ""
        t.append("| %s | %s |" % (n, doc))
    return "\n".join(t)


def seeded():
    t = ["| change | caught by | it takes |", "|---|---|---|"]
    for d in sorted(os.listdir("seeded")):
        m = json.load(open("seeded/%s/meta.json" % d))
        t.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
    return "\n".join(t)


s = open("DESIGN.md").read()
for k, f in ("props", per_property), ("families", all_families), ("seeded", seeded):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % k, lambda m: m[1] + f() + "\n" + m[2], s, flags=re.S)
open("DESIGN.md", "w").write(s)
