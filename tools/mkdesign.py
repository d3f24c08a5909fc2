#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: the defects and the planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
def put(name, text):
    global d
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    d = d[:d.index(a) + len(a)] + text + d[d.index(b):]
L = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in open(V + "/known_findings.txt") if l.startswith("fixed:")]
put("defects", "%d defects of the original tree, each with its own `fix:` commit in /repo (the same list is\n`known_findings.txt`; there are no open known findings).\n\n" % len(L) + "".join("* %s (%s) %s\n" % m.groups() for m in L))
caught = json.load(open(V + "/tools/caught.json"))
t = "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    t += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "not measured"))
put("seeded", t)
open(V + "/DESIGN.md", "w").write(d)
