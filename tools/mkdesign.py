#!/usr/bin/env python3-vt
"""Appends the generated tables (functions under contract, trust, assumptions, planted changes) to DESIGN.md, below the marker line."""
import sys, os, json, glob, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
M = "<!-- generated by tools/mkdesign.py from here on -->\n"; p = H + "/DESIGN.md"; s = open(p).read().split(M)[0]; o = [s, M, "## Functions under contract, trust and assumptions\n"]
for i in range(1, 21):
    m = importlib.import_module("vc.specs.c%02d" % i); ts = m.tasks(); b = [t.name for t in ts if t.kind != "contract"]
    o.append("**C%02d** — %d proof tasks%s. Functions: %s.\n" % (i, len(ts), " (bounded, not counted as proved: %s)" % ", ".join(b) if b else "", ", ".join("`%s`" % f for f in sorted({f for t in ts for f in t.fns}))))
    for n, k in (("Trusted", "TRUST"), ("Assumed", "ASSUME")):
        if getattr(m, k, None): o.append("- %s: %s.\n" % (n, "; ".join(getattr(m, k))))
    o.append("\n")
o.append("## Planted changes (seeded/) and the checks that catch them\n\nEach compiles, passes the stable tests, and its demonstration fails; the check of its property reports it (confirmed with `tools/seedcheck.sh`).\n\n| change | property | needs | what it breaks |\n|---|---|---|---|\n")
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); o.append("| %s | %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(p, "w").write("".join(o))
