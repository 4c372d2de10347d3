#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its parts and the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("C01-portions C07-raw-pointer-key C07-rounded-scale-key C23-clamped-slopes C25-symmetry C12-average C14-sign-bit C14-composite-slices C10-gives-up C15-shared-sample C17-last-two-shared C20-bit-reuse C20-vector-same C24-order C24-float-step C34-neighbour-last".split())
MISSED |= set(open(os.path.join(V, "tools/missed.txt")).read().split()) if os.path.exists(os.path.join(V, "tools/missed.txt")) else set()
part = lambda n: open(os.path.join(V, "tools", n)).read()
t = "| change | check that catches it | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f)); i = f.split("/")[-2]
    t += "| %s | %s%s | %s | %s |\n" % (i, m["property"], " (first missed)" if i in MISSED else "", m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"))
open(os.path.join(V, "DESIGN.md"), "w").write(part("design_head.md") + "\n" + part("design_props.md") + part("design_tail.md") + t)
