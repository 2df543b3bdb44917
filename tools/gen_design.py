#!/usr/bin/env python3
# Writes DESIGN.md: tools/design_head.md and the table of planted bugs.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(root, "tools/design_head.md")).read()
out += "| bug | caught by | needs | breaks |\n|---|---|---|---|\n"
missed = {l.strip() for l in open(os.path.join(root, "tools/missed.txt"))} if os.path.exists(os.path.join(root, "tools/missed.txt")) else set()
for d in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(d)); b = os.path.basename(os.path.dirname(d))
    f = lambda s: s.replace("|", "/").replace("\n", " ")
    out += "| %s | %s | %s | %s |\n" % (b, "(missed) " + m["property"] if b in missed else m["property"], f(str(m["needs"])), f(m["what_it_breaks"]))
open(os.path.join(root, "DESIGN.md"), "w").write(out)
