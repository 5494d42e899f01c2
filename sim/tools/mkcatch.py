#!/usr/bin/env python3
# Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
lines = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    lines.append("* **%s** → %s: %s" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].rstrip(".")))
p = root + "/DESIGN.md"
s = open(p).read()
a = s.index("\n* **c01")
b = s.index("\n\nMissed at first")
open(p, "w").write(s[:a + 1] + "\n".join(lines) + s[b:])
