#!/usr/bin/env python3
"""Write BOUNDS.md: the bound of every harness, taken from its doc comment."""
import os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(root + "/harness/**/*.go", recursive=True)):
    lines = open(f).read().split("\n")
    for i, l in enumerate(lines):
        m = re.match(r"//verif:harness (\S+)\s*(\S*)(.*)", l)
        if not m:
            continue
        j = i - 1
        doc = []
        while j >= 0 and lines[j].startswith("//"):
            doc.insert(0, lines[j][2:].strip())
            j -= 1
        name, _, text = " ".join(d for d in doc if d).partition(":")
        split = re.search(r"split=(\S+)", m.group(3))
        rows.setdefault(m.group(1), []).append((name, m.group(2), text.strip(), split.group(1) if split else ""))
with open(root + "/BOUNDS.md", "w") as o:
    o.write("# Bounds of every harness\n\nGenerated by tools/mkbounds.py from the harnesses.  Every value within a bound is covered by the\nsolver's answer; nothing outside it is.  `split` names inputs whose values are handed to the solver as\nseparate cases.\n")
    for p in sorted(rows):
        o.write("\n## %s\n\n" % p)
        for n, t, d, s in rows[p]:
            o.write("* `%s` (%s)%s: %s\n" % (n, "both tiers" if t in ("both", "") else t, ", split " + s if s else "", d))
