#!/usr/bin/env python3
"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    need = " ".join(str(d["needs"]).split()).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {need} |")
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(\| Seeded \| Property \| Needs \|\n\|[-| ]+\|\n)(\|.*\n)*", lambda k: k.group(1) + "\n".join(rows) + "\n", t)
open(p, "w").write(t)
print(len(rows))
