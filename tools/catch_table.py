#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand; no check reads seeded/)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
s = open(R + "/DESIGN.md").read().split("\n")
i = next(k for k, l in enumerate(s) if re.match(r"\| c\d\d-", l))
j = i
while j < len(s) and s[j].startswith("| c"):
    j += 1
s[i:j] = rows
open(R + "/DESIGN.md", "w").write("\n".join(s))
print(len(rows))
