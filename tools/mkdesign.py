#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["what_it_breaks"]))
t = "| caught by | bug | what it breaks |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s.replace("@SEEDS@", "<!-- seeds -->\n<!-- end -->"), flags=re.S)
open(p, "w").write(s)
