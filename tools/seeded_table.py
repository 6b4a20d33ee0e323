#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(r, "seeded")
t = "| bug | caught by | needs |\n|---|---|---|\n"
for x in sorted(os.listdir(d), key=lambda x: (json.load(open(f"{d}/{x}/meta.json"))["property"], x)):
    m = json.load(open(f"{d}/{x}/meta.json"))
    n = m["needs"].replace("|", "/").replace("\n", " ")
    t += f"| {x} | {m['property']} | {n} |\n"
p = os.path.join(r, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- from tools/seeded_table.py -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n" + t + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
