#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = "<!-- seeds -->\n| property | change | needs |\n|----|----|----|\n"
ms = sorted((json.load(open(f"seeded/{s}/meta.json"))["property"], s) for s in os.listdir("seeded"))
for p, s in ms:
    m = json.load(open(f"seeded/{s}/meta.json"))
    t += f"| {p} | {s}: {m['what_it_breaks']} | {m['needs']} |\n"
t += "<!-- /seeds -->\n"
d = open("DESIGN.md").read()
d = d.replace("@@SEEDS\n", "<!-- seeds -->\n<!-- /seeds -->\n")
d = re.sub(r"<!-- seeds -->\n.*?<!-- /seeds -->\n", lambda _: t, d, flags=re.S)
open("DESIGN.md", "w").write(d)
