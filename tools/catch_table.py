#!/usr/bin/env python3
"""catch_table.py   rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = "| planted bug | caught by | what it needs |\n|---|---|---|\n"
for i in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % i))
    rows += "| %s | %s (own) | %s |\n" % (i, m["property"], m["needs"])
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- catch table: tools/catch_table.py -->\n).*?(<!-- end -->)", lambda k: k.group(1) + rows + k.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
