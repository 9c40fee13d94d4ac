#!/usr/bin/env python3
# Writes DESIGN.md from design.head.md, known_findings.txt, the harness table
# (output of "vp table", on stdin) and seeded/*/meta.json.
import json, os, re, sys
v = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
o = open(os.path.join(v, "tools", "design.head.md")).read()
for l in open(os.path.join(v, "known_findings.txt")):
    m = re.match(r"fixed: property=(P\d+) (\w+) (.*)", l)
    if m:
        o += "* %s (%s): %s\n" % m.groups()
o += open(os.path.join(v, "tools", "design.seeds.md")).read()
o += "\n| bug | property | needs | breaks |\n|---|---|---|---|\n"
s = os.path.join(v, "seeded")
for d in sorted(os.listdir(s)):
    m = json.load(open(os.path.join(s, d, "meta.json")))
    o += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], m["what_it_breaks"])
o += "\n## 5. Harnesses\n\nNumbers are instances (a harness at one shape); “thorough adds” comes on top of quick.\n\n" + sys.stdin.read()
open(os.path.join(v, "DESIGN.md"), "w").write(o)
