#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].rstrip(".")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| change \| breaks \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
