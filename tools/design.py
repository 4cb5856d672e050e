"""fill the table of seeded bugs in DESIGN.md"""
import json, glob, os, re
d = "/verif/DESIGN.md"
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/")))
s = open(d).read()
a = s.index("|---|---|---|") + len("|---|---|---|\n")
b = s.index("Seeds that were missed")
open(d, "w").write(s[:a] + "\n".join(rows) + "\n\n" + s[b:])
