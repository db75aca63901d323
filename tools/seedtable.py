#!/usr/bin/env python3
# seedtable.py: rewrites the table of planted bugs in DESIGN.md (between the two marks) from seeded/*/meta.json.
import glob, json, os, re
by = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
rows = ["| caught by | planted bugs |", "|-|-|"]
n = 0
for p in sorted(by):
    n += len(by[p])
    rows.append("| %s | %s |" % (p, ", ".join(re.sub("^%s-" % p.lower(), "", x) if x.startswith(p.lower() + "-") else x for x in by[p])))
text = open("/verif/DESIGN.md").read()
a, rest = text.split("<!-- seeds -->\n")[0], text.split("<!-- seeds -->\n")[2]
open("/verif/DESIGN.md", "w").write(a + "<!-- seeds -->\n" + "%d planted bugs:\n\n" % n + "\n".join(rows) + "\n<!-- seeds -->\n" + rest)
print(n)
