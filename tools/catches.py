"""Writes the table of planted bugs (from seeded/*/meta.json) into DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
text = "\n".join("| %s | %s |" % (p, ", ".join(by[p])) for p in sorted(by))
text = "| check | planted bugs that it catches |\n|---|---|\n" + text + "\n"
p = root + "/DESIGN.md"
s = open(p).read()
head = "<!-- catches: written by tools/catches.py -->\n"
a = s.index(head) + len(head)
b = s.index("<!-- end -->", a)
open(p, "w").write(s[:a] + text + s[b:])
