"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.setdefault(d["property"], []).append(
        "`%s`: %s" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].strip()))
lines = ["| caught by | planted bugs |", "|---|---|"]
for p in sorted(rows):
    lines += ["| %s | %s |" % (p, x) for x in rows[p]]
path = HERE + "/DESIGN.md"
s = open(path).read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)",
           lambda m: m[1] + "\n".join(lines) + "\n" + m[2], s, flags=re.S)
open(path, "w").write(s)
