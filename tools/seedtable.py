"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| id | needs, to manifest | caught by |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), m["property"]))
s = open("DESIGN.md").read()
a, b = s.index("<!-- seeded table"), s.index("<!-- end -->")
open("DESIGN.md", "w").write(s[:a] + "<!-- seeded table: tools/seedtable.py -->\n" + "\n".join(rows) + "\n" + s[b:])
