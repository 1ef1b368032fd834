"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    d = json.load(open(path))
    name = path.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (
        name, d["property"], d["what_it_breaks"].replace("|", "/"),
        d["needs"].replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
head = open(p).read().split("<!-- seeded -->")[0]
with open(p, "w") as f:
    f.write(head + "<!-- seeded -->\n\nEach one is caught by the quick check "
            "of its property (seed 1) unless noted above.\n\n| bug | caught by | breaks | "
            "needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
