"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand; no check reads seeded/)."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
head, tail = text.split("<!-- table -->\n")[0], text.split("<!-- /table -->")[1]
rows = ["| change | caught by | needs |", "|---|---|---|"]
for p in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m.get("caught_by", m["property"]), m["needs"].replace("|", "/")))
open(path, "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->" + tail)
