"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
rows = ["| change | property | needs |", "|---|---|---|"]
for b in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{b}/meta.json"))
    rows.append("| %s | %s | %s |" % (b, m["property"], " ".join(str(m["needs"]).split()).replace("|", "/")))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda x: x[1] + "\n".join(rows) + "\n" + x[2], s, flags=re.S)
s = re.sub(r"holds \d+ changes", "holds %d changes" % (len(rows) - 2), s)
open("DESIGN.md", "w").write(s)
