"""Writes the table of planted bugs into DESIGN.md from /verif/seeded/*/meta.json (run by hand)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
t = "| caught by | bug | needs | breaks |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!--SEEDED-->.*?(?=\n## |\Z)", lambda _: "<!--SEEDED-->\n" + t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
