#!/opt/venv/bin/python
"""Writes the table of planted bugs into DESIGN.md (below the heading `Planted bugs`) from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
except FileNotFoundError:
    caught = {}
rows = []
for f in glob.glob(os.path.join(V, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"], m["what_it_breaks"], " ".join(caught.get(i, [m["property"]]))))
t = "| property | bug | needs | breaks | caught by |\n|---|---|---|---|---|\n" + "".join("| " + " | ".join(c.replace("|", "\\|").replace("\n", " ") for c in r) + " |\n" for r in sorted(rows))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("<!-- BUGS -->")
j = s.find("<!-- /BUGS -->")
s = s[:i] + "<!-- BUGS -->\n\n" + t + "\n<!-- /BUGS -->" + (s[j + len("<!-- /BUGS -->"):] if j >= 0 else "\n")
open(p, "w").write(s)
print(len(rows), "bugs")
