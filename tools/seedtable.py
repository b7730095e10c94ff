"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
rows = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
t = "| planted bug | caught by | needs |\n|----|----|----|\n" + "\n".join(rows)
s = open("/verif/DESIGN.md").read()
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", "<!-- seeds -->\n" + t + "\n<!-- /seeds -->")
else: s = s[:s.index("<!-- seeds -->")] + "<!-- seeds -->\n" + t + "\n" + s[s.index("<!-- /seeds -->"):]
open("/verif/DESIGN.md", "w").write(s)
print(len(rows))
