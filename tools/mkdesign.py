"""Fills the lists of DESIGN.md (between the markers) from known_findings.json and seeded/."""
import json, os, re
s = open("/verif/DESIGN.md").read()
fix = "\n".join("* " + k["line"] for k in json.load(open("/verif/known_findings.json")))
res = json.load(open("/verif/tools/seedresults.json")) if os.path.exists("/verif/tools/seedresults.json") else {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(res.get(i, []))} |")


def fill(s, name, body):
    a, b = f"<!-- {name} -->", f"<!-- end {name} -->"
    if a in s:
        return s[:s.index(a)] + a + "\n" + body + "\n" + s[s.index(b):]
    return s.replace(f"@@{name}@@", a + "\n" + body + "\n" + b)


s = fill(s, "FIXES", fix)
s = fill(s, "SEEDS", "\n".join(rows))
open("/verif/DESIGN.md", "w").write(s)
