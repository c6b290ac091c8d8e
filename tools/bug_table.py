#!/opt/venv/bin/python
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and the results of `plant.py check`."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parents[1]
res = json.loads((V / "tools/bugs/results.json").read_text())
rows = ["| bug | needs | caught by (quick) |", "|---|---|---|"]
n = 0
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    r = res.get(d.name, {})
    c = [p for p, v in sorted(r.items()) if v == "caught"]
    miss = [p for p, v in sorted(r.items()) if v != "caught"]
    rows.append(f"| {d.name} | {m['needs']} | {', '.join(c) or '—'}{' (missed: ' + ', '.join(miss) + ')' if miss else ''} |")
    n += m["property"] in c
p = V / "DESIGN.md"
s = p.read_text()
total = len(rows) - 2
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n%d planted bugs, %d caught by the check of their property.\n\n%s\n<!-- /bugs -->" % (total, n, "\n".join(rows)), s, flags=re.S)
p.write_text(s)
print(total, n)
