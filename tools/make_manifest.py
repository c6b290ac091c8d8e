"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import ast
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
PROPS = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
PY = "/opt/venv/bin/python"

checks, missing = [], []
for p in PROPS:
    f = ROOT / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        missing.append({"property": p["id"], "reason": "no check yet"})
        continue
    consts = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} run_check.py {p['id']}",
        "thorough_cmd": f"{PY} run_check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": consts.get("TECHNIQUE", "property-based testing (Hypothesis): generated cases against an explicit oracle"),
        "level": "exploration",
        "level_note": "Random structured search with shrinking; nothing beyond the generated cases is shown. Assumes: "
                      + "; ".join(consts.get("ASSUMPTIONS", [])) + ".",
    })
manifest = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"from vlib import boot; boot.setup(); import hypothesis, pandas, networkx, plotly\"",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the checks import /repo/src directly and observe public behaviour only.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
