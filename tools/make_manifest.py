"""Writes /verif/MANIFEST.json from the check modules present and properties.jsonl (run by hand)."""
import ast, json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
mods = {p.stem.split("_")[0].upper(): p for p in sorted((root / "vp").glob("c[0-9][0-9]_*.py"))}
props = [json.loads(x) for x in (root / "properties.jsonl").read_text().splitlines() if x.strip()]
NA = json.loads((root / "tools/not_applicable.json").read_text()) if (root / "tools/not_applicable.json").exists() else {}
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid not in mods:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet (work in progress); the technique applies")})
        continue
    consts = {}
    for node in ast.parse(mods[pid].read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("TECHNIQUE", "NOTE", "LEVEL"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": pid,
        "quick_cmd": f"./run.sh {pid}",
        "thorough_cmd": f"./run.sh {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": consts.get("TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
        "level": consts.get("LEVEL", "exploration"),
        "level_note": consts.get("NOTE", "No counterexample among the generated cases (counts in the evidence file); trusts the oracle in vp/" + mods[pid].name + ", Hypothesis, and daf_butler."),
    })
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python vp/deps.py", "checks": checks, "not_applicable": na,
       "notes": "Every check generates cases with Hypothesis and compares the code in /repo with an explicit oracle; see DESIGN.md."}
(root / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
