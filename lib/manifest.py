"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
TECH = json.loads((V / "lib" / "techniques.json").read_text())
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists() and i in TECH:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": t["technique"], "level": t.get("level", "model_checking"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py driver driver-fast python python-asan", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness in /verif compiles /repo's sources itself and wraps storage-library calls at link time."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
