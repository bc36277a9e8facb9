#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the property table of the harness."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
have = set(re.findall(r'id: "(C\d\d)"', "".join((root / h / "src/props.rs").read_text() for h in ("harness", "ampdmon"))))
checks, na = [], []
NOTES = json.loads((root / "tools/level_notes.json").read_text())
for p in props:
    i = p["id"]
    if i in have:
        n = NOTES.get(i, NOTES["default"])
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "monitor not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
