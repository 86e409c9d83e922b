#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/checks.cmake (claimed ids) and properties.jsonl."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
claimed = set(re.findall(r"^ll2_check\((C\d+)", (root / "checks/checks.cmake").read_text(), re.M)) | {f.stem for f in (root / "py").glob("C[0-9][0-9].py")}
notes = json.loads((root / "tools/level_notes.json").read_text())
na = notes.get("not_applicable", {})
checks = []
for p in props:
    i = p["id"]
    if i not in claimed: continue
    n = notes["checks"][i]
    checks.append({"property": i, "quick_cmd": f"./run_check.sh {i} quick", "thorough_cmd": f"./run_check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
out = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "no check has been built for this property yet")}
                          for p in props if p["id"] not in claimed],
       "notes": "All checks but C27 (Python, py/) are C++ property-based tests (own choice-sequence engine with shrinking, engine/pbt.*) compiled together with /repo's sources under sanitizers. No hooks in /repo are needed."}
(root / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
