"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.json-like
table below.  A property with a check is listed in BUILT (id -> level, note)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_table import PROPS, BUILT, NA, FIXES

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")

checks = []
for p in PROPS:
    i = p["id"]
    if i in BUILT:
        level, tech, note = BUILT[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": level,
            "level_note": note,
        })
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in PROPS if p["id"] not in BUILT]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the crate's public API only", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh copies the crate sources of /repo's working tree into build/overlay (content-compared; Cargo.toml without the two unfetchable git dependencies), rebuilds the harness crate mc/ against it and explores the property. known-findings.txt lists recorded findings and fixes.",
}
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
