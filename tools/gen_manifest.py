#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and the registered checks."""
import json
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(VERIF), str(VERIF / "tools")]
import checks  # noqa: E402
import notes  # noqa: E402

props = [json.loads(l) for l in (VERIF / "properties.jsonl").read_text().splitlines()]
out = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "cfg(mbqc_verif)",
        "enable": "RUSTFLAGS=\"--cfg mbqc_verif\" (set by check.py when it builds the monitors; module "
                  "mbqc_scheduling::verif_hooks; without the cfg nothing is compiled in)",
        "source_commits": subprocess.run(
            ["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hooks:"],
            capture_output=True, text=True, check=True).stdout.split(),
    },
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is 'python3 check.py <ID>'; see DESIGN.md. Known and repaired defects: "
             "known_findings.txt.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes.TECHNIQUE[i],
            "level": "exploration",
            "level_note": notes.NOTE[i],
        })
    else:
        out["not_applicable"].append({"property": i, "reason": notes.NOT_APPLICABLE.get(
            i, "no check yet")})
(VERIF / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(out, json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text()))
    print("valid;", len(out["checks"]), "checks")
except ImportError:
    print("written (not validated)")
