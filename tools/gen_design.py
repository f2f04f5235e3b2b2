#!/usr/bin/env python3
"""Write DESIGN.md: tools/design.md with the tables of properties and planted bugs filled in."""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(VERIF), str(VERIF / "tools")]
import caught  # noqa: E402

rows = ["| planted bug | property | manifests only with | caught by (quick tier, seed 1) |", "|---|---|---|---|"]
for d in sorted((VERIF / "seeded").iterdir()):
    if not (d / "meta.json").exists():
        continue
    m = json.loads((d / "meta.json").read_text())
    by = caught.BY.get(d.name, m["property"])
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {by} |")
text = (VERIF / "tools/design.md").read_text().replace("@BUGS@", "\n".join(rows))
(VERIF / "DESIGN.md").write_text(text)
