#!/usr/bin/env python3
"""Build what the checks need, so that the first check does not pay for it. Each check builds what
is missing or out of date by itself."""
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(VERIF)]
sys.dont_write_bytecode = True
import check  # noqa: E402

try:
    bins = sorted(p.stem for p in (VERIF / "harness/src/bin").glob("c*.rs"))
    bins = [b for b in bins if b != "c21m"] + ["paths"]
    for profile in ("debug", "release"):
        check.build("hooks", profile, bins)
        check.build_cli(profile)
    for variant in ("tsan", "asan"):
        check.build(variant, "release", ["c21"])
except check.NoVerdict as e:
    print(e)
    sys.exit(1)
