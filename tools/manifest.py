#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import config  # noqa: E402


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, absent = [], []
    for i in ids:
        c = config.PROPERTIES.get(i)
        if not c:
            absent.append(dict(property=i, reason=config.ABSENT.get(i, "no check yet")))
            continue
        note = c["note"] + " Bounds: " + c.get("bounds", "none") + ". Trusts Kani/CBMC" + (
            ", Verus/Z3 and the mechanical extraction" if c.get("verus") else "") + "; see DESIGN.md."
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
            technique=c.get("technique", "contract-based deductive verification: "
                            + ("contracts on mechanically extracted functions discharged by Verus (Z3), without bounds; " if c.get("verus") else "")
                            + "contracts on the real functions discharged by Kani (CBMC)"),
            level=c["level"], level_note=note))
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             hooks=dict(guard="cfg(kani)", enable="cargo kani sets it; no other build does", source_commits=config.HOOK_COMMITS),
             checks=checks, not_applicable=absent,
             notes="Evidence: evidence/<id>.json. Known findings and repairs: known-findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
