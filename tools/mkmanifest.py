#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules of the harness."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
have = {f[:-3].upper() for f in os.listdir(os.path.join(here, "harness/src/props")) if re.match(r"c\d\d\.rs$", f)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": "exploration",
            "level_note": note + " Exploration of generated inputs: no proof of absence. Trusts the volume builder and the oracle (written from the on-disk format, sharing no code with the crate), rustc, and the release profile with debug assertions and overflow checks on.",
        })
    else:
        na.append({"property": i, "reason": "Not claimed: its check is not finished yet."})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: everything is observed through the public API of the crate and of the example. KNOWN-FINDINGS.txt lists the defects found: those repaired by fix commits in /repo, and two of the example (C17) that are reported as KNOWN-FINDING.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
