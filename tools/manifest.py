#!/usr/bin/env python3
"""Maintenance: writes MANIFEST.json from contracts/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(f"{V}/contracts/props.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    p = C["properties"].get(i)
    if not p:
        continue
    n = {"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}", "technique": "contract-based deductive verification with Verus of functions extracted from the source on every run (" + ", ".join(p["units"]) + "); bounded run of the property's statement on the compiled code for what is not under contract",
         "level": p["level"], "level_note": p.get("note", "")}
    checks.append(n)
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py --setup",
 "hooks": {"guard": "cfg relp_verif", "enable": "RUSTFLAGS --cfg relp_verif (harness/.cargo/config.toml)", "source_commits": ["ad116983d8398f7c1c9dd27dce3f50546af19211"]},
 "checks": checks,
 "not_applicable": [{"property": i, "reason": C["not_applicable"].get(i, "contracts for this property are not finished")} for i in ids if i not in C["properties"]],
 "notes": "Each check extracts the functions under contract from /repo/src with vx (rewrites listed in DESIGN.md), has Verus discharge every obligation, and runs the property's statement on the compiled code (bounded, never counted as proved)."},
 open(f"{V}/MANIFEST.json", "w"), indent=1)
