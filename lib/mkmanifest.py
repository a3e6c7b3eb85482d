#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (run by hand after adding a check)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = ("TLA+ trace validation (TLC): runs of real generated parsers, on inputs generated from the specification, "
      "against the LR(1) machine of spec/Parsegen.tla + Parser.tla")
NOTE = ("Decides the property for every explored grammar and input: TLC executes the specification next to each recorded run and "
        "compares. The specification itself is model-checked against the declarative semantics (languages, viable prefixes, parse trees) in "
        "spec/MCParsegen.tla. Trusts TLC, rustc and the recording run-time; grammars and inputs beyond those explored are not covered.")
LEVELS = {}
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from techniques import TECH
checks = []
for pid in sorted(TECH):
    t = TECH[pid]
    checks.append({"property": pid, "quick_cmd": "bin/check " + pid,
                   "thorough_cmd": "env VERIF_TIER=thorough bin/check " + pid,
                   "technique": t[0], "level": t[2] if len(t) > 2 else "model_checking", "level_note": t[1]})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [
    {"property": json.loads(l)["id"], "reason": "check under construction"}
    for l in open(os.path.join(V, "properties.jsonl")) if json.loads(l)["id"] not in TECH],
    "notes": "No hooks: the checks observe the unmodified macro and the code it generates from outside."},
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
