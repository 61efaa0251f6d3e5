#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os

from plan import DEFAULT_TECHNIQUE, PLAN, SANITIZED, SANITIZED_THOROUGH, TECHNIQUE

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "../properties.jsonl")) as f:
    titles = {p["id"]: p["title"] for p in map(json.loads, f)}
assert list(titles) == list(PLAN)
checks = []
for prop, (quick, deep, workers, rule) in PLAN.items():
    note = f"Observed to hold on {quick} (quick) or up to {deep} (thorough) generated executions of the real code, each judged by an independent oracle; nothing is claimed beyond what was executed. Trusts the oracle, the generator and the compiler."
    if prop in SANITIZED:
        note += f" Repeated under the {SANITIZED[prop][0]} sanitizer."
    elif prop in SANITIZED_THOROUGH:
        note += f" Thorough runs are repeated under the {SANITIZED_THOROUGH[prop][0]} sanitizer."
    checks.append({
        "property": prop,
        "quick_cmd": f"python3 tools/check.py {prop} quick",
        "thorough_cmd": f"python3 tools/check.py {prop} thorough",
        "technique": TECHNIQUE.get(prop, DEFAULT_TECHNIQUE),
        "level": "exploration",
        "level_note": note,
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public interface. Known and repaired defects: known_findings.txt. Design: DESIGN.md.",
}
with open(os.path.join(here, "../MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
