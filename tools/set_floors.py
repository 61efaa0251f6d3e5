#!/usr/bin/env python3
"""Development aid: derives floors.json (least numbers of judged events) from the evidence of quick runs."""
import json
import os

from plan import PLAN

here = os.path.dirname(os.path.abspath(__file__))
floors = {}
for prop in PLAN:
    with open(os.path.join(here, "../evidence", prop + ".json")) as f:
        e = json.load(f)
    assert e["tier"] == "quick" and e["violations"] == 0
    floors[prop] = {k: v // 10 for k, v in e["coverage"]["judged_events"].items() if v >= 100 and not k.startswith(("unstable", "left_open", "ambiguous", "threshold_too_close", "log_messages"))}
with open(os.path.join(here, "floors.json"), "w") as f:
    json.dump(floors, f, indent=1)
    f.write("\n")
