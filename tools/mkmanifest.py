#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = getattr(props, "LEVEL_NOTES", {})
SCHED_NOTE = ("Executions of the real library under a controlled scheduler (every lock, condition variable, atomic and clock read is a "
              "scheduling point; schedules and programs are sampled from a seed) are each validated by TLC against spec/Sched.tla, which decides "
              "the property at every event; the specification itself is model checked at small bounds. Sound per execution, sampled over executions; "
              "trusts the simulator's thread and clock model (sequential consistency) and the driver's event log.")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                      technique=props.TECHNIQUE.get(p, "TLA+ specification checked with TLC; TLC trace validation of recorded executions of the real code"),
                      level="model_checking", level_note=NOTES.get(p, SCHED_NOTE)) for p in ids if p in props.PROPS],
         not_applicable=[dict(property=p, reason=props.NOT_YET.get(p, "no check has been built for it yet")) for p in ids if p not in props.PROPS],
         notes="See DESIGN.md. No hooks in /repo are needed: the drivers link /repo's sources with a replacement of the threading and socket primitives.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
