#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a checks/pNN.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; behaviours of the model replayed on the real code and recorded executions validated against the specification"
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({"property": i, "quick_cmd": "python3-vt run.py %s quick" % i, "thorough_cmd": "python3-vt run.py %s thorough" % i,
                       "technique": T, "level": "model_checking", "level_note": NOTES.get(i) or DEFAULT})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its check is still being built")})
json.dump({"version": 1, "setup_cmd": "bash harness/build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness compiles /repo's sources from the working tree with stand-ins for sockets, clocks and timers."},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
