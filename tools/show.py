#!/usr/bin/env python3
"""Prints a replay file: the recorded trace up to the rejected event, what was recorded, what the specification allows."""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))['detail']
    for t in d['trace']:
        t = dict(t)
        st = t.pop('st', None)
        print(json.dumps(t)[:600])
    print('RECORDED', json.dumps(d['event'])[:3000])
    print('WHY', d['why'])
    print('EXPECTED', str(d['expected'])[:3000])
    print()
