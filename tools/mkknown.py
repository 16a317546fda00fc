#!/usr/bin/env python3
"""Regenerates known-findings.json: the repairs in /repo (by subject) and the findings left unrepaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'findings.py')).read())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        for p in FIXED[s].split():
            out.append({'status': 'fixed', 'property': p, 'commit': h, 'text': 'fixed: property=%s %s %s' % (p, h, s)})
json.dump({'findings': out + KNOWN}, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
