"""Shows a rejected GateTrace replay readably: peekg.py REPLAY [n]"""
import json, sys
d = json.load(open(sys.argv[1]))
d = d['detail']
n = int(sys.argv[2]) if len(sys.argv) > 2 else 12
def show(e):
    e = dict(e)
    if 'bytes' in e:
        e['bytes'] = bytes(e['bytes']).decode('latin1')
    if 'out' in e:
        e['out'] = [[p, bytes(x).decode('latin1') if x and isinstance(x[0], int) else x] for p, x in e['out']]
    return json.dumps(e)
for e in d['trace'][-n:]:
    print(show(e)[:1500])
print('WHY', d['why'], d.get('expected', '')[:1500])
