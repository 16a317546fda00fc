"""Prints the end of a rejected trace: peek.py REPLAY [events]"""
import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 14
print(d['detail'].get('why'), d['detail'].get('expected'))
for e in d['detail']['trace'][-n:]:
    print('  ',json.dumps({k:v for k,v in e.items() if k!='out'})[:900]); 
    for o in e.get('out') or []: print('         ->',o[0],json.dumps(o[1])[:2500] if isinstance(o,list) else o)
