"""Bytes through the proxy (events of FramingTrace.tla)."""
from drive import *

def b(s):
    return [ord(c) for c in s]

def execute(w, sc):
    """sc: {lines: [...]} for the parser, or {ops: [...]} for streams"""
    ev = w.partial = []
    d = start(w, networks={'netA': {'': net()}})
    w.partial = ev
    peers = ['s1', 'c1', 'c2']
    ev.append({'e': 'reset', 'peers': peers, 'name': b('netA'), 'mask': b('me!u@localhost')})
    if 'lines' in sc:
        for k in range(0, len(sc['lines']), 50):
            out = []
            for x in sc['lines'][k:k + 50]:
                r = w.op('parse', x.encode('latin1'))
                if r['line'] is None:
                    out.append([b(x), [], '', []])
                else:
                    out.append([b(x), flat(r['line']), esc(r['str']), flat(r['line2'])])
            ev.append({'e': 'parse', 'list': out})
        w.end()
        return ev
    w.op('send', 's1', ':srv 001 me :hi\r\n:srv 376 me :end\r\n')
    for c in peers[1:]:
        w.op('cconn', c, 5000)
        w.op('send', c, 'PASS pw\r\nNICK me\r\nUSER u a b :r\r\n')
    for op in sc['ops']:
        k = op[0]
        if k == 'data':
            if len(op) > 3 and op[3]:
                for p, plan in op[3].items():
                    w.op('plan', p, plan)
            r = w.op('send', op[1], op[2].encode('latin1'))
            e = {'e': 'data', 'c': op[1], 'bytes': b(op[2])}
        elif k == 'stall':
            r = w.op('stall', op[1], int(op[2]))
            e = {'e': 'stall', 'c': op[1], 'on': bool(op[2])}
        e['out'] = [[p, b(x)] for p, x in (r.get('io') or {}).items()]
        e['closed'] = [x['closed'] for x in r.get('ev') or [] if 'closed' in x]
        ev.append(e)
    w.end()
    return ev

def flat(l):
    return [esc(l['origin'] or '')] + [esc(x) for x in l['args']]

def behaviour(h):
    return {'ops': [[x[0], x[1], ''.join(map(chr, x[2]))] if x[0] == 'data' else list(x) for x in h if x[0] != 'some']}

TEXT = [chr(c) for c in list(range(2, 10)) + list(range(11, 13)) + list(range(14, 256))]
def text(rng, n):
    if rng.random() < .6:
        return ''.join(rng.choice('ab :c') for _ in range(n))
    return ''.join(rng.choice(TEXT) for _ in range(n))

def size(rng):
    return rng.choice([0, 1, 2, 3, rng.randint(0, 30), rng.randint(0, 80), rng.randint(400, 600), rng.choice([1000, 1023, 1024, 1500, 2100])] if rng.random() < .12 else [0, 1, 3, rng.randint(0, 30), rng.randint(0, 60)])

def line(rng, p):
    k = rng.random()
    if k < .08:
        return 'PING ' + rng.choice(['', ':']) + rng.choice(['tok', 'a.b', '12345'])
    if k < .12:
        return rng.choice(['', ':x', ' ', ':']) if p == 's1' else rng.choice(['', ':x'])
    o = ''
    if p == 's1':
        o = rng.choice([':a!b@c ', ':srv ', ':xy!u@h.x  ', ':x '])
    elif rng.random() < .1:
        o = ':foo '
    t = text(rng, size(rng))
    if '\x01' in t:
        t = ''
    s = o + rng.choice(['PRIVMSG', 'NOTICE']) + ' ' + rng.choice(['#x', 'you', 'al', '#a,#b'])
    m = rng.random()
    if m < .75:
        s += ' :' + t
    elif m < .9:
        s += ' ' + rng.choice(['w', 'w  z', 'w z', 'a b :c d', 'a :', 'w ']) 
    else:
        s += '  ' + t
    return s

def stream(rng, p, n):
    return ''.join(line(rng, p) + rng.choice(['\r\n', '\r\n', '\n']) for _ in range(n))

def scenario(rng):
    ops = []
    s = {p: stream(rng, p, rng.randint(0, 6)) for p in ('s1', 'c1', 'c2')}
    if rng.random() < .06:
        s['s1'] += 'x'
    stalled = set()
    while any(s.values()):
        p = rng.choice([x for x in s if s[x]])
        n = rng.choice([1, 1, 2, 3, 5, rng.randint(1, 40), rng.randint(1, 200), 100000])
        plan = {}
        for q in s:
            if rng.random() < .15:
                plan[q] = ','.join(str(rng.choice([0, 0, 1, 2, 7, 20, 300])) for _ in range(rng.randint(1, 8)))
        ops.append(['data', p, s[p][:n], plan])
        s[p] = s[p][n:]
        if rng.random() < .2:
            q = rng.choice(['s1', 'c1', 'c2'])
            on = q not in stalled
            (stalled.add if on else stalled.discard)(q)
            ops.append(['stall', q, on])
    for q in sorted(stalled):
        ops.append(['stall', q, False])
    return {'ops': ops}

def random_line(rng):
    n = rng.choice([0, 1, 2, 5, 10, 30, 100, 600])
    return ''.join(rng.choice(': ::  ab\r\xe9,!@#') if rng.random() < .8 else rng.choice(TEXT) for _ in range(n))
