"""Comparisons of names (events of CaseTrace.tla)."""
from drive import *
MAPPINGS = ['ascii', 'rfc1459', 'strict-rfc1459']
ODD = [64, 65, 77, 90, 91, 92, 93, 94, 95, 96, 97, 109, 122, 123, 124, 125, 126, 127, 35, 49, 228, 196]

def execute(w, sc):
    """sc: list of [mapping, a, [[b, n], ...]] with names as lists of bytes"""
    ev = w.partial = []
    start(w)
    w.partial = ev
    ev.append({'e': 'reset'})
    for cm, a, bs in sc:
        args = []
        for b, n in bs:
            args += [bytes(b), n]
        r = w.op('cmpset', cm, bytes(a), *args)['r']
        ev.append({'e': 'cmp', 'cm': cm, 'a': a, 'list': [[b, n, x] for (b, n), x in zip(bs, r)]})
    w.end()
    return ev

def every_byte(cms):
    """every byte against every byte"""
    for cm in cms:
        for a in range(1, 256):
            yield [cm, [a], [[[b], -1] for b in range(1, 256)]]

def pairs(hs):
    by = {}
    for cm, a, b in hs:
        by.setdefault((cm, tuple(a)), []).append(b)
    for (cm, a), bs in sorted(by.items()):
        l = [[b, n] for b in bs for n in [-1] + list(range(0, max(len(a), len(b)) + 2))]
        for i in range(0, len(l), 250):
            yield [cm, list(a), l[i:i + 250]]

def fold(cm, b):
    return b + 32 if 65 <= b <= {'ascii': 90, 'strict-rfc1459': 93}.get(cm, 94) else b

def random_names(rng):
    cm = rng.choice(MAPPINGS + ['', 'rfc3454', 'ASCII', 'Strict-RFC1459'])
    n = rng.choice([0, 1, 2, 3, 5, 9, 9, 30, 200])
    a = [rng.choice(ODD) if rng.random() < .6 else rng.randint(1, 255) for _ in range(n)]
    l = []
    for _ in range(40):
        b = list(a)
        for k in range(len(b)):
            if rng.random() < .5:
                # the other case by some mapping, mostly
                x = rng.random()
                if x < .8:
                    b[k] = b[k] + 32 if 65 <= b[k] <= 94 and rng.random() < .9 else b[k] - 32 if 97 <= b[k] <= 126 else b[k]
                elif x < .83:
                    b[k] = rng.choice(ODD)
        x = rng.random()
        if x < .1:
            b = b[:rng.randint(0, len(b))]
        elif x < .2:
            b = b + [rng.choice(ODD) for _ in range(rng.randint(1, 3))]
        l.append([b, rng.choice([-1, -1, rng.randint(0, n + 3), n, max(0, n - 1)])])
    # "ASCII" and the like are names of mappings whatever their case
    return [cm, a, l]

NICKS = ['a[', 'a{', 'b^', 'b~', 'C\\', 'c|', 'dan']
CHANS = ['#x[', '#x{', '#y^', '#y~', '#z', '&q\\']
