"""Histories with filters and hooks registered (events of FiltersTrace.tla)."""
import mux, gen_mux
from mux import *

class FilterRun(MuxRun):
    def __init__(self, *a):
        self.again = set()
        super().__init__(*a)
    def extras(self, e, r):
        # (what is rejoined after a lost connection is P10's business)
        e['again'] = e['e'] == 'srv' and e['net'] in self.again
        e['inv'], e['asked'], e['lost'], e['closed'] = [], [], [], []
        for x in r.get('ev') or []:
            if 'flt' in x:
                e['inv'].append({'name': x['flt'], 'kind': {'s': 'server', 'l': 'log'}[x['kind']], 'dir': 'to' if x['dir'] == 1 else 'from',
                                 'net': x['net'], 'line': parse(x['line']), 'ok': bool(x['ok'])})
            elif 'hook' in x:
                e['asked'].append({'name': x['hook'], 'ok': bool(x['ok'])})
            elif 'lost' in x:
                e['lost'].append(x['lost'])
            elif 'closed' in x and x['closed'] in self.clients and e['e'] != 'detach':
                if not (e['e'] == 'cli' and e['lines'][0][1].upper() == 'QUIT'):
                    e['closed'].append(x['closed'])
    def do(self, op):
        if op[0] in ('srv', 'cli'):
            for x in op[2]:
                self.one([op[0], op[1], [x]])
        elif op[0] == 'add':
            _, kind, name, prio, veto = op
            if kind in ('server', 'log'):
                self.w.op('addflt', name, kind, prio, *veto)
            else:
                self.w.op('addnch' if kind == 'newc' else 'addlch', name, *veto)
            self.ev.append({'e': 'add', 'kind': kind, 'name': name, 'prio': prio, 'veto': veto})
        elif op[0] == 'del':
            _, kind, name = op
            if kind in ('server', 'log'):
                self.w.op('delflt', name, kind)
            else:
                self.w.op('delnch' if kind == 'newc' else 'dellch', name)
            self.ev.append({'e': 'del', 'kind': kind, 'name': name})
        else:
            self.one(op)
    def one(self, op):
        n = len(self.ev)
        w, self.last = self.w, []
        was = dict(self.clients)
        orig = w.op
        def rec(*a):
            r = orig(*a)
            self.last.append(r)
            return r
        w.op = rec
        try:
            super().do(op)
        finally:
            w.op = orig
        now = self.clients
        self.clients = dict(was)
        if op[0] == 'attach':
            self.clients[op[1]] = op[2]
        for e in self.ev[n:]:
            if e['e'] == 'lost':
                self.again.add(e['net'])
            if e['e'] in ('srv', 'cli', 'attach', 'detach'):
                ev = [x for r in self.last for x in (r.get('ev') or [])]
                self.extras(e, {'ev': ev})
        self.clients = now

def execute(w, sc):
    m = FilterRun(w, sc, 'P17')
    for op in sc['ops']:
        m.do(op)
    w.end()
    return m.ev

KINDS = ['server', 'server', 'server', 'log', 'log', 'newc', 'lose']
WORDS = ['*', 'PRIVMSG', 'NOTICE', '#a', 'al', 'me', 'hello', 'JOIN', 'PART', 'NICK', 'PONG', 'WHOIS', 'x y', 'QUIT', 'bo']
def scenario(rng):
    foc = rng.choice(['P04', 'P04', 'P04', 'P03', 'P13', 'P14'])
    sc = gen_mux.scenario(rng, foc, mine=['me', 'you', 'me2'])
    ops, live, k = [], {x: [] for x in KINDS}, 0
    def add():
        nonlocal k
        k += 1
        kind = rng.choice(KINDS)
        name = 'f%d' % k
        veto = []
        if rng.random() < (.35 if kind != 'log' else .3):
            veto = rng.sample(WORDS[1:], rng.randint(1, 2)) if rng.random() < .85 else ['*']
        if kind == 'newc':
            veto = [rng.choice(['*', 'me', 'zed', 'other', 'you'])] if rng.random() < .3 else []
        if kind == 'lose':
            veto = []
        live[kind].append(name)
        ops.append(['add', kind, name, rng.choice([-1, 0, 1, 2, 100, 500, -200, 1000]), veto])
    def rem():
        c = [(a, b) for a in live for b in live[a]]
        if c:
            kind, name = rng.choice(c)
            live[kind].remove(name)
            ops.append(['del', kind, name])
    for _ in range(rng.randint(0, 5)):
        add()
    for op in sc['ops']:
        x = rng.random()
        if x < .12:
            add()
        elif x < .2:
            rem()
        elif x < .21:
            ops.append(['del', rng.choice(KINDS), 'nosuch'])
        ops.append(op)
    sc['ops'] = ops
    return sc
