"""Histories of identifications to NickServ (events of ServicesTrace.tla)."""
import os, mux
from mux import *

class ServicesRun(MuxRun):
    def __init__(self, w, sc):
        self.again = set()
        sc = dict(sc)
        sc['glob'] = {'learn-nickserv': 'true' if sc['learn'] else 'false', 'autosave': 'true'}
        self.files = {'nickserv': sc['file']} if sc.get('file') is not None else None
        g = mux.start
        def st(w, glob, nets):
            d = w.new()
            w.partial = []
            self.dir = d
            write_config(d, dict(GLOBAL, **glob), nets, {}, self.files)
            return w.op('init', d)
        mux.start = st
        try:
            super().__init__(w, sc, 'P15')
        finally:
            mux.start = g
        self.ev[0]['learn'] = bool(sc['learn'])
        self.ev[0]['keys'] = [[esc(x) for x in k] for k in sc['keys']]
    def keys(self):
        return [[esc(k[0] or '*'), esc(k[1]), esc(k[2])] for k in self.w.op('nickserv')['entries']]
    def do(self, op):
        if op[0] in ('srv', 'cli'):
            for x in op[2]:
                self.one([op[0], op[1], [x]])
        elif op[0] == 'save':
            self.w.op('save')
            self.ev.append({'e': 'save', 'again': False, 'out': [], 'keys': self.keys()})
        elif op[0] == 'restart':
            self.w.op('quit')
            self.clients, self.sname = {}, {}
            r = self.w.op('init', self.dir)
            self.ev.append({'e': 'restart', 'again': False, 'out': [], 'keys': self.keys()})
            self.again |= set(self.names)
            self.accepted(r)
        else:
            self.one(op)
    def one(self, op):
        n = len(self.ev)
        super().do(op)
        for e in self.ev[n:]:
            if e['e'] == 'lost':
                self.again.add(e['net'])
            e['again'] = e['e'] == 'srv' and e['net'] in self.again
        if len(self.ev) > n:
            self.ev[-1]['keys'] = self.keys()

def execute(w, sc):
    m = ServicesRun(w, sc)
    for op in sc['ops']:
        m.do(op)
    w.end()
    return m.ev

NICKS = ['me', 'you', 'Al', 'me[x]', 'me{x}', 'zed']
PASSES = ['p1', 'secret', 'p', 'a b', 'longer-password-than-the-others', 'S\xe9cret', 'x' * 40, '*', '#hash', ':colon']
def scenario(rng):
    nets = ['netA', 'netB'][:rng.choice([1, 2, 2])]
    keys, f = [], None
    if rng.random() < .7:
        f = '# comment\n' if rng.random() < .7 else ''
        for _ in range(rng.randint(0, 5)):
            n = rng.choice(['*', '*', 'netA', 'NETA', 'netB', 'other'])
            k, p = rng.choice(NICKS), rng.choice(PASSES)
            if f and rng.random() < .1:
                f += 'justanick\n'
            if n == '*' and rng.random() < .3:
                f += '%s\t%s\n' % (k, p)
            else:
                f += '%s\t%s\t%s\n' % (k, p, n)
            keys.append([n, k, p])
        if rng.random() < .15 and f.endswith('\n'):
            f = f[:-1]
    me = {n: rng.choice(['me', 'me', 'Al', 'me[x]']) for n in nets}
    sc = {'nets': nets, 'learn': rng.random() < .85, 'file': f, 'keys': keys, 'nick': dict(me)}
    cm = {n: rng.choice([None, None, 'ascii', 'rfc1459', 'strict-rfc1459']) for n in nets}
    if rng.random() < .2:
        sc['autocmd'] = {nets[0]: [rng.choice(['PRIVMSG NickServ :IDENTIFY auto', 'NS IDENTIFY auto', 'MODE me +i'])]}
    ops = []
    up = {}
    def login(n):
        if rng.random() < .1:
            ops.append(['srv', n, [':irc.%s 433 * %s :in use' % (n, me[n])]])
            me[n] += '_'
        ops.append(['srv', n, [':irc.%s 001 %s :Welcome' % (n, me[n])]])
        if cm[n]:
            ops.append(['srv', n, [':irc.%s 005 %s CASEMAPPING=%s :are supported' % (n, me[n], cm[n])]])
        if rng.random() < .1:
            ops.append(['srv', n, [':%s MODE %s +R' % (me[n], me[n])]])
        ops.append(['srv', n, [':irc.%s %s %s :End' % (n, rng.choice(['376', '376', '422']), me[n])]])
        up[n] = True
    for n in nets:
        login(n)
    cl, k = {}, 0
    def attach():
        nonlocal k
        k += 1
        n = rng.choice(nets)
        cl['c%d' % k] = n
        ops.append(['attach', 'c%d' % k, n, rng.choice([me[n]] * 3 + ['you', 'zed']), 'u1'])
    attach()
    def case(x):
        return rng.choice([x, x, x, x.upper(), x.lower()])
    for _ in range(rng.randint(8, 40)):
        x = rng.random()
        n = rng.choice(nets)
        if x < .3 and cl:
            c = rng.choice(list(cl))
            p = rng.choice(PASSES + ['pw%d' % rng.randint(0, 99)] * 3)
            y = rng.random()
            if y < .5:
                l = '%s %s :%s %s' % (case('PRIVMSG'), case('NickServ'), case('IDENTIFY'), p)
            elif y < .6:
                l = 'NS %s %s' % (case('IDENTIFY'), ':' + p)
            else:
                l = rng.choice(['PRIVMSG al :IDENTIFY %s', 'PRIVMSG NickServ :REGISTER %s x@y', 'PRIVMSG NickServ %s', 'NOTICE NickServ :IDENTIFY %s', 'NS :IDENTIFY %s', 'PRIVMSG NickServ2 :IDENTIFY %s', 'NS GHOST :%s', 'PRIVMSG NickServ :IDENTIFY%s', 'MSG NickServ IDENTIFY :%s']) % p
                if l.startswith('PRIVMSG NickServ ') and ':' not in l[:18] and ' ' in p:
                    l = 'PRIVMSG NickServ :x'
            ops.append(['cli', c, [l]])
        elif x < .55:
            new = rng.choice(NICKS)
            o = rng.choice([me[n], me[n], me[n].upper() if 'x' not in me[n] else me[n], 'bob'])
            if rng.random() < .5 and cl:
                cs = [c for c in cl if cl[c] == n]
                if cs:
                    ops.append(['cli', rng.choice(cs), ['NICK %s' % new]])
            if o == 'bob' and new == me[n]:
                continue
            ops.append(['srv', n, [':%s%s NICK %s%s' % (o, rng.choice(['!u@h', '!u@h', '']), rng.choice([':', '']), new)]])
            if o != 'bob':
                me[n] = new
        elif x < .63:
            ops.append(['srv', n, [':%s MODE %s %sR' % (me[n], me[n], rng.choice('+--'))]])
        elif x < .68:
            ops.append(['srv', n, [rng.choice([':irc.x 433 %s you :in use' % me[n], ':NickServ!s@s NOTICE %s :please identify' % me[n], ':irc.x 376 %s :End' % me[n], 'NICK you', ':bob!u@h NICK'])]])
        elif x < .76:
            attach()
        elif x < .82 and cl:
            c = rng.choice(list(cl))
            del cl[c]
            ops.append(['detach', c])
        elif x < .88:
            ops += [['lost', n], ['idle', 61]]
            me[n] = None
            ops.append(['relogin', n])
        elif x < .94:
            ops.append(['save'])
        else:
            ops.append(['restart'])
            cl.clear()
            for m in nets:
                ops.append(['relogin', m])
                me[m] = None
        for m in nets:
            if me[m] is None:
                # the nick it will log in with is the one it last had or the configured one: ask for it by its own
                me[m] = rng.choice(['me', 'you', 'Al'])
                ops.remove(['relogin', m])
                login(m)
    sc['ops'] = ops
    return sc
