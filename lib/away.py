"""Auto-away (events of AwayTrace.tla)."""
from drive import *
from mux import raw_out

NETS = ['netA', 'netB']
PORT = {'netA': 6000, 'netB': 6001}

class AwayRun:
    def __init__(self, w, sc):
        self.w, self.sc = w, sc
        self.srv = {}                 # network -> its server connection
        self.up = set()
        self.cl = {}
        self.nth = 0
        g = {'auto-away-enable': 'true', 'autoconnect': ''.join(n + ';' for n in NETS), 'create-implicit': 'false',
             'auto-away-client-limit': None if sc['limit'] is None else str(sc['limit']),
             'auto-away-time': None if sc['idle'] is None else str(sc['idle']),
             'auto-away-message': sc.get('msg'), 'auto-away-nick': sc.get('nick')}
        w.partial = []
        r = start(w, {k: v for k, v in g.items() if v is not None},
                  {n: {'': net(servers='srv%s:%d;' % (n, PORT[n]), reconnect_interval=5)} for n in NETS})
        self.ev = w.partial = [{'e': 'reset', 'nets': NETS, 'limit': -1 if sc['limit'] is None else sc['limit'], 'idle': 600 if sc['idle'] is None else sc['idle'],
                                'msg': esc(sc.get('msg') or ''), 'nick': sc.get('nick') or '', 'now': EPOCH}]
        self.note(r)

    def note(self, r):
        for x in r.get('ev') or []:
            if 'acc' in x:
                n = [n for n in NETS if PORT[n] == x['port']][0]
                self.srv[n] = x['acc']
            elif 'closed' in x:
                for n in NETS:
                    if self.srv.get(n) == x['closed']:
                        del self.srv[n]

    def out(self, r, who):
        o = {n: [] for n in NETS}
        for p, xs in raw_out(r).items():
            n = who.get(p)
            if n:
                for x in xs:
                    l = parse(x)
                    if l[1] == 'AWAY' or (l[1] == 'NICK' and l[2] == self.sc.get('nick')):
                        o[n].append(l[1:])
        return o

    def add(self, r, **e):
        who = {p: n for n, p in self.srv.items()}
        self.note(r)
        who.update({p: n for n, p in self.srv.items()})
        e['out'] = self.out(r, who)
        self.ev.append(e)

    def do(self, op):
        w, k = self.w, op[0]
        if k == 'tick':
            n = op[1]
            while n > 0:                 # (the servers show signs of life meanwhile)
                m = min(n, 45)
                self.add(w.op('tick', m), e='tick', n=m)
                for x in sorted(self.srv):
                    self.note(w.op('send', self.srv[x], ':irc PONG irc :ctrlproxy\r\n'))
                n -= m
        elif k == 'up':
            if op[1] not in self.srv:
                self.do(['tick', 5])
            if op[1] in self.srv and op[1] not in self.up:
                self.up.add(op[1])
                self.add(w.op('send', self.srv[op[1]], ':irc.a 001 me :Welcome\r\n:irc.a 376 me :End\r\n'), e='up', net=op[1])
        elif k == 'lost':
            if op[1] in self.up:
                self.up.discard(op[1])
                s = self.srv.pop(op[1])
                self.add(w.op('close', s), e='lost', net=op[1])
        elif k == 'is':
            if op[1] in self.up:
                self.add(w.op('send', self.srv[op[1]], ':irc.a %s\r\n' % ('306 me :You have been marked as being away' if op[2] else '305 me :You are no longer marked as being away')),
                         e='is', net=op[1], away=bool(op[2]))
        elif k == 'ctcp':
            if op[1] in self.up:
                self.add(w.op('send', self.srv[op[1]], ':al!a@b PRIVMSG me :%s\r\n' % (op[2] if len(op) > 2 else '\001VERSION\001')), e='ctcp', net=op[1])
        elif k == 'attach':
            c, n = op[1], op[2]
            if c not in self.cl:
                self.nth += 1
                p = '%s.%d' % (c, self.nth)
                self.cl[c] = (p, n)
                w.op('cconn', p, 5000)
                self.add(w.op('send', p, 'PASS pw:%s\r\nNICK me\r\nUSER u a b :Real\r\n' % n), e='attach', c=c, net=n)
        elif k == 'detach':
            if op[1] in self.cl:
                p, n = self.cl.pop(op[1])
                self.add(w.op('send', p, 'QUIT :bye\r\n') if op[2:] == [True] else w.op('close', p), e='detach', c=op[1], net=n)
        elif k == 'cli':
            if op[1] in self.cl:
                p, n = self.cl[op[1]]
                l = parse(op[2])
                l[1] = l[1].upper()
                r = w.op('send', p, op[2] + '\r\n')
                # whether it was said to the server at all
                said = any(parse(x)[1].upper() == l[1] for q, xs in raw_out(r).items() if q == self.srv.get(n) for x in xs)
                self.add(r, e='cli', c=op[1], net=n, line=l, said=said)

def execute(w, sc):
    m = AwayRun(w, sc)
    for op in sc['ops']:
        m.do(op)
    w.end()
    return m.ev

def behaviour(h):
    ops = []
    for op in h[1:]:
        if op[0] == 'say':
            ops.append(['cli', op[1], 'PRIVMSG #x :hi'])
        elif op[0] in ('away', 'back'):
            ops.append(['cli', op[1], 'AWAY :lunch' if op[0] == 'away' else 'AWAY'])
        else:
            ops.append(op)
    return {'limit': h[0][1], 'idle': 30, 'msg': None, 'nick': 'away', 'ops': ops}

def scenario(r):
    idle = r.choice([30, 30, 31, 40, 60, 60, 29, 0, None])
    sc = {'limit': r.choice([None, -1, 0, 0, 0, 1, 1, 2, 3]), 'idle': idle, 'msg': r.choice([None, 'gone', 'out to lunch', ':odd']), 'nick': r.choice([None, None, 'me|away'])}
    t = 600 if idle is None else idle
    ops = [['up', n] for n in NETS if r.random() < .9]
    for _ in range(r.randint(5, 60)):
        k = r.random()
        c = 'c%d' % r.randint(1, 4)
        n = r.choice(NETS)
        if k < .2:
            ops.append(['attach', c, n])
        elif k < .35:
            ops.append(['detach', c, r.random() < .5])
        elif k < .5:
            ops.append(['cli', c, r.choice(['PRIVMSG #x :hi', 'PRIVMSG bob :yo', 'NOTICE bob :n', 'PRIVMSG bob :\001VERSION\001', 'PRIVMSG #x :\001ACTION waves\001', 'JOIN #x', 'AWAY :lunch break', 'AWAY', 'AWAY x', 'PING 1', 'WHO x', 'MODE me +i', 'privmsg #x :low'])])
        elif k < .75:
            ops.append(['tick', r.choice([1, 2, 5, max(1, t - 1), t, t + 1, t + 2, 3 * t + 1]) or 1])
        elif k < .9:
            ops.append(['is', n, r.random() < .6])
        elif k < .93:
            ops.append(['lost', n])
        elif k < .96:
            ops.append(['up', n])
        else:
            ops.append(['ctcp', n, r.choice(['\001VERSION\001', '\001PING 1\001', 'hello'])])
    sc['ops'] = ops
    return sc
