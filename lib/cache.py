"""Questions that the proxy may answer itself (events of CacheTrace.tla)."""
import mux
from drive import *
from gen_server import Sim, NAMES, WEIGHTS

class CacheRun(mux.MuxRun):
    def __init__(self, w, sc):
        sc = dict(sc, glob=dict(sc.get('glob', {}), **{'max-who-age': str(sc['age'])}))
        super().__init__(w, sc, 'P11')
        self.ev[0]['age'] = sc['age']
    def out(self, r, drop_ping=False):
        self.longest = max([len(x) for ls in mux.raw_out(r).values() for x in ls] or [0])
        return super().out(r, drop_ping)
    def do(self, op):
        n = len(self.ev)
        super().do(op)
        for e in self.ev[n:]:
            e['longest'] = self.longest if 'out' in e else 0
            if e['e'] == 'cli':
                served = any(p == c for p, _ in e['out'] for c in self.clients)
                e['k'] = 'cli %s %s' % (e['lines'][0][1].upper()[:8], 'answered' if served else 'forwarded')

def execute(w, sc):
    m = CacheRun(w, sc)
    for op in sc['ops']:
        m.do(op)
    w.end()
    return m.ev

QUESTIONS = ['NAMES #c', 'TOPIC #c', 'MODE #c', 'MODE #c b', 'WHO #c']
def behaviour(rng):
    """A behaviour of CacheMC; after every line everything is asked."""
    def conv(h):
        ops = mux.login('netA') + [['attach', 'c1', 'netA', 'me', 'c1'], ['attach', 'c2', 'netA', 'me', 'c2']]
        for op in h:
            if op[0] == 'ask':
                ops.append(['cli', 'c1', [unparse(op[1])]])
            ops.append(['srv', 'netA', [unparse(op[-1])]])
            ops += [['cli', 'c2', [q]] for q in rng.sample(QUESTIONS, len(QUESTIONS))]
            ops.append(['idle', 60])
        return {'nets': ['netA'], 'age': 300, 'ops': ops}
    return conv

class CacheGen:
    def __init__(self, rng, big=False):
        self.r = rng
        nicks = None
        if big:
            nicks = ['%s%02d' % (rng.choice(['n', 'nick', 'averylongnicknameindeed', 'x[y]z']), i) for i in range(80)]
        self.sim = Sim(rng, nicks=nicks, odd=rng.choice([0, .2]))
        self.big = big
        self.ops = mux.login('netA')
        self.done = 0
        self.cl = []
        self.odd = rng.random() < .3
    def flush(self):
        o = self.sim.out
        while self.done < len(o):
            self.ops.append(['srv', 'netA', [o[self.done]]])
            self.done += 1
            if self.r.random() < .12:
                self.ask()
            if self.r.random() < .05:
                self.ops.append(['idle', self.r.choice([1, 30, 99, 100, 101])])
    def attach(self):
        c = 'c%d' % (len([x for x in self.ops if x[0] == 'attach']) + 1)
        self.ops.append(['attach', c, 'netA', self.r.choice([self.sim.me, self.sim.me, 'other']), 'u' + c])
        self.cl.append(c)
    def ask(self):
        if not self.cl:
            return
        r = self.r
        c = self.sim.case(self.sim.chan())
        q = r.choice(['NAMES', 'TOPIC', 'MODE', 'WHO', 'MODEB'] * 6 + ['odd'])
        if q == 'MODEB':
            l = 'MODE %s b' % c
        elif q == 'odd':
            l = r.choice(['NAMES', 'TOPIC', 'MODE', 'WHO', 'MODE %s', 'NAMES #a,&loc', 'WHO #a,#c', 'TOPIC #a,#c', 'WHO *', 'WHO %s' % r.choice(self.sim.nicks), 'WHO ' + c + ' o',
                          'NAMES ' + c + ' irc.a', 'MODE ' + c + ' +b', 'MODE ' + c + ' bb', 'MODE ' + c + ' bq', 'MODE ' + c + ' e', 'MODE ' + c + ' I', 'MODE ' + c + ' :',
                          'MODE ' + c + ' +o alice', 'MODE ' + c + ' b x!*@*', 'MODE ' + c + ' -b', 'TOPIC ' + c + ' :new topic', 'TOPIC ' + c + ' :', 'MODE me', 'MODE me +i', 'NAMES *', 'NAMES :', 'WHO 0'])
            l = l.replace('%s', 'me')
        else:
            l = '%s %s%s' % (q, r.choice(['', '', ':']), c)
        if r.random() < .15:
            l = r.choice([l.lower(), l.capitalize()]) if ' ' not in l or l.split(' ')[1] == c else l.split(' ', 1)[0].lower() + ' ' + l.split(' ', 1)[1]
        self.ops.append(['cli', r.choice(self.cl), [l]])
    def who(self):
        """A WHO reply about everyone, or some."""
        s, r = self.sim, self.r
        c = s.on()
        if not c:
            return
        ms = list(s.chans[c])
        part = r.random()
        if part < .2:
            ms = r.sample(ms, r.randint(0, len(ms)))
        for n in ms:
            m = s.chans[c][n]
            s.srv(352, '%s %s %s irc.%s %s %s%s :%d %s' % (s.case(c), r.choice(['~w', 'u2']), r.choice(['who.host', 'h2']), r.choice('ab'), s.case(n), r.choice('HG'),
                                                    '@' if 'o' in m else '', r.randint(0, 3), r.choice(['Real ' + n, 'R', 'A b c'])))
            if part > .9:
                self.flush()
        s.srv(315, '%s :End of WHO' % c)
    def lists(self):
        c = self.sim.on()
        if c:
            for i in range(self.r.choice([0, 0, 1, 2, 5])):
                self.sim.srv(367, '%s *!*@ban%d%s' % (self.sim.case(c), i, self.r.choice(['', ' alice!u@h 12345%d' % i, ' bob'])))
            self.sim.srv(368, '%s :End' % self.sim.case(c))
    def modes(self):
        c = self.sim.on()
        if c:
            self.sim.s_324(c)
    def secret(self):
        c = self.sim.on()
        if c:
            self.sim.srv(324, '%s %s' % (c, self.r.choice(['+', '+k', '+lk 5', '+kl 5', '+n', '+nl 5', '+lkn 5 sesame'])))
    def run(self, n):
        r, s = self.r, self.sim
        if r.random() < .7:
            s.s_005()
        own = [self.who, self.lists, self.modes, self.secret]
        while len(self.ops) < n:
            if (not s.chans or len(s.chans) < 2) and r.random() < .4:
                s.s_join_me()
                if self.big and s.chans:
                    c = list(s.chans)[-1]
                    for x in s.nicks[:r.randint(0, 80)]:
                        s.chans[c][x] = r.choice(['', '', 'o'])
                    s.names(c, False)
            else:
                k = r.random()
                if k < .35:
                    r.choice(own)()
                elif k < .5 or not self.cl:
                    if len(self.cl) < 3:
                        self.attach()
                else:
                    st = r.choices(NAMES, WEIGHTS)[0]
                    if self.odd or st not in ('s_odd', 's_names_unknown', 's_001'):
                        getattr(s, st)()
            self.flush()
            for _ in range(r.choice([0, 1, 2])):
                self.ask()
            if r.random() < .006:
                self.ops += [['lost', 'netA'], ['idle', 61]] + mux.login('netA')
                s.chans = {}
                s.me = 'me'
        return {'nets': ['netA'], 'age': r.choice([0, 100, 100, 300, 5000]), 'ops': self.ops}

def scenario(rng):
    return CacheGen(rng).run(rng.randint(30, 120))
def big_scenario(rng):
    return CacheGen(rng, True).run(rng.randint(30, 60))
