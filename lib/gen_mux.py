"""Random interleavings of several clients, several networks and what servers say."""
import json, os, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def table():
    t = open(os.path.join(VERIF, 'spec', 'Queries.tla')).read()
    q = {}
    for m in re.finditer(r'c = "(\w+)" -> \[more \|-> \{([\d, ]*)\}, final \|-> \{([\d, ]*)\}, err \|-> \{([\d, ]*)\}\]', t):
        q[m.group(1)] = tuple([int(x) for x in g.split(',') if x.strip()] for g in m.groups()[1:])
    return q
Q = table()
SAFE = [c for c in Q if c not in ('QUIT', 'USER', 'PASS', 'PING', 'PONG', 'PRIVMSG', 'NOTICE')]
COMMON = ['WHOIS', 'WHO', 'NAMES', 'LIST', 'TOPIC', 'WHOWAS', 'MODE', 'JOIN', 'AWAY', 'ISON', 'USERHOST', 'STATS', 'MOTD', 'INVITE', 'KICK', 'NICK']
ALLNUM = sorted({n for q in Q.values() for l in q for n in l} | {1, 3, 5, 6, 42, 105, 251, 252, 254, 255, 265, 266, 305, 306, 329, 333, 396, 477, 499, 555, 600, 671, 900, 901, 999})
OTHERS = ['al', 'bo', 'Cy[x]', 'dee']
CHANS = ['#a', '#b', '&c']
MINE = ['#j', '&k']          # joined; never asked about, so that no question is answered out of the cache (P11)
TEXTS = ['hello', 'hello there  two', ':smile', '', ' lead', 'a:b', 'x' * 60, '+o', '#a,#b']
CT = ['VERSION', 'PING 123 456', 'TIME', 'FINGER', 'CLIENTINFO', 'SOURCE', 'version', 'XDCC LIST', 'DCC CHAT chat 1 2', 'ACTION', 'PING', '']

class Gen:
    def __init__(self, rng, focus, others=None, chans=None, mine=None):
        self.r, self.focus = rng, focus
        self.others, self.chans_ = others or OTHERS, chans or CHANS
        self.mine = mine or ['me', 'you', 'me2', 'ME']
        k = rng.choice([1, 1, 2, 3])
        self.nets = ['netA', 'netB', 'netC'][:k]
        self.me = {n: 'me' for n in self.nets}
        self.mehost = {n: 'user@proxy.host' for n in self.nets}
        self.up = {n: False for n in self.nets}
        self.q = {n: [] for n in self.nets}
        self.cl = {}
        self.nc = 0
        self.ops = []
    def srv(self, n, *ls):
        self.ops.append(['srv', n, list(ls)])
    def ome(self, n):
        x = self.r.random()
        return self.me[n] + ('!' + self.mehost[n] if x < .8 else '')
    def oth(self):
        o = self.r.choice(self.others)
        return o + self.r.choice(['!u@h', '!~x@y.z', '', '!u@h'])
    def target(self, n):
        return self.r.choice([self.me[n]] + self.others + self.chans_)
    def q_line(self, cmd, n):
        r = self.r
        a = {'TOPIC': ['#a', '#a', '#b :new topic', ''], 'MODE': ['#a', '#a b', 'me', '#a +o al'], 'WHO': ['#a', 'al', '*'], 'NICK': [r.choice(['me', 'you', 'me_'])],
             'INVITE': ['al #a'], 'KICK': ['#a al :bye']}.get(cmd)
        if a:
            x = r.choice(a)
        else:
            x = r.choice(['', 'al', 'al', '#a', 'al bo', self.me[n], '#a :last arg'])
        return (cmd + ' ' + x).strip()
    def num(self, n, k, rest=None):
        r = self.r
        m = self.me[n]
        if rest is None:
            rest = {302: ':%s' % ' '.join(r.choice(['%s=+%s' % (m, self.mehost[n]), 'al=-u@h', '%s*=+a@b' % m.upper(), 'bo=', 'x']) for _ in range(r.randint(0, 3))),
                    352: '#a %s %s srv %s H :0 Real' % tuple(r.choice([self.mehost[n].split('@') + [m], ['u', 'h', 'al'], ['q', 'r', m.upper()]])),
                    311: '%s %s %s * :Real' % tuple(r.choice([[m] + self.mehost[n].split('@'), ['al', 'u', 'h']])),
                    314: '%s %s %s * :Real' % tuple(r.choice([[m] + self.mehost[n].split('@'), ['al', 'u', 'h']])),
                    353: '= #a :@%s al' % m, 324: '#a +nt', 367: '#a *!*@x al', 1: ':Welcome'}.get(k)
            if rest is None:
                rest = r.choice(['al :text', ':text only', '#a al :more text', '', 'x', self.me[n] + ' u h * :R'])
            elif r.random() < .1:
                rest = ' '.join(rest.split(' ')[:r.randint(0, 3)])
        return ':irc.%s %03d %s %s' % (n, k, m, rest)
    def login(self, n):
        ls = [':irc.%s 001 %s :Welcome' % (n, self.me[n])]
        if self.r.random() < (.8 if self.mine[4:] else .3):
            ls.append(':irc.%s 005 %s CASEMAPPING=%s NICKLEN=30 :are supported' % (n, self.me[n], self.r.choice(['ascii', 'rfc1459', 'strict-rfc1459'])))
        ls += [':irc.%s 376 %s :End' % (n, self.me[n])]
        for l in ls:
            self.srv(n, l)
        self.up[n] = True
        if self.r.random() < .5:
            self.mehost[n] = self.r.choice(['user@real.host', '~user@real.host'])
            self.srv(n, ':irc.%s 302 %s :%s=+%s' % (n, self.me[n], self.me[n], self.mehost[n]))
    def attach(self):
        self.nc += 1
        c = 'c%d' % self.nc
        n = self.r.choice(self.nets)
        self.cl[c] = n
        self.ops.append(['attach', c, n, self.r.choice([self.me[n]] * 4 + ['other', 'me', 'zed'] + self.mine[4:]), self.r.choice(['u1', 'u2', 'user'])])
    def detach(self):
        if self.cl:
            c = self.r.choice(list(self.cl))
            del self.cl[c]
            self.ops.append(['detach', c] if self.r.random() < .5 else ['cli', c, [self.r.choice(['QUIT', 'QUIT :bye', 'quit'])]])
    def anycl(self):
        return self.r.choice(list(self.cl)) if self.cl else None
    # --- a reply to one of the outstanding queries, or any numeric
    def reply(self, n):
        r = self.r
        if self.q[n] and r.random() < .8:
            k = 0 if r.random() < .7 else r.randrange(len(self.q[n]))
            cmd = self.q[n][k]
            more, fin, err = Q.get(cmd, ([], [263], [421]))
            x = r.random()
            if x < .5 and more:
                self.srv(n, *[self.num(n, r.choice(more)) for _ in range(r.randint(1, 2))])
                return
            pool = [z for z in fin if z != 263] if x < .8 else err + [263]
            if not pool:
                pool = fin + err
            if pool:
                z = r.choice(pool)
                if z not in (1, 2, 4):
                    self.srv(n, self.num(n, z))
                self.q[n].pop(k)
                return
            self.q[n].pop(k)
        self.srv(n, self.num(n, r.choice(ALLNUM)))
    def query(self):
        c = self.anycl()
        if c is None:
            return
        n = self.cl[c]
        cmd = self.r.choice(COMMON) if self.r.random() < .7 else self.r.choice(SAFE + ['FROB', 'whois', 'Who'])
        ls = [self.q_line(cmd, n)]
        self.ops.append(['cli', c, ls])
        if self.up[n] and not (cmd == 'TOPIC' and 'new' in ls[0]):
            self.q[n].append(cmd.upper())
    def talk_srv(self, n):
        r = self.r
        m = self.me[n]
        def one():
            x = r.random()
            if x < .45:
                return ':%s %s %s :%s' % (self.oth(), r.choice(['PRIVMSG', 'NOTICE']), self.target(n), r.choice(TEXTS))
            if x < .55:
                return ':%s PRIVMSG %s :\x01ACTION %s\x01' % (self.oth(), self.target(n), r.choice(['waves', 'x y']))
            if x < .65:
                return ':%s %s #a :%s' % (self.ome(n), r.choice(['PRIVMSG', 'TOPIC', 'PART']), r.choice(TEXTS)) if r.random() < .5 else ':%s JOIN %s' % (self.ome(n), r.choice(MINE))
            if x < .9:
                return ':%s %s' % (self.oth(), r.choice(['JOIN #a', 'PART #a :x', 'QUIT :gone', 'KICK #a bo :x', 'MODE #a +v al', 'TOPIC #a :t', 'INVITE %s #z' % m, 'WALLOPS :hey', 'KNOCK #a', 'MODE #a']))
            return r.choice(['NOTICE AUTH :*** x', ':irc.x WALLOPS :x y', 'ERROR :Closing link', ':irc.x FROB', 'NOTICE %s :plain' % m, ':al!u@h PRIVMSG', ':al!u@h PRIVMSG me', ':irc.x KILL al :x'])
        self.srv(n, *[one() for _ in range(r.choice([1, 1, 1, 2, 3]))])
    def talk_cli(self):
        c = self.anycl()
        if c is None:
            return
        r, n = self.r, self.cl[c]
        def one():
            x = r.random()
            o = r.choice(['', '', '', ':me!a@b ', ':zed '])
            if x < .7:
                return '%s%s %s :%s' % (o, r.choice(['PRIVMSG', 'NOTICE']), r.choice(self.others + self.chans_ + [self.me[n], 'al,bo']), r.choice(TEXTS))
            if x < .8:
                return '%sPRIVMSG %s :\x01ACTION %s\x01' % (o, self.target(n), r.choice(['waves', 'x y']))
            if x < .9:
                return o + r.choice(['PRIVMSG al', 'PRIVMSG', 'NOTICE', 'privmsg al :x', 'PRIVMSG al word', 'NOTICE #a :a b'])
            return o + r.choice(['JOIN #a', 'PART #a :bye', 'AWAY :x', 'AWAY', 'INVITE al #a', 'SILENCE +x', 'JOIN #a key', 'MODE #a +b x!*@*'])
        ls = [one() for _ in range(r.choice([1, 1, 1, 2, 3]))]
        self.ops.append(['cli', c, ls])
        if self.up[n]:
            for l in ls:
                w = l.split(' ')
                self.q[n].append((w[1] if l[0] == ':' else w[0]).upper())
    def ctcp_srv(self, n):
        r = self.r
        t = '\x01' + r.choice(CT) + r.choice(['\x01'] * 6 + ['', ' x\x01', '\x01 y\x01'])
        self.srv(n, '%s%s %s :%s' % (':' + self.oth() + ' ' if r.random() < .95 else '', r.choice(['PRIVMSG', 'PRIVMSG', 'PRIVMSG', 'NOTICE']), self.target(n), t))
    def ctcp_cli(self):
        c = self.anycl()
        if c is None:
            return
        t = '\x01' + self.r.choice(CT) + self.r.choice(['\x01'] * 6 + [''])
        cmd = self.r.choice(['PRIVMSG', 'NOTICE'])
        self.ops.append(['cli', c, ['%s %s :%s' % (cmd, self.target(self.cl[c]), t)]])
        if self.up[self.cl[c]]:
            self.q[self.cl[c]].append(cmd)
    def nick(self, n):
        new = self.r.choice(self.mine)
        if new == self.me[n]:
            return
        self.srv(n, ':%s NICK %s%s' % (self.ome(n), self.r.choice(['', ':']), new))
        self.me[n] = new
    def ping_srv(self, n):
        self.srv(n, self.r.choice(['PING tok1', 'PING :a b', ':irc PING x', 'PING', ':irc PONG irc x', 'PING ::c', 'ping low', 'PING a b', 'PONG']))
    def ping_cli(self):
        c = self.anycl()
        if c:
            self.ops.append(['cli', c, [self.r.choice(['PING t1', 'PING :a b', 'PING', 'PONG x', 'PONG', 'ping z', 'PONG :a b', 'PING a b'])]])
    def lose(self, n):
        self.ops.append(['lost', n])
        self.up[n] = False
        self.q[n] = []
        if self.r.random() < .5 and self.cl:
            self.talk_cli()
        self.ops.append(['idle', 61])
        if self.r.random() < .3 and self.cl:
            self.talk_cli()
        if self.r.random() < .3:
            self.srv(n, self.r.choice([':al!u@h PRIVMSG me :early', ':irc.x NOTICE * :x', 'PING early']))
        self.login(n)

    def run(self, steps, weights=None):
        r = self.r
        for n in self.nets:
            if r.random() < .3:
                self.attach()
            self.login(n)
        for _ in range(r.randint(1, 3)):
            self.attach()
        wt = {'P03': dict(query=6, reply=10, talk_srv=1, talk_cli=1, nick=.3), 'P04': dict(query=1, reply=1, talk_srv=8, talk_cli=8, nick=.5, ctcp_srv=.5),
              'P14': dict(talk_srv=1, talk_cli=1, ctcp_srv=10, ctcp_cli=6, attach=1, detach=1.5), 'P13': dict(ping_srv=6, ping_cli=6, talk_srv=1, query=1, reply=1),
              'P20': dict(query=4, reply=6, talk_srv=6, talk_cli=4, nick=3, ctcp_srv=.5)}
        wt = (weights or wt)[self.focus]
        wt = dict({'attach': .6, 'detach': .5, 'lose': .12}, **wt)
        ks, vs = list(wt), list(wt.values())
        while len(self.ops) < steps:
            k = r.choices(ks, vs)[0]
            f = getattr(self, k)
            if k in ('attach', 'detach', 'query', 'talk_cli', 'ctcp_cli', 'ping_cli'):
                f()
            else:
                f(r.choice(self.nets))
        sc = {'nets': self.nets, 'report': r.random() < (.5 if self.focus in ('P04', 'P20') else .1), 'ops': self.ops}
        if sc['report'] and r.random() < .3:
            sc['offset'] = r.choice([3600, -3600, 86399, 7265])
        return sc

def scenario(rng, focus, **kw):
    return Gen(rng, focus, **kw).run(rng.randint(15, 70))
