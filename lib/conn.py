"""The life cycle of one network's connection (events of ConnTrace.tla)."""
import re
from drive import *
from mux import raw_out
from gen_server import Sim, NAMES, WEIGHTS

class ConnRun:
    def __init__(self, w, sc, chk):
        self.w = w
        self.no = {}                 # recorded name of a server connection -> its number
        self.cur = None              # the connection the server side still has
        self.pending = False
        self.cl = {}
        self.nth = 0
        servers = [(6000 + i, p) for i, p in enumerate(sc['servers'])]
        nc = net(servers=''.join('srv%d:%d;' % (i, p) for i, (p, _) in enumerate(servers)) or None, nick=sc.get('nick', 'me'),
                 username=sc.get('user', 'user'), fullname=sc.get('real', 'Real Name'), password=sc.get('pass') or None,
                 reconnect_interval=sc.get('interval'), autocmd=''.join(x + ';' for x in sc.get('autocmd', [])) or None)
        groups = {'': nc}
        for i, (p, pw) in enumerate(servers):
            if pw:
                groups['srv%d:%d' % (i, p)] = {'password': pw}
        for c in sc.get('chans', []):
            groups[c[0]] = {'autojoin': 'true' if c[2] else 'false'}
            if c[1]:
                groups[c[0]]['key'] = c[1]
        w.partial = []
        r = start(w, {'autoconnect': 'netA;' if sc.get('auto', True) else None, 'default-network': 'netA', 'create-implicit': 'false'}, {'netA': groups},
                  before=[('port', p, m) for p, m in sc.get('ports', [])])
        self.ev = w.partial = [{'e': 'reset', 'chk': chk, 'servers': [{'port': p, 'pass': pw or ''} for p, pw in servers],
                    'interval': sc.get('interval') or 60, 'nick': sc.get('nick', 'me'), 'user': sc.get('user', 'user'), 'real': sc.get('real', 'Real Name'),
                    'host': 'proxy.host', 'pass': sc.get('pass') or '', 'autocmd': [parse(x) for x in sc.get('autocmd', [])],
                    'chans': [{'name': esc(c[0]), 'key': esc(c[1] or ''), 'auto': bool(c[2])} for c in sc.get('chans', [])]}]
        for p, m in sc.get('ports', []):
            self.ev.append(dict(self.none(), e='port', port=p, mode=self.mode(m), now=EPOCH))
        self.add(r, e='start', auto=bool(sc.get('auto', True)))
        w.op('uconn', 'adm', w.cfgdir + '/admin')

    def none(self):
        return {'opened': [], 'closed': [], 'lines': []}
    def mode(self, m):
        return {'refuse': 'no', 'nolookup': 'no'}.get(m, m)

    def add(self, r, **e):
        opened, closed = [], []
        for x in r.get('ev') or []:
            if 'acc' in x:
                self.no[x['acc']] = len(self.no) + 1
                opened.append([x['port'], bool(x['pending'])])
                self.cur, self.pending = x['acc'], bool(x['pending'])
            elif 'closed' in x:
                if x['closed'] in self.no:
                    closed.append(self.no[x['closed']])
                    if self.cur == x['closed']:
                        self.cur = None
                else:
                    self.cl.pop(x['closed'].split('.')[0], None)
        ls = []
        for p, xs in raw_out(r).items():
            if p in self.no:
                ls += [[self.no[p], parse(x)] for x in xs]
        e.update(opened=opened, closed=closed, lines=ls)
        e.setdefault('now', EPOCH + r['t'])
        self.ev.append(e)

    def do(self, op):
        w, k = self.w, op[0]
        if k in ('connect', 'disconnect', 'next', 'del', 'addserver'):
            cmd = {'connect': 'CONNECT netA', 'disconnect': 'DISCONNECT netA', 'next': 'NEXTSERVER netA', 'del': 'DELNETWORK netA'}.get(k)
            e = {'e': k}
            if k == 'addserver':
                e.update(port=op[1], **{'pass': op[2] or ''})
                cmd = 'ADDSERVER netA new%d:%d%s' % (op[1], op[1], ' ' + op[2] if op[2] else '')
            self.add(w.op('send', 'adm', cmd + '\n'), **e)
        elif k == 'port':
            self.add(w.op('port', op[1], op[2]), e='port', port=op[1], mode=self.mode(op[2]))
        elif k == 'tick':
            self.add(w.op('tick', op[1]), e='tick', n=op[1])
        elif k == 'srv':
            if self.cur and not self.pending:
                self.add(w.op('send', self.cur, op[1] + '\r\n'), e='srv', k='srv ' + parse(op[1])[1], line=parse(op[1]))
        elif k == 'finish':
            if self.cur and self.pending:
                s = self.cur
                self.pending = False
                if not op[1]:
                    self.cur = None
                r = w.op('finish', s, 'ok' if op[1] else 'fail')
                r.setdefault('ev', []) if r.get('ev') else None
                if not op[1]:
                    r['ev'] = [{'closed': s}] + (r.get('ev') or [])
                self.add(r, e='finish', ok=bool(op[1]))
        elif k == 'close':
            if self.cur and not self.pending:
                s, self.cur = self.cur, None
                r = w.op('close', s)
                r['ev'] = [{'closed': s}] + (r.get('ev') or [])
                self.add(r, e='close')
        elif k == 'attach':
            c = op[1]
            if c in self.cl:
                return
            self.nth += 1
            p = self.cl[c] = '%s.%d' % (c, self.nth)
            w.op('cconn', p, 5000)
            r = w.op('send', p, 'PASS pw:netA\r\nNICK %s\r\nUSER %s a b :Real\r\n' % (op[2], c))
            ok = any(x.split(' ')[1:2] == ['001'] for x in raw_out(r).get(p, []))
            self.add(r, e='attach', c=c, nick=op[2], welcomed=ok)
        elif k == 'detach':
            if op[1] in self.cl:
                self.add(w.op('close', self.cl.pop(op[1])), e='detach', c=op[1])
        elif k == 'cli':
            if op[1] in self.cl:
                self.add(w.op('send', self.cl[op[1]], op[2] + '\r\n'), e='cli', c=op[1], line=parse(op[2]))

def runner(chk):
    def execute(w, sc):
        m = ConnRun(w, sc, chk)
        for op in sc['ops']:
            m.do(op)
        w.end()
        return m.ev
    return execute

class Gen:
    def __init__(self, rng, chk):
        r = self.r = rng
        self.chk = chk
        self.n = r.choice([1, 1, 2, 2, 3])
        self.sc = {'servers': [r.choice(['', '', 'spw', 'other']) for _ in range(self.n)], 'interval': r.choice([None, 5, 10, 60, 61, 300]),
                   'nick': r.choice(['me', 'me', 'Nick[x]']), 'pass': r.choice(['', '', 'npw', 'two words']), 'auto': r.random() < .8,
                   'user': r.choice(['user', 'u']), 'real': r.choice(['Real Name', 'R', ':odd name'])}
        self.sc['autocmd'] = r.choice([[], [], ['PRIVMSG oper :let me in'], ['MODE me +i', 'OPER a b', 'privmsg #x ::)']])
        pool = ['#a', '#B', '#c{}', '&loc', '#key', '#other']
        self.sc['chans'] = [[c, r.choice(['', '', 'sesame', 'k']), r.random() < .6] for c in r.sample(pool, r.choice([0, 0, 1, 2, 3]))]
        self.sc['ports'] = [[6000 + i, r.choice(['ok', 'ok', 'pending', 'refuse', 'nolookup'])] for i in range(self.n) if r.random() < .3]
        self.interval = self.sc['interval'] or 60
        self.ops = []
        self.ncl = 0
        self.newsim()
        self.extra = 0
    def newsim(self):
        self.sim = Sim(self.r)
        self.done = 0
    def flush(self):
        o = self.sim.out
        while self.done < len(o):
            self.ops.append(['srv', o[self.done]])
            self.done += 1
    def login(self, done=True):
        r = self.r
        ls = []
        nick = self.sc['nick']
        while r.random() < .15:
            ls.append(':irc 433 * %s :Nickname is already in use' % nick)
            nick = nick + '_'
        if r.random() < .1:
            ls.append(r.choice([':irc 433 *', ':irc 437 * %s :unavailable' % nick, 'NOTICE AUTH :*** Looking up', 'PING :%d' % r.randint(0, 99), ':irc 464 * :bad password', 'ERROR :Closing Link', ':irc 432 * x :bad', ':irc 433 * other :used']))
        if r.random() < .9:
            ls.append(':irc.a 001 %s :Welcome' % r.choice([nick, nick, nick, 'other', 'me']))
        if r.random() < .3:
            ls.append(':irc.a 005 me CASEMAPPING=%s CHANTYPES=#& PREFIX=(ov)@+ :are supported' % r.choice(['ascii', 'rfc1459']))
        if done:
            ls.append(':irc.a %s :End of MOTD' % r.choice(['376 me', '422 me']))
        return ls
    def chan(self):
        return self.r.choice(['#a', '#b', '#B', '#c[]', '#C{}', '&loc', '#key', '#new', '#nEw2'])
    def session(self):
        """What the user does there."""
        r, s = self.r, self.sim
        me = r.choice(['%s!user@proxy.host' % r.choice([self.sc['nick'], 'me', s.me, 'newnick'])] * 3 + ['alice!a@b'])
        k = r.random()
        c = self.chan()
        if k < .35:
            self.ops.append(['srv', ':%s JOIN %s' % (me, c)])
        elif k < .45:
            self.ops.append(['srv', ':%s PART %s' % (me, c)])
        elif k < .5:
            self.ops.append(['srv', ':op!o@h KICK %s %s :out' % (c, me.split('!')[0])])
        elif k < .65:
            self.ops.append(['srv', ':op!o@h MODE %s %s' % (c, r.choice(['+k sesame', '-k sesame', '+k other', '+kl a 4', '-k *', '+n']))])
        elif k < .7:
            self.ops.append(['srv', ':irc.a 324 me %s +%s' % (c, r.choice(['k key', 'nt', 'ntk kk', 'kl x 3']))])
        elif k < .78:
            self.ops.append(['srv', ':%s NICK %s' % (me, r.choice(['newnick', 'me', 'third', self.sc['nick']]))])
        elif k < .84:
            self.ops.append(['srv', r.choice(['PING :tok%d' % r.randint(0, 9), 'PING a b', ':irc.a PING x', 'PING', ':irc PONG irc :ctrlproxy', ':alice!a@b PRIVMSG me :hi', ':alice!a@b PRIVMSG me :\001VERSION\001', ''])])
        else:
            st = r.choices(NAMES, WEIGHTS)[0]
            getattr(s, st)()
            self.flush()
    def wait(self):
        r = self.r
        self.ops.append(['tick', r.choice([1, 4, 5, 6, self.interval - 1, self.interval, self.interval, self.interval + 1, 59, 60, 61, 65, 66, 119, 120, 121, 125, 126, 130, 200])])
    def quiet(self, n):
        r = self.r
        for _ in range(n):    # silence, or nearly
            self.ops.append(['tick', r.choice([1, 4, 5, 5, 10, 20, 55, 60])])
            if r.random() < .3:
                self.ops.append(['srv', r.choice([':irc PONG irc :ctrlproxy', ':x!y@z PRIVMSG me :still here', 'PING :s'])])
    def step(self):
        r = self.r
        k = r.random()
        if self.chk == 'P13' and r.random() < .35:
            return self.quiet(r.randint(2, 12))
        if self.chk == 'P10' and r.random() < .4:
            for _ in range(r.randint(1, 4)):
                self.session()
            return
        if k < .28:
            for l in self.login(r.random() < .8):
                self.ops.append(['srv', l])
            if r.random() < .6:
                for _ in range(r.randint(1, 8)):
                    self.session()
        elif k < .40:
            self.session()
        elif k < .52:
            self.ops.append(['close'])
            if r.random() < .7:
                self.ops.append(['tick', self.interval])
        elif k < .66:
            self.wait()
        elif k < .74:
            self.ops.append(['finish', r.random() < .6])
        elif k < .82:
            self.ops.append([r.choice(['connect', 'connect', 'disconnect', 'next'])])
        elif k < .9:
            p = 6000 + r.randrange(self.n + self.extra)
            self.ops.append(['port', p, r.choice(['ok', 'ok', 'pending', 'refuse', 'nolookup'])])
        elif k < .95:
            c = 'c%d' % r.randint(1, 3)
            self.ops.append(r.choice([['attach', c, r.choice(['me', self.sc['nick'], 'clnick'])], ['detach', c], ['cli', c, r.choice(['PRIVMSG #a :x', 'JOIN #q', 'PING z'])]]))
        elif k < .97:
            self.ops.append(['addserver', 6000 + self.n + self.extra, r.choice(['', 'apw'])])
            self.extra += 1
        elif k < .975:
            self.ops.append(['del'])
        else:
            self.quiet(r.randint(2, 30))
    def run(self, n):
        while len(self.ops) < n:
            self.step()
        self.sc['ops'] = self.ops
        return self.sc

def scenario(rng, chk='P09'):
    return Gen(rng, chk).run(rng.randint(15, 90))

def behaviour(h):
    """A behaviour of ConnMC.tla (whose first state is C0) as a scenario."""
    return {'servers': ['', 'spw'], 'interval': 10, 'nick': 'me', 'user': 'user', 'real': 'Real Name', 'pass': '', 'auto': False,
            'autocmd': ['MODE me +i'], 'chans': [['#auto', 'k1', True], ['#not', '', False]],
            'ops': [['srv', unparse(op[1])] if op[0] == 'srv' else list(op) for op in h]}

DEPTH = {'P09': (6, 7), 'P10': (7, 8), 'P13': (6, 8)}
def check(ctx, chk):
    hs = ctx.model('ConnMC', 'ConnMC.cfg', gen=True, limit=ctx.n(1500, 40000), consts={'Which': '"%s"' % chk, 'Depth': ctx.n(*DEPTH[chk]), 'Gen': 'TRUE'})
    ex = runner(chk)
    ctx.conform('ConnTrace', [behaviour(h) for h in hs], ex, label='model behaviours')
    ctx.conform('ConnTrace', [scenario(ctx.rng, chk) for _ in range(ctx.n(500, 8000))], ex, label='random histories')
