"""Logging of conversations (events of LogsTrace.tla)."""
import os, time
from drive import *
from mux import raw_out

NETS = ['netA', 'netB']
KINDS = ['join', 'part', 'msg', 'notice', 'action', 'mode', 'quit', 'kick', 'topic', 'notopic', 'nickchange']
IRSSI = {'join': '%h:%M -!- %n [%u] has joined %c', 'part': '%h:%M -!- %n [%u] has left %c [%m]', 'msg': '%h:%M < %n> %m',
         'notice': '%h:%M < %n> %m', 'action': '%h:%M  * %n %m', 'mode': '%h:%M -!- mode/%t [%p %c] by %n',
         'quit': '%h:%M -!- %n [%u] has quit [%m]', 'kick': '%h:%M -!- %t has been kicked by %n [%r]',
         'topic': '%h:%M -!- %n has changed the topic to %t', 'notopic': '%h:%M -!- %n has removed the topic',
         'nickchange': '%h:%M -!- %n is now known as %r'}

def clock(t):
    g = time.gmtime(t)
    f = lambda x: time.strftime('%' + x, g)
    return {'h': f('H'), 'M': f('M'), 's': f('S'), 'd': f('d'), 'B': f('m'), 'Y': f('Y'), 'e': str(t), 'b': f('b')}

class LogRun:
    def __init__(self, w, sc):
        self.w, self.sc = w, sc
        self.dir = None
        self.conn, self.srv, self.nth, self.cl, self.seen = {}, {}, 0, {}, {}
        # the directory isn't known before: networks and settings are written by start(), which asks for them
        c = sc['conf']
        d = w.new()
        w.partial = []
        self.d = d
        g = dict(GLOBAL)
        g['autoconnect'] = ''.join(n + ';' for n in NETS)
        self.top = os.path.join(d, 'log_irssi') if c['how'] == 'irssi' else os.path.join(d, 'logs')
        fname = self.top + '/' + c.get('file', '%N/%@')
        fmt = dict(IRSSI) if c['how'].startswith('irssi') else c['fmt']
        groups = {}
        if c['how'].startswith('irssi'):
            if c['how'] == 'irssi-group':
                groups['log-irssi'] = {'logfile': self.top}
                fname = self.top + '/%N/%@'
            else:
                g['logging'] = 'irssi'
            if c['how'] == 'irssi-file':
                g['logfile'] = fname
            elif c['how'] == 'irssi-dir':
                g['logdir'] = self.top
                fname = self.top + '/%N/%@'
            elif c['how'] == 'irssi':
                fname = self.top + '/%N/%@'
        elif c['how'] == 'custom':
            g['logging'] = 'custom'
            g['logfilename'] = fname
            for k, v in fmt.items():
                g['log-format-' + k] = v
        else:
            groups['log-custom'] = dict(fmt, logfilename=fname)
        nets = {n: {'': net(servers='srv.%s:%d;' % (n, 6000 + i), reconnect_interval=5)} for i, n in enumerate(NETS)}
        write_config(d, g, nets)
        if groups:
            with open(os.path.join(d, 'config'), 'a') as f:
                for k, v in groups.items():
                    f.write('\n[%s]\n' % k + ''.join('%s=%s\n' % x for x in v.items()))
        self.ev = w.partial = [{'e': 'reset', 'nets': [{'name': n, 'host': 'srv.' + n} for n in NETS],
                                'file': fname, 'fmt': fmt}]
        self.boot()

    def boot(self):
        self.add(self.w.op('init', self.d), e='boot')

    def files(self):
        out = []
        for root, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(root, f)
                if p.startswith(self.top):
                    out.append(p)
        return out

    def logged(self):
        o = []
        for p in sorted(self.files()):
            n = os.path.getsize(p)
            old = self.seen.get(p, 0)
            if n != old:
                with open(p, 'rb') as f:
                    f.seek(min(old, n))
                    new = f.read().decode('latin1')
                self.seen[p] = n
                if n < old:
                    new = '(shortened)\n'
                ls = new.split('\n')
                o.append([esc(os.fsencode(p).decode('latin1')), [esc(x) for x in (ls[:-1] if ls[-1] == '' else ls[:-1] + [ls[-1] + '(unfinished)'])]])
        return o

    def add(self, r, **e):
        new = []
        for x in r.get('ev') or []:
            if 'acc' in x:
                n = NETS[x['port'] - 6000]
                self.conn[x['acc']] = n
                self.srv[n] = x['acc']
                new.append(n)
        e['sent'] = []
        for p, xs in raw_out(r).items():
            n = self.conn.get(p)
            if n and n not in new:
                e['sent'].append([n, [parse(x) for x in xs]])
        e['now'] = EPOCH + r['t']
        e['time'] = clock(e['now'])
        e['logged'] = self.logged()
        self.ev.append(e)
        for n in new:
            st = conv_state(self.w.op('dump', n)['st'])
            self.ev.append({'e': 'conn', 'net': n, 'nick': st['me'][0], 'user': st['me'][1], 'host': st['me'][2],
                            'sent': [], 'logged': [], 'now': e['now'], 'time': e['time']})
        for x in r.get('ev') or []:
            if 'closed' in x:
                n = self.conn.get(x['closed'])
                if n and self.srv.get(n) == x['closed']:
                    del self.srv[n]

    def do(self, op):
        w, k = self.w, op[0]
        if k == 'srv':
            s = self.srv.get(op[1])
            if s is not None:
                r = w.op('send', s, ''.join(x + '\r\n' for x in op[2]))
                self.add(r, e='srv', net=op[1], lines=[parse(x) for x in op[2]])
        elif k == 'attach':
            if op[1] not in self.cl:
                self.nth += 1
                self.cl[op[1]] = '%s.%d' % (op[1], self.nth)
                w.op('cconn', self.cl[op[1]], 5000)
                self.add(w.op('send', self.cl[op[1]], 'PASS pw:%s\r\nNICK me\r\nUSER u a b :Real\r\n' % op[2]), e='attach')
        elif k == 'cli':
            if op[1] in self.cl:
                self.add(w.op('send', self.cl[op[1]], ''.join(x + '\r\n' for x in op[2])), e='cli')
        elif k == 'detach':
            if op[1] in self.cl:
                self.add(w.op('close', self.cl.pop(op[1])), e='detach')
        elif k == 'tick':
            n = op[1]
            while n > 0:
                m = min(n, 40)
                self.add(w.op('tick', m), e='tick')
                for x in sorted(self.srv):
                    self.add(w.op('send', self.srv[x], ':irc PONG irc :x\r\n'), e='tick')
                n -= m
        elif k == 'later':               # another day: nothing is to happen but that
            w.op('now', EPOCH + self.ev[-1]['now'] - EPOCH + op[1])
        elif k == 'lost':
            s = self.srv.pop(op[1], None)
            if s is not None:
                self.add(w.op('close', s), e='lost', net=op[1])
        elif k == 'hup':
            self.add(w.op('hup'), e='hup')
        elif k == 'rotate':
            # the files are put aside, then the proxy is told to open them again
            for p in self.files():
                os.rename(p, p + '.old%d' % len(self.ev))
            for p in list(self.files()):
                os.unlink(p)
            self.seen = {}
            self.add(w.op('hup'), e='hup')
        elif k == 'restart':
            self.srv, self.cl = {}, {}
            self.add(w.op('quit'), e='quit')
            self.conn = {}
            self.boot()

def execute(w, sc):
    m = LogRun(w, sc)
    for op in sc['ops']:
        m.do(op)
    w.end()
    return m.ev

# ---- histories
def login(n, cm='rfc1459', me='me'):
    return ['srv', n, [':irc.a 001 %s :Welcome' % me, ':irc.a 005 %s CASEMAPPING=%s :are supported' % (me, cm), ':irc.a 376 %s :End of MOTD' % me]]

NICKS = ['alice', 'Bob[x]', 'carol', 'Dave^', 'eve']
CHANS = ['#a', '#B[1]', '#c/d', '&Loc^', '#x/y/z']
WORDS = ['hi', 'hello there', '%m and %n', '50% off', '', ':)', 'a:b', '  two  spaces ', 'x' * 60, '%', '100%%', '\xe9t\xe9', 'ACTION waves']

class Net:
    """A server whose users behave."""
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.cm = r.choice(['rfc1459', 'rfc1459', 'ascii', 'strict-rfc1459'])
        self.chans = {}
        self.me = 'me'
        self.names = list(NICKS)
        self.hosts = {}
        self.q = set()
    def mask(self, n):
        if self.r.random() < .05:
            return n
        if n not in self.hosts:
            self.hosts[n] = self.r.choice(['~u', 'us', 'x!y']) + '@' + self.r.choice(['h.example', 'a/b', '10.0.0.1'])
        return n + '!' + self.hosts[n]
    def spell(self, s):
        """Another way of writing a name."""
        r = self.r.random()
        if r < .6:
            return s
        if r < .8:
            return s.upper() if r < .7 else s.lower()
        if self.cm == 'ascii':
            return s.swapcase()
        t = '[]\\' + ('' if self.cm == 'strict-rfc1459' else '^')
        u = '{}|' + ('' if self.cm == 'strict-rfc1459' else '~')
        return s.translate(str.maketrans(t + u, u + t))
    def cmd(self, c):
        return self.r.choice([c, c, c, c, c.lower(), c.capitalize()])
    def on(self):
        return self.r.choice(sorted(self.chans)) if self.chans else None
    def step(self):
        r = self.r
        k = r.randint(0, 17)
        c = self.on()
        src = lambda: r.choice(self.names)
        word = lambda: r.choice(WORDS)
        if k <= 1 or c is None:
            ch = r.choice(CHANS)
            if ch not in self.chans:
                self.chans[ch] = {self.me}
                ns = r.sample(self.names, r.randint(0, 4))
                self.chans[ch].update(ns)
                out = [':%s %s %s%s' % (self.mask(self.me), self.cmd('JOIN'), r.choice(['', ':']), ch)]
                if r.random() < .8:
                    out += [':irc.a 353 %s = %s :%s' % (self.me, self.spell(ch), ' '.join(r.choice(['', '@', '+']) + x for x in [self.me] + ns)),
                            ':irc.a 366 %s %s :End' % (self.me, ch)]
                else:
                    self.chans[ch] = {self.me}
                return out
            n = src()
            if n in self.chans[ch]:
                return []
            self.chans[ch].add(n)
            return [':%s %s %s%s' % (self.mask(n), self.cmd('JOIN'), r.choice(['', ':']), self.spell(ch))]
        if k <= 4:
            n = src()
            t = r.choice([self.spell(c), self.spell(c), self.spell(self.me), self.me, '@' + c, r.choice(CHANS)])
            if r.random() < .15 and len(self.chans) > 1:
                t = ','.join(self.spell(x) for x in r.sample(sorted(self.chans), 2))
            w = r.choice([word(), word(), word(), '\001ACTION %s\001' % word(), '\001ACTION %s' % word(), '\001action waves\001', '\001VERSION\001', '\001ACTION\001', '\001', '\001\001', '\001ACTION \001', '\001DCC SEND x 1 2 3\001'])
            o = r.choice([':' + self.mask(n), ':' + self.mask(n), ':' + self.mask(n), ':irc.a', ''])
            return ['%s %s %s :%s' % (o, self.cmd(r.choice(['PRIVMSG', 'PRIVMSG', 'NOTICE'])), t, w)]
        if k == 5:
            n = r.choice(sorted(self.chans[c]))
            if n == self.me:
                del self.chans[c]
            else:
                self.chans[c].discard(n)
            return [':%s %s %s%s' % (self.mask(n), self.cmd('PART'), self.spell(c), r.choice(['', ' :' + word(), ' bye']))]
        if k == 6:
            o = [x for x in sorted(self.chans[c]) if x != self.me]
            if not o:
                return []
            n = r.choice(o)
            if r.random() < .2:
                n = self.me
            by = self.mask(src()) if r.random() < .8 else 'irc.a'
            cs = [x for x in sorted(self.chans) if n in self.chans[x]] if r.random() < .3 else [c]
            for x in cs:
                if n == self.me:
                    self.chans.pop(x)
                else:
                    self.chans[x].discard(n)
            return [':%s %s %s %s%s' % (by, self.cmd('KICK'), ','.join(cs), ','.join([n] * len(cs)), r.choice(['', ' :' + word(), ' out']))]
        if k == 7:
            n = src()
            for m in self.chans.values():
                m.discard(n)
            return [':%s %s%s' % (self.mask(n), self.cmd('QUIT'), r.choice(['', ' :' + word(), ' :Ping timeout']))]
        if k == 8:
            old = r.choice(self.names + [self.me])
            new = r.choice(['me_', 'me', 'Alice2', 'zed|', 'alice', 'carol', 'FRED', old.upper(), old.swapcase()])
            low = lambda x: x.lower().translate(str.maketrans('[]\\^', '{}|~'))
            if new == old or (low(new) != low(old) and low(new) in [low(x) for x in self.names + [self.me]]):
                return []
            if old != self.me and not any(old in m for m in self.chans.values()):
                return []                 # not seen
            o = self.mask(old)
            for m in self.chans.values():
                if old in m:
                    m.discard(old)
                    m.add(new)
            if old == self.me:
                self.me = new
            else:
                self.names[self.names.index(old)] = new
            return [':%s %s %s%s' % (o, self.cmd('NICK'), r.choice(['', ':']), new)]
        if k <= 10:
            o = ':' + self.mask(src()) if r.random() < .8 else ':irc.a'
            return ['%s %s %s %s' % (o, self.cmd('TOPIC'), self.spell(c), r.choice([':' + word(), ':' + word(), '', ':']))]
        if k <= 12:
            t = self.spell(c) if r.random() < .8 else self.me
            o = ':' + self.mask(src()) if r.random() < .8 else ':irc.a'
            return ['%s %s %s %s' % (o, self.cmd('MODE'), t, r.choice(['+m', '-m', '+o ' + src(), '+l 5', '+k key', '+bb a!*@* b!*@*', '+vo-v %s %s %s' % (src(), src(), src()), '+b :a b', '+s-t', '+o ' + 'y' * 300]) if t != self.me else '+i')]
        if k == 13:
            return [r.choice([':irc.a NOTICE AUTH :*** Looking up', 'NOTICE %s :*** hello' % self.me, 'NOTICE AUTH :x', ':irc.a PING :x', ':irc.a 372 me :- text', ':irc.a WALLOPS :x', ':irc.a ERROR :x', 'PRIVMSG %s :anonymous' % self.me])]
        if k == 14:
            n = src()
            return [':%s %s' % (self.mask(n), r.choice(['JOIN', 'PART', 'KICK ' + c, 'PRIVMSG', 'PRIVMSG ' + c, 'NOTICE', 'NOTICE ' + c, 'MODE', 'MODE ' + c, 'TOPIC', 'NICK', 'KICK', 'JOIN #other', 'PART #other', 'TOPIC #other :x']))]
        if k == 15:
            n = src()
            return [':%s PRIVMSG %s :%s' % (self.mask(n), self.spell(self.me), word())]
        if k == 16:
            return [':%s INVITE %s %s' % (self.mask(src()), self.me, c)]
        return [x for _ in range(3) for x in [':%s PRIVMSG %s :%s' % (self.mask(src()), self.spell(c), word())]]
    def say(self):
        r = self.r
        t = r.choice([self.spell(x) for x in list(self.chans) + self.names] + [self.me, 'nobody[1]', 'Some/Where'])
        if r.random() < .15:
            t = ','.join([t, self.spell(r.choice(self.names))]) if self.spell('a') and t.lower() not in [x.lower() for x in self.names] else t
        return r.choice(['%s %s :%s' % (self.cmd(r.choice(['PRIVMSG', 'PRIVMSG', 'NOTICE'])), t, r.choice([w for w in WORDS if all(ord(x) < 128 for x in w)] + ['\001ACTION dances\001', '\001ACTION x', '\001VERSION\001', '\001PING 1\001'])),
                         '%s %s :%s' % ('PRIVMSG', t, r.choice(['hi', 'yo %n'])),
                         r.choice(['JOIN #x', 'TOPIC #a :t', 'MODE #a +o x', 'KICK #a bob :r', 'PART #zz', 'NICK other', 'NOTICE ' + t, 'PRIVMSG ' + t, 'AWAY :x', 'PING 1'])])

FILES = ['%N/%@', '%N/%@', '%N/%@.log', '%@', '%N-%@-%Y%B%d', '%S/%b/%@.%h', 'all-%@', '%N/by-%n/%@', '%@/u%u', 'x%%y/%@', '%N/%@/%0', '%N/%@-%t', 'one', '%N']
FORMATS = ['%h:%M:%s %n %@', '[%Y-%B-%d] <%n> %m', '%n!%u %c %t %p %r %m', '%e %N %S %@', '%0 %1 %2 %3 %9', '%% %', '', 'plain', '%b%d%%%m', '%x %Z %n', '%t|%c|%m|%r|%p']

def conf(r):
    how = r.choice(['irssi', 'irssi', 'irssi-file', 'irssi-dir', 'irssi-group', 'custom', 'custom', 'custom', 'custom-group'])
    c = {'how': how}
    if how in ('irssi-file', 'custom', 'custom-group'):
        c['file'] = r.choice(FILES)
    if how.startswith('custom'):
        c['fmt'] = {k: r.choice(FORMATS) if r.random() < .7 else IRSSI[k] for k in KINDS if r.random() < .85}
        c['fmt'].setdefault('msg', '<%n> %m')
    return c

def scenario(r):
    ns = {n: Net(r, n) for n in NETS}
    ops = [['attach', 'c1', 'netA'], ['attach', 'c2', 'netB']]
    for n in NETS:
        ops.append(login(n, ns[n].cm))
    for _ in range(r.randint(5, 70)):
        k = r.random()
        n = r.choice(['netA', 'netA', 'netB'])
        if k < .68:
            for x in ([[y.lstrip(' ') if ' :' in y else y.strip(' ') for y in ns[n].step()]]):
                if len(x) > 1 and 'PRIVMSG' in x[0]:
                    ops.append(['srv', n, x])
                else:
                    for y in x:
                        ops.append(['srv', n, [y]])
        elif k < .88:
            ops.append(['cli', {'netA': 'c1', 'netB': 'c2'}[n], [ns[n].say()]])
        elif k < .93:
            ops.append(['tick', r.choice([1, 7, 30, 61, 3600 // 20])])
        elif k < .95:
            ops.append(['rotate'] if r.random() < .6 else ['hup'])
        elif k < .97:
            ops += [['lost', n], ['tick', 6], login(n, ns[n].cm)]
            cm = ns[n].cm
            ns[n] = Net(r, n)
            ns[n].cm = cm
        elif k < .98:
            ops += [['restart'], ['attach', 'c1', 'netA'], ['attach', 'c2', 'netB']] + [login(x, ns[x].cm) for x in NETS]
            for x in NETS:
                cm = ns[x].cm
                ns[x] = Net(r, x)
                ns[x].cm = cm
    ops.append(['restart'])
    return {'conf': conf(r), 'ops': ops}

def behaviour(h):
    ops = [['attach', 'c1', 'netA'], login('netA'), login('netB')]
    for side, l in h:
        ops.append(['srv', 'netA', [unparse(l)]] if side == 's' else ['cli', 'c1', [unparse(l)]])
    return {'conf': {'how': 'irssi'}, 'ops': ops}
