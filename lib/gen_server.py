"""Random histories of lines an IRC server sends: mostly plausible, with odd, truncated and unknown ones mixed in."""
NICKS = ['alice', 'Bob[x]', 'carol', 'dave', 'eve']
CHANS = ['#a', '#b[1]', '#c', '&loc']
MODESETS = [dict(PREFIX='(ov)@+', CHANMODES='beI,k,l,imnpst', CHANTYPES='#&', CASEMAPPING='rfc1459'),
            dict(PREFIX='(qaohv)~&@%+', CHANMODES='beI,k,lj,imnpstz', CHANTYPES='#&', CASEMAPPING='ascii'),
            dict(PREFIX='(ov)@+', CHANMODES='b,k,l,imnpst', CHANTYPES='#', CASEMAPPING='strict-rfc1459')]

class Sim:
    def __init__(self, rng, nicks=None, chans=None, odd=.2):
        self.r, self.odd = rng, odd
        self.nicks = nicks or NICKS
        self.allchans = chans or CHANS
        self.me = 'me'
        self.hosts = {}
        self.chans = {}          # name -> {nick: modes}
        self.info = dict(PREFIX='(ov)@+', CHANMODES='beI,k,l,imnpst', CHANTYPES='#&', CASEMAPPING='rfc1459')
        self.out = []
        self.told = False

    def pm(self):
        p = self.info['PREFIX']
        return p[1:p.index(')')], p[p.index(')') + 1:]
    def host(self, n):
        if n not in self.hosts:
            self.hosts[n] = '%s!%s@%s' % (n, self.r.choice(['~u', 'us', 'x']), self.r.choice(['h.example', 'a.b', '10.0.0.1']))
        return self.hosts[n]
    def org(self, n):
        r = self.r.random()
        if r < .78:
            return ':' + self.host(n)
        if r < .90:
            nick, _, rest = self.host(n).partition('!')
            return ':%s!%s' % (self.case(self.case(nick)), rest)
        if r < .96:
            return ':' + n
        return ':%s!%s' % (n, 'u')
    def case(self, s):
        r = self.r.random()
        if r >= self.odd:
            return s
        if r < self.odd / 2:
            return s.upper()
        return s.translate(str.maketrans('[]\\~{}|^', '{}|^[]\\~'))
    def srv(self, n, rest):
        self.out.append(':irc.a %s %s %s' % (n, self.me, rest))
    def anynick(self):
        return self.r.choice(self.nicks + [self.me, 'stranger'])
    def member(self, c):
        if not self.chans[c]:
            return self.r.choice(self.nicks)
        return self.r.choice(list(self.chans[c]))
    def chan(self):
        if self.chans and self.r.random() < .9:
            return self.r.choice(list(self.chans))
        return self.r.choice(self.allchans)
    def on(self):
        return self.r.choice(list(self.chans)) if self.chans else None

    # ---- steps
    def s_join_me(self):
        c = self.r.choice(self.allchans)
        if c in self.chans:
            return
        self.chans[c] = {self.me: ''}
        self.out.append('%s JOIN %s%s' % (self.org(self.me), self.r.choice(['', ':']), c))
        if self.r.random() < .85:
            self.names(c)
        if self.r.random() < .4:
            self.s_topicreply(c)
        if self.r.random() < .4:
            self.s_324(c)
    def names(self, c, fill=True):
        pm, ps = self.pm()
        if fill:
            for n in self.r.sample(self.nicks, self.r.randint(0, 4)):
                self.chans[c].setdefault(n, self.r.choice(['', '', pm[0], pm[-1]]) if pm else '')
        l = [(ps[pm.index(m[0])] if m and m[0] in pm else '') + n for n, m in self.chans[c].items()]
        self.r.shuffle(l)
        k = self.r.choice([1, 2, 10])
        for i in range(0, len(l), k):
            self.srv(353, '%s %s :%s%s' % (self.r.choice('=*@'), self.case(c), ' '.join(l[i:i + k]), self.r.choice(['', ' '])))
        if self.r.random() < .95:
            self.srv(366, '%s :End of /NAMES list.' % self.case(c))
    def s_names(self):
        c = self.on()
        if c:
            self.names(c, False)
    def s_names_unknown(self):
        self.srv(353, '= %s :@%s %s' % (self.r.choice(['#zz', '#a']), self.anynick(), self.anynick()))
    def s_join_other(self):
        c = self.chan()
        n = self.r.choice(self.nicks)
        if c in self.chans:
            self.chans[c].setdefault(n, '')
        self.out.append('%s JOIN %s%s' % (self.org(n), self.r.choice(['', ':']), self.case(c)))
    def s_join_multi(self):
        cs = self.r.sample(self.allchans, 2)
        n = self.r.choice([self.me] + self.nicks)
        for c in cs:
            if n == self.me:
                self.chans.setdefault(c, {})[n] = ''
            elif c in self.chans:
                self.chans[c].setdefault(n, '')
        self.out.append('%s JOIN %s' % (self.org(n), ','.join(cs)))
    def drop(self, c, n):
        if c in self.chans:
            if n == self.me:
                del self.chans[c]
            else:
                self.chans[c].pop(n, None)
    def s_part(self):
        c = self.chan()
        n = self.member(c) if c in self.chans else self.anynick()
        if n == self.me and self.r.random() < .6:
            return
        self.drop(c, n)
        self.out.append('%s PART %s%s' % (self.org(n), self.case(c), self.r.choice(['', ' :bye bye'])))
    def s_kick(self):
        c = self.chan()
        n = self.member(c) if c in self.chans else self.anynick()
        if n == self.me and self.r.random() < .6:
            return
        self.drop(c, n)
        self.out.append('%s KICK %s %s :reason' % (self.org(self.anynick()), self.case(c), self.case(n)))
    def s_kick_multi(self):
        c = self.on()
        if not c:
            return
        ns = [x for x in self.chans[c] if x != self.me][:2]
        if len(ns) < 2:
            return
        for n in ns:
            self.drop(c, n)
        self.out.append('%s KICK %s,%s %s,%s :both' % (self.org(self.me), c, c, ns[0], ns[1]))
    def s_quit(self):
        n = self.r.choice(self.nicks)
        for c in self.chans:
            self.chans[c].pop(n, None)
        self.out.append('%s QUIT :gone' % self.org(n))
    def s_nick(self):
        old = self.r.choice(self.nicks + [self.me])
        new = self.r.choice(['me', 'me_', 'Me', 'fred', 'alice', 'bob{x}', 'Zed', 'carol'] + (self.nicks if self.nicks is not NICKS else []))
        fold = lambda x: x.lower().translate(str.maketrans('[]\\^', '{}|~'))
        taken = {fold(x) for m in self.chans.values() for x in m} | {fold(x) for x in self.nicks} | {fold(self.me)}
        if new == old or (fold(new) in taken and fold(new) != fold(old)):
            return
        for c in self.chans.values():
            if old in c:
                c[new] = c.pop(old)
        self.out.append('%s NICK %s%s' % (self.org(old), self.r.choice(['', ':']), new))
        if old in self.hosts:
            self.hosts[new] = new + self.hosts[old][self.hosts[old].index('!'):] if '!' in self.hosts[old] else new
        if old == self.me:
            self.me = new
    def s_topic(self):
        c = self.chan()
        self.out.append('%s TOPIC %s :%s' % (self.org(self.anynick()), self.case(c), self.r.choice(['', 'hello world', 'x'])))
    def s_topicreply(self, c=None):
        c = c or self.chan()
        r = self.r.random()
        if r < .3:
            self.srv(331, '%s :No topic is set' % self.case(c))
        else:
            self.srv(332, '%s :the topic %d' % (self.case(c), self.r.randint(0, 9)))
            self.srv(333, '%s %s %d' % (self.case(c), self.r.choice(['alice!u@h', 'bob']), 900000000 + self.r.randint(0, 999)))
    def s_mode(self):
        c = self.chan()
        pm, _ = self.pm()
        q = (self.info['CHANMODES'] + ',,,').split(',')
        ms, args = '', []
        sign = ''
        for _ in range(self.r.randint(1, 4)):
            ns = self.r.choice('+-')
            if ns != sign:
                ms += ns
                sign = ns
            k = self.r.random()
            if k < .4 and pm:
                ms += self.r.choice(pm)
                args.append(self.case(self.member(c) if c in self.chans and self.chans[c] else self.anynick()))
            elif k < .55 and q[0]:
                ms += self.r.choice(q[0])
                args.append(self.r.choice(['*!*@x', 'bad!*@*', '*!u@h']))
            elif k < .65 and q[1]:
                ms += self.r.choice(q[1])
                args.append(self.r.choice(['key', 'k2']))
            elif k < .75 and q[2]:
                ms += self.r.choice(q[2])
                if sign == '+':
                    args.append(self.r.choice(['5', '12']))
            elif k < .97 and q[3]:
                ms += self.r.choice(q[3])
            else:
                ms += 'Q'
                args.append('odd')
        if self.r.random() < .06 and args:
            args.pop()
        o = self.org(self.anynick()) if self.r.random() < .9 else ':irc.a'
        self.out.append(('%s MODE %s %s %s' % (o, self.case(c), ms, ' '.join(args))).rstrip())
    def s_umode(self):
        self.out.append('%s MODE %s %s' % (self.org(self.me), self.case(self.me), self.r.choice([':+i', '+iw', '-i', '+w-i', '-w+x', '+'])))
    def s_umode_other(self):
        self.out.append(':alice MODE %s +i' % self.r.choice(['alice', 'nobody']))
    def s_221(self):
        self.srv(221, self.r.choice(['+i', '+iw', '+', '+x']))
    def s_324(self, c=None):
        c = c or self.chan()
        q = (self.info['CHANMODES'] + ',,,').split(',')
        ms, args = '+', []
        for m in self.r.sample(q[3], min(len(q[3]), self.r.randint(0, 3))):
            ms += m
        if q[1] and self.r.random() < .5:
            ms += q[1][0]
            args.append('sesame')
        if q[2] and self.r.random() < .5:
            ms += q[2][0]
            args.append('42')
        self.srv(324, ('%s %s %s' % (self.case(c), ms, ' '.join(args))).rstrip())
        if self.r.random() < .7:
            self.srv(329, '%s %d' % (self.case(c), 800000000 + self.r.randint(0, 99)))
    def s_lists(self):
        c = self.chan()
        e, f = self.r.choice([(367, 368), (348, 349), (346, 347)])
        for i in range(self.r.randint(0, 3)):
            if e == 367 and self.r.random() < .7:
                self.srv(e, '%s *!*@ban%d alice!u@h 12345%d' % (self.case(c), i, i))
            else:
                self.srv(e, '%s *!*@ban%d' % (self.case(c), i))
        if self.r.random() < .95:
            self.srv(f, '%s :End of list' % self.case(c))
    def s_away(self):
        self.srv(self.r.choice([305, 306]), ':You are marked')
    def s_302(self):
        ws = []
        for n in self.r.sample(self.nicks + [self.me, 'nobody'], self.r.randint(1, 3)):
            ws.append('%s%s=%s%s' % (n, self.r.choice(['', '*']), self.r.choice('+-'), self.r.choice(['~u@h.new', 'x@y.z', 'bogus'])))
        self.srv(302, ':%s%s' % (' '.join(ws), self.r.choice(['', ' '])))
    def s_352(self):
        c = self.chan()
        n = self.anynick()
        self.srv(352, '%s %s %s irc.a %s H%s :0 Real %s' % (self.case(c), self.r.choice(['~w', 'user2']), 'who.host', n, self.r.choice(['', '@', '*', '+']), n))
        if self.r.random() < .5:
            self.srv(315, '%s :End of WHO' % c)
    def s_005(self):
        if not self.told:
            self.info = dict(self.r.choice(MODESETS)) if not self.chans else self.info
            self.told = True
        toks = ['%s=%s' % kv for kv in self.info.items()]
        toks += self.r.sample(['NETWORK=Foo', 'MODES=4', 'NICKLEN=30', 'SAFELIST', 'STATUSMSG=@+', 'TOPICLEN=300', 'WALLCHOPS', 'FOO=bar', 'AWAYLEN=200'], 3)
        self.r.shuffle(toks)
        self.srv('005', '%s :are supported by this server' % ' '.join(toks))
    def s_001(self):
        self.srv('001', ':Welcome to the network %s!u@h' % self.me)
    def s_004(self):
        self.srv('004', 'irc.a ircd-1.0 iowx biklmnopstv')
    def s_privmsg(self):
        self.out.append('%s PRIVMSG %s :hi' % (self.org(self.anynick()), self.r.choice([self.chan(), self.me])))
    def s_odd(self):
        r = self.r
        c, n = self.chan(), self.anynick()
        self.out.append(r.choice([
            ':irc.a', ':irc.a 353', ':irc.a 353 %s' % self.me, ':irc.a 353 %s = %s' % (self.me, c), ':irc.a 366 %s' % self.me,
            ':irc.a 332 %s %s' % (self.me, c), ':irc.a 333 %s %s bob' % (self.me, c), ':irc.a 324 %s %s' % (self.me, c),
            ':irc.a 329 %s %s' % (self.me, c), ':irc.a 331 %s' % self.me, ':irc.a 367 %s %s' % (self.me, c), ':irc.a 368 %s' % self.me,
            ':irc.a 352 %s %s a b c' % (self.me, c), ':irc.a 302 %s' % self.me, ':irc.a 302 %s :' % self.me, ':irc.a 221 %s' % self.me,
            ':irc.a 005', ':irc.a 005 %s :are supported' % self.me, ':irc.a 004 %s' % self.me, ':irc.a 001', ':irc.a 305', ':irc.a 306',
            'JOIN', 'JOIN %s' % c, ':%s JOIN' % n, ':%s PART' % n, 'PART %s' % c, ':%s KICK %s' % (n, c), 'KICK %s %s' % (c, n),
            ':%s NICK' % n, 'NICK foo', 'QUIT', ':%s TOPIC' % n, ':%s TOPIC %s' % (n, c), 'TOPIC %s :x' % c, ':%s MODE' % n, ':%s MODE %s' % (n, c),
            'MODE %s +m' % c, 'MODE', ':nosuch!u@h PART #nochan', ':nosuch!u@h KICK #nochan x', ':nosuch!u@h QUIT :x',
            ':nosuch!u@h TOPIC #nochan :x', ':nosuch!u@h MODE #nochan +m', ':nosuch!u@h MODE %s +o ghost' % c, ':nosuch!u@h KICK %s ghost' % c,
            ':nosuch!u@h PART %s' % c, ':nosuch!u@h JOIN #nochan', ':irc.a 332 %s #nochan :t' % self.me, ':irc.a 333 %s #nochan b 3' % self.me,
            ':irc.a 324 %s #nochan +m' % self.me, ':irc.a 329 %s #nochan 4' % self.me, ':irc.a 331 %s #nochan :none' % self.me,
            ':irc.a 366 %s #nochan :End' % self.me, ':irc.a 367 %s #nochan *!*@*' % self.me, ':irc.a 368 %s #nochan :End' % self.me,
            ':irc.a 352 %s #nochan u h irc.a ghost H :0 x' % self.me, 'WIBBLE x y', ':x 999 %s' % self.me, 'PING :abc', ':irc.a NOTICE * :*** hello',
            ':!@ JOIN %s' % c, ':a!b JOIN %s' % c, ':@h QUIT', ':x!u@h MODE %s +k' % c, ':x!u@h MODE %s -k' % c, ':x!u@h MODE %s +l' % c,
            ':x!u@h MODE %s +b' % c, ':x!u@h MODE %s +' % c, ':x!u@h MODE %s +o' % c, 'ERROR :bye']) )
        l = self.out[-1]
        p = parse_words(l)
        if l.startswith('ERROR'):
            self.out.pop()
        self.resync(p)
    def resync(self, p):
        if len(p) >= 3 and p[1] == 'JOIN' and self.me == p[0].split('!')[0].lstrip(':'):
            self.chans.setdefault(p[2], {})[self.me] = ''

STEPS = [('s_join_me', 8), ('s_names', 4), ('s_names_unknown', 1), ('s_join_other', 10), ('s_join_multi', 2), ('s_part', 6), ('s_kick', 5),
         ('s_kick_multi', 1), ('s_quit', 5), ('s_nick', 7), ('s_topic', 5), ('s_topicreply', 4), ('s_mode', 14), ('s_umode', 4), ('s_umode_other', 1),
         ('s_221', 2), ('s_324', 4), ('s_lists', 5), ('s_away', 3), ('s_302', 4), ('s_352', 4), ('s_005', 3), ('s_001', 1), ('s_004', 1),
         ('s_privmsg', 3), ('s_odd', 8)]
NAMES = [s for s, _ in STEPS]
WEIGHTS = [w for _, w in STEPS]

def parse_words(l):
    return l.split(' ')

def history(rng, n, **kw):
    s = Sim(rng, **kw)
    if rng.random() < .8:
        s.s_001()
        if rng.random() < .7:
            s.s_005()
        s.srv(376, ':End of /MOTD command.')
    while len(s.out) < n:
        if not s.chans and rng.random() < .5:
            s.s_join_me()
        else:
            getattr(s, rng.choices(NAMES, WEIGHTS)[0])()
    return s.out
