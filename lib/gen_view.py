"""Histories for coherence: consistent servers, clients coming and going, connections lost and made again."""
import gen_server

STEPS = [('s_join_me', 8), ('s_names', 4), ('s_join_other', 10), ('s_join_multi', 2), ('s_part', 6), ('s_kick', 5), ('s_kick_multi', 1),
         ('s_quit', 5), ('s_nick', 6), ('s_topic', 5), ('s_topicreply', 4), ('s_mode', 8), ('s_umode', 3), ('s_324', 2), ('s_lists', 2),
         ('s_privmsg', 3), ('s_odd', 3)]

class Gen:
    def __init__(self, rng, backend):
        r = self.r = rng
        self.nets = ['netA', 'netB'][:r.choice([1, 1, 2])]
        self.sim, self.up, self.nc = {}, {}, 0
        # clients can only follow capabilities they were told about: special ones only if all attach later
        self.info = {n: r.choice(gen_server.MODESETS) if r.random() < .4 else None for n in self.nets}
        self.cl, self.ops = {}, []
        self.backend = backend
    def flush(self, n):
        s = self.sim[n]
        # nobody attaches in the middle of a list of names: what those added since then means is up to the client
        open_ = {}
        for l in s.out:
            a = l.split(' ')
            if len(a) > 3 and a[1] == '353':
                open_[a[4].lower()] = a[4]
            elif len(a) > 3 and a[1] == '366':
                open_.pop(a[3].lower(), None)
        for c in open_.values():
            s.out.append(':irc.a 366 %s %s :End of /NAMES list.' % (s.me, c))
        while s.out:
            k = self.r.choice([1, 1, 1, 2, 3])
            self.ops.append(['srv', n, s.out[:k]])
            del s.out[:k]
    def login(self, n):
        s = self.sim[n] = gen_server.Sim(self.r)
        s.told = True
        s.out.append(':irc.a 001 me :Welcome')
        if self.info[n]:
            s.info = dict(self.info[n])
            s.s_005()
        if self.r.random() < .1:
            s.out.insert(0, ':irc.a 433 * me :in use')
        s.srv(376, ':End')
        self.up[n] = True
        self.flush(n)
        if self.r.random() < .5:
            s.s_umode()
            self.flush(n)
    def attach(self, n=None):
        n = n or self.r.choice(self.nets)
        if self.info[n] and not self.up.get(n):
            return
        self.nc += 1
        c = 'c%d' % self.nc
        self.cl[c] = n
        self.ops.append(['attach', c, n, self.r.choice(['me', 'me', 'zed', self.sim[n].me if n in self.sim else 'me']), 'u'])
    def detach(self):
        if self.cl:
            c = self.r.choice(list(self.cl))
            del self.cl[c]
            self.ops.append(['detach', c] if self.r.random() < .6 else ['cli', c, ['QUIT :x']])
    def lose(self, n):
        self.ops.append(['lost', n])
        self.up[n] = False
        if self.r.random() < .4:
            self.attach(n)
        self.ops.append(['idle', 61])
        if self.r.random() < .3:
            self.attach(n)
        if self.r.random() < .15:
            self.ops.append(['lost', n])
            self.ops.append(['idle', 61])
        self.login(n)
    def cli(self):
        if self.cl:
            c = self.r.choice(list(self.cl))
            self.ops.append(['cli', c, [self.r.choice(['JOIN #a', 'PART #b[1]', 'PRIVMSG #a :hello', 'NOTICE al :x y', 'TOPIC #a :new', 'AWAY :x'])]])
    def run(self, n):
        r = self.r
        for x in self.nets:
            if not self.info[x] and r.random() < .3:
                self.attach(x)
            self.login(x)
        # replayed lines about channels the user was not on mean something else to a client that is on them by now
        steps = [x for x in STEPS if x[0] != 's_odd' or self.backend in ('none', 'highlight')]
        names, w = [s for s, _ in steps], [k for _, k in steps]
        while len(self.ops) < n:
            x = r.random()
            m = r.choice(self.nets)
            if x < .09:
                self.attach()
            elif x < .13:
                self.detach()
            elif x < .16:
                self.lose(m)
            elif x < .2:
                self.cli()
            else:
                getattr(self.sim[m], r.choices(names, w)[0])()
                self.flush(m)
        return {'nets': self.nets, 'report': r.random() < .2, 'ops': self.ops, 'glob': {'replication': self.backend}}

def scenario(rng, backend='none'):
    return Gen(rng, backend).run(rng.randint(15, 60))
