import json
"""Administration, saving and restarting: scenarios for AdminTrace.

A scenario: cfg = {g, nets, lsts}; what is written by hand in the directory, and ops:
  ['cmd', who, [words]]    who: 'adm' (the administration socket), 'c1' (CTRLPROXY command of a client)
  ['msg', c, to, [words]]  PRIVMSG to somebody
  ['login', c, net|'']     a client logs in (net: named in its password)
  ['up', net]              the server of a network lets the proxy in
  ['line', net, text]      the server says something
  ['drop', net] ['close', c] ['tick', n] ['save'] ['load', dir] ['quit'] ['restart', dir]
Directories are "~" (where it was started) and "~/alt".
"""
import os
from world import Died
from drive import esc, lines, parse

BOOL = ['admin-log', 'auto-away-enable', 'autosave', 'learn-network-name', 'learn-nickserv', 'create-implicit', 'listener-auto']
NUM = ['auto-away-client-limit', 'auto-away-time', 'max_who_age', 'report-time-offset', 'listener-autoport']
TEXT = ['admin-user', 'auto-away-message', 'auto-away-nick', 'default-client-charset', 'motd-file', 'password', 'replication',
        'default-nick', 'default-username', 'default-fullname']
LOGKEYS = ['nickchange', 'join', 'part', 'topic', 'notopic', 'msg', 'action', 'kick', 'mode', 'quit', 'notice']

def opt(v):
    return [] if v is None else [v]

class Paths:
    """The directories of a scenario, under the names they have in traces."""
    def __init__(self, d):
        self.d = d
        self.bare = os.path.basename(os.path.dirname(d)) + '/' + os.path.basename(d)
    def real(self, s):
        return s.replace('~', self.d) if s.startswith('~') else s
    def show(self, s):
        return None if s is None else esc(s.replace(self.d, '~').replace('~/alt/log_irssi', '~/log_irssi'))

def conv_cfg(c, p):
    def s(v):
        return opt(p.show(v))
    b = lambda v: ['true' if v else 'false']
    aa = c['auto_away']
    lf = c['log']
    g = {'autosave': b(c['autosave']), 'motd-file': s(c['motd_file']), 'password': s(c['password']), 'default-nick': s(c['default_nick']),
         'default-username': s(c['default_username']), 'default-fullname': s(c['default_realname']), 'create-implicit': b(c['create_implicit']),
         'replication': s(c['replication']), 'default-client-charset': s(c['client_charset']), 'admin-log': b(c['admin_log']),
         'admin-user': s(c['admin_user']), 'report-time': [['always', 'never', 'replication'][c['report_time']]],
         'report-time-offset': [str(c['report_time_offset'])], 'max_who_age': [str(c['max_who_age'])], 'listener-auto': b(c['auto_listener']),
         'listener-autoport': [str(c['listener_autoport'])], 'learn-nickserv': b(c['learn_nickserv']),
         'learn-network-name': b(c['learn_network_name']), 'auto-away-enable': b(aa['enabled']), 'auto-away-time': [str(aa['time'])],
         'auto-away-client-limit': [str(aa['limit'])], 'auto-away-message': s(aa['message']), 'auto-away-nick': s(aa['nick']),
         'logging': ['none' if lf is None else 'irssi' if lf['irssi'] else 'custom'],
         'log': [] if lf is None else [show_log({k: p.show(v) for k, v in lf.items() if k != 'irssi'})]}
    return {'g': g, 'nets': [conv_net(n, p) for n in c['networks']], 'lsts': order_lsts([conv_lst(l) for l in c['listeners']])}

def show_log(d):
    return ' '.join('%s=%s' % (k, d[k]) for k in sorted(d) if d[k] is not None)

def conv_net(n, p):
    e = lambda v: opt(None if v is None else esc(v))
    where = n.get('bind') if n['type'] == 0 else n.get('program') or n.get('virtual')
    return {'name': esc(n['name']), 'nick': e(n['nick']), 'full': e(n['fullname']), 'user': e(n['username']), 'pass': e(n['password']),
            'where': e(where), 'kind': ['tcp', 'program', 'virtual', 'io'][n['type']],
            'servers': [{'host': esc(s['host']), 'port': esc(s['port']), 'ssl': bool(s['ssl']), 'pass': e(s['password']), 'bind': e(s['bind'])}
                        for s in n.get('servers', [])],
            'auto': bool(n['autoconnect']), 'implicit': bool(n['implicit']), 'skipfirst': bool(n['ignore_first_nick']),
            'speed': n['queue_speed'], 'interval': n['reconnect_interval'], 'cmds': [esc(x) for x in n['autocmd']],
            'chans': [{'name': esc(x['name']), 'key': e(x['key']), 'join': bool(x['autojoin'])} for x in n['channels']]}

def conv_lst(l):
    e = lambda v: opt(None if v is None else esc(v))
    return {'port': esc(l['port']), 'address': e(l['address']), 'password': e(l['password']), 'network': e(l['network']),
            'ssl': bool(l['ssl']), 'default': bool(l['default']), 'allow': [[esc(x[0] or ''), esc(x[1] or '')] for x in l['allow']]}

def order_lsts(ls):
    return sorted(ls, key=lambda l: (l['port'], l['address']))

# ------------------------------------------------------------ the directory, by hand
NET = {'nick': None, 'full': None, 'user': None, 'pass': None, 'where': None, 'kind': 'tcp', 'servers': [], 'auto': False,
       'skipfirst': False, 'speed': 0, 'interval': -1, 'cmds': [], 'chans': [], 'own': True}

def kf(v):
    """A value in a key file, with what is special in it spelled out."""
    v = v.replace('\\', '\\\\').replace('\t', '\\t')
    return '\\s' + v[1:] if v.startswith(' ') else v

def kl(vs):
    return ''.join(kf(v).replace(';', '\\;') + ';' for v in vs)

def url(s):
    return 'irc%s://%s:%s' % ('s' if s['ssl'] else '', s['host'], s['port'])

def net_groups(n, group):
    g = {}
    for k, f in (('nick', 'nick'), ('full', 'fullname'), ('user', 'username'), ('pass', 'password')):
        if n[k] is not None:
            g[f] = kf(n[k])
    if n['where'] is not None:
        g[{'tcp': 'bind', 'program': 'program', 'virtual': 'virtual'}[n['kind']]] = kf(n['where'])
    out = [[group, g]]
    if n['kind'] == 'tcp':
        if n['servers']:
            g['servers'] = kl([s.get('as') or url(s) for s in n['servers']])
        for s in n['servers']:
            sg = {}
            if s['pass'] is not None:
                sg['password'] = kf(s['pass'])
            if s['bind'] is not None:
                sg['bind'] = kf(s['bind'])
            if sg:
                out.append([s.get('as') or url(s), sg])
    if n['skipfirst']:
        g['ignore_first_nick'] = 'true'
    if n['speed']:
        g['queue-speed'] = n['speed']
    if n['interval'] != -1:
        g['reconnect-interval'] = n['interval']
    if n['cmds']:
        g['autocmd'] = kl(n['cmds'])
    j = [c['name'] for c in n['chans'] if c['join'] and not c.get('group')]
    if j:
        g['autojoin'] = kl(j)
    if n['own']:
        for c in n['chans']:
            if c.get('group'):          # the older form
                cg = {'autojoin': 'true' if c['join'] else 'false'}
                if c['key'] is not None:
                    cg['key'] = kf(c['key'])
                out.append([c['name'], cg])
    return out

def fmt(groups):
    return '\n'.join('[%s]\n%s' % (g, ''.join('%s=%s\n' % kv for kv in kvs.items())) for g, kvs in groups)

GKEYS = {'max_who_age': 'max-who-age'}
def write_dir(d, cfg):
    os.makedirs(os.path.join(d, 'networks'), exist_ok=True)
    g = {GKEYS.get(k, k): kf(v) for k, v in cfg['g'].items()}
    if cfg.get('log'):
        for k, v in cfg['log'].items():
            g[k if k.startswith('log') else 'log-format-' + k] = kf(v)
    groups = [['global', g]]
    auto = [n['name'] for n in cfg['nets'] if n['auto']]
    if auto:
        g['autoconnect'] = kl(auto)
    other = []
    for l in cfg['lsts']:
        if l['default'] and not l['allow']:
            g['port'] = l['port']
            if l['address'] is not None:
                g['bind'] = l['address']
            if l['network'] is not None:
                g['default-network'] = l['network']
            if l['password'] is not None:
                g['password'] = kf(l['password'])
        elif l['allow']:
            s = {'port': l['port'], 'allow': kl([a[0] + (':' + a[1] if a[1] else '') for a in l['allow']])}
            for k, f in (('address', 'bind'), ('password', 'password'), ('network', 'default-network')):
                if l[k] is not None:
                    s[f] = kf(l[k])
            groups.append(['socks', s])
        else:
            s = {}
            if l['password'] is not None:
                s['password'] = kf(l['password'])
            if l['network'] is not None:
                s['network'] = l['network']
            other.append([(l['address'] + ':' if l['address'] is not None else '') + l['port'], s])
    keys = []
    for n in cfg['nets']:
        if n['own']:
            with open(os.path.join(d, 'networks', n['name']), 'w', encoding='latin-1') as f:
                f.write(fmt(net_groups(n, 'global')))
        else:
            groups += net_groups(n, n['name'])
        keys += ['%s\t%s\t%s\n' % (c['name'], c['key'], n['name']) for c in n['chans'] if c['key'] is not None and not c.get('group')]
    with open(os.path.join(d, 'config'), 'w', encoding='latin-1') as f:
        f.write(fmt(groups))
    if other:
        with open(os.path.join(d, 'listener'), 'w', encoding='latin-1') as f:
            f.write(fmt(other))
    if keys:
        with open(os.path.join(d, 'keys'), 'w', encoding='latin-1') as f:
            f.write('; channel keys\n\n' + ''.join(keys))

def wanted(cfg, p):
    g = {k: [esc(v)] for k, v in cfg['g'].items()}
    e = lambda v: opt(None if v is None else esc(v))
    ls = [{'port': l['port'], 'address': e(l['address']), 'password': e(l['password']), 'network': e(l['network']), 'ssl': False,
           'default': l['default'], 'allow': [[esc(a[0]), esc(a[1])] for a in l['allow']]} for l in cfg['lsts']]
    for l in cfg['lsts']:
        if l['default'] and not l['allow'] and l['password'] is not None:
            g['password'] = [esc(l['password'])]
    if cfg.get('log'):
        g['log'] = [show_log({('filename' if k == 'logfilename' else k): esc(v) for k, v in cfg['log'].items()})]
    nets = []
    for n in cfg['nets']:
        m = {k: e(n[k]) for k in ('nick', 'full', 'user', 'pass', 'where')}
        m.update(name=n['name'], kind=n['kind'], auto=n['auto'], implicit=False, skipfirst=n['skipfirst'], speed=n['speed'],
                 interval=n['interval'], cmds=[esc(x) for x in n['cmds']],
                 servers=[{'host': s['host'], 'port': s['port'], 'ssl': s['ssl'], 'pass': e(s['pass']), 'bind': e(s['bind'])} for s in n['servers']],
                 chans=[{'name': esc(c['name']), 'key': e(c['key']), 'join': c['join']} for c in n['chans']])
        nets.append(m)
    return {'g': g, 'nets': nets, 'lsts': order_lsts(ls)}

# ------------------------------------------------------------ driving
class Run:
    def __init__(self, w, sc):
        self.w, self.sc = w, sc
        self.d = w.new()
        self.p = Paths(self.d)
        self.home = '~'
        self.ev = w.partial = []
        self.owner = {}         # server peer -> network
        self.cnet = {}          # client -> network, '' while it has none
        self.dead = set()
        self.prev = []
        self.acc = []
        write_dir(self.d, sc['cfg'])
        for f in sc.get('files', []):
            with open(os.path.join(self.d, f), 'w') as fh:
                fh.write('hello\n')

    def op(self, *a):
        r = self.w.op(*a)
        self.r = r
        for e in r.get('ev') or []:
            if 'acc' in e:
                self.acc.append((e['acc'], str(e['port'])))
            if 'closed' in e:
                self.dead.add(e['closed'])
        return r

    def look(self):
        """The configuration and the networks as they are; finds out whose the new connections are."""
        self.raw = self.w.op('cfg')['cfg']
        nets = self.w.op('nets')['nets']
        ports = {n['name'].lower(): [s['port'] for s in n.get('servers', [])] for n in self.raw['networks']}
        names = [n['name'].lower() for n in nets]
        if len(names) == len(self.prev) and names != self.prev:         # renamed
            for a, b in zip(self.prev, names):
                for k in self.owner:
                    if self.owner[k] == a:
                        self.owner[k] = '*' + b
                for k in self.cnet:
                    if self.cnet[k] == a:
                        self.cnet[k] = '*' + b
            self.owner = {k: v.lstrip('*') for k, v in self.owner.items()}
            self.cnet = {k: v.lstrip('*') for k, v in self.cnet.items()}
        self.prev = names
        for s, port in self.acc:
            taken = {self.owner[k] for k in self.owner if k not in self.dead}
            for n in nets:
                nm = n['name'].lower()
                i = n.get('server', 0)
                if n['conn'] >= 2 and nm not in taken and i and ports.get(nm, [])[i - 1:i] == [port]:
                    self.owner[s] = nm
                    break
            else:
                self.owner[s] = '?'
        self.acc = []
        self.live = []
        for n in nets:
            chans = []
            if n['state']:
                st = self.w.op('dump', n['name'])['st']
                chans = [{'name': esc(c['name']), 'key': opt(None if c['opts'].get('k') is None else esc(c['opts']['k']))} for c in st['chans']]
            self.live.append({'name': esc(n['name']), 'st': n['conn'], 'in': n['conn'] == 5, 'state': bool(n['state']),
                              'nick': esc(n['nick'] or ''), 'chans': chans})
        return {'cfg': conv_cfg(self.raw, self.p), 'live': self.live}

    def server(self, net):
        for s in reversed(list(self.owner)):
            if self.owner[s] == net and s not in self.dead:
                return s

    def start(self):
        self.sock = self.p.real(self.home) + '/admin'
        if len(self.sock) > 100:
            raise RuntimeError('path too long')
        self.owner, self.cnet, self.dead, self.acc, self.prev, self.up = {}, {}, set(), [], [], set()
        self.gen = getattr(self, 'gen', 0) + 1
        r = self.op('init', self.p.real(self.home))
        self.initial = r
        self.adm = 'adm%d' % self.gen
        self.op('uconn', self.adm, self.sock)

    def replies(self, who, data):
        """What the one who asked was told, as texts; anything else it received."""
        out, rest = [], []
        if who == 'adm':
            return [l.rstrip('\r') for l in data.split('\n')[:-1]], []
        for l in lines(data):
            a = parse(l)
            if a[0].startswith('ctrlproxy!ctrlproxy@') and a[1] == 'NOTICE':
                out.append(l.split(' :', 1)[1] if ' :' in l else l.split(' ')[-1])
            else:
                rest.append(a)
        return out, rest

    def cmd(self, e, who, words, payload, name):
        if name not in self.cnet and who != 'adm':
            return
        if name in self.dead:
            return
        cnet = '' if who == 'adm' else self.cnet[name]
        x = {'net': cnet, 'client': who != 'adm', 'ex': False, 'home': self.home}
        w = list(words)
        if len(w) > 2 and w[0].lower() == 'set' and w[1].lower() == 'motd-file':
            x['ex'] = os.path.exists(self.p.real(' '.join(w[2:])))
        r = self.op('send', name, payload)
        io = r.get('io') or {}
        owner0 = dict(self.owner)
        after = self.look()
        out, rest = self.replies(who, io.get(name, ''))
        fix = []
        lw0 = w[0].lower() if w else ''
        for t in out:
            if lw0 == 'listlistener':
                t = t.split(' ')[0]
            if ': Not connected: ' in t:
                t = t.split(': Not connected: ')[0] + ': Not connected'
            if lw0 == 'set' and len(w) == 1 and t.startswith('log_level = '):
                t = 'log_level = *'
            fix.append(self.p.show(t))
        srv, oth, sent = [], [], []
        for peer, data in io.items():
            if peer == name:
                continue
            for l in lines(data):
                a = parse(l)
                if peer in self.owner or peer in owner0:
                    srv.append({'net': owner0.get(peer) or self.owner.get(peer), 'cmd': a[1]})
                    sent.append(esc(l))
                else:
                    oth.append({'who': peer, 'answer': a[0].startswith('ctrlproxy') or peer.startswith('adm'), 'text': esc(l)})
        e.update(x=x, w=[esc(y) for y in w], lw=[esc(y.lower()) for y in w], out=fix, srv=srv, sent=sent, oth=oth, rest=rest,
                 gone=name in self.dead, line=esc(payload.rstrip('\r\n')))
        e.update(after)
        self.ev.append(e)

    def env(self, r, **kw):
        e = {'e': 'env'}
        e.update(kw)
        e.update(self.look())
        self.ev.append(e)

    def step(self, o):
        k = o[0]
        if k == 'cmd':
            who, words = o[1], [self.p.real(x) if x.startswith('~') else x for x in o[2]]
            shown = o[2]
            if who == 'adm':
                self.cmd({'e': 'cmd'}, 'adm', shown, ' '.join(words) + '\r\n', self.adm)
            else:
                if not words:
                    return
                self.cmd({'e': 'cmd'}, who, shown, 'CTRLPROXY ' + ' '.join(words) + '\r\n', self.peer(who))
        elif k == 'msg':
            words = [self.p.real(x) if x.startswith('~') else x for x in o[3]]
            self.cmd({'e': 'msg', 'to': o[2], 'tol': o[2].lower()}, o[1], o[3], 'PRIVMSG %s :%s\r\n' % (o[2], ' '.join(words)), self.peer(o[1]))
        elif k == 'login':
            c = self.peer(o[1])
            if c in self.cnet:
                return
            pw = o[3] if len(o) > 3 else 'pw'
            r = self.op('cconn', c, o[4] if len(o) > 4 else 5000)
            if r.get('refused') or r.get('failed'):
                return
            r = self.op('send', c, 'PASS %s%s\r\nNICK me\r\nUSER u a b :r\r\n' % (pw, ':' + o[2] if o[2] else ''))
            before = list(self.prev)
            a = self.look()
            net = self.where(c, o[2])
            if net is not None:
                self.cnet[c] = net
            e = {'e': 'env'}
            new = [n for n in self.prev if n not in before]
            if new and len(self.prev) > len(before):
                e['made'] = new[0]
            e.update(a)
            self.ev.append(e)
        elif k == 'up':
            s = self.server(o[1])
            if s is None or s in self.up:
                return
            self.up.add(s)
            self.env(self.op('send', s, ':srv 001 me :hi\r\n:srv 376 me :end\r\n'))
        elif k == 'line':
            s = self.server(o[1])
            if s is None or s not in self.up:
                return
            self.env(self.op('send', s, o[2] + '\r\n'))
        elif k == 'drop':
            s = self.server(o[1])
            if s is None:
                return
            self.dead.add(s)
            self.env(self.op('close', s))
        elif k == 'close':
            c = self.peer(o[1])
            if c not in self.cnet or c in self.dead:
                return
            r = self.op('close', c)
            self.dead.add(c)
            self.env(r)
        elif k == 'tick':
            self.env(self.op('tick', o[1]))
        elif k == 'port':
            self.op('port', o[1], o[2])
        elif k == 'save':
            self.op('save')
            e = {'e': 'save'}
            e.update(self.look())
            self.ev.append(e)
        elif k == 'load':
            d = self.p.real(o[1])
            got = self.w.op('loadcfg', d)['cfg'] if os.path.exists(os.path.join(d, 'config')) else None
            if got is None:
                return
            self.ev.append({'e': 'load', 'dir': o[1], 'got': conv_cfg(got, self.p)})
        elif k in ('quit', 'restart'):
            self.op('quit')
            self.ev.append({'e': 'quit'})
            dir_ = o[1] if k == 'restart' else self.home
            if not os.path.exists(os.path.join(self.p.real(dir_), 'config')):
                dir_ = self.home
            self.home = dir_
            self.start()
            e = {'e': 'restart', 'dir': dir_}
            e.update(self.look())
            e['run'] = self.run()
            self.ev.append(e)

    def run(self):
        name = 'probe%d' % self.gen
        self.op('uconn', name, self.sock)
        r = self.op('send', name, 'LISTLISTENER\r\n')
        out = []
        for l in lines((r.get('io') or {}).get(name, '')):
            h, _, q = l.split(' ')[0].rpartition(':')
            out.append([esc(h), esc(q)])
        self.op('close', name)
        return out

    def peer(self, c):
        return c if self.gen == 1 else '%s.%d' % (c, self.gen)

    def where(self, c, asked):
        """The network a client that just logged in is on: the one that has gained a client."""
        n0 = getattr(self, 'counts', {})
        self.count()
        for n, k in self.counts.items():
            if k > n0.get(n, 0):
                return n
        return None

    def count(self):
        self.counts = {n['name'].lower(): len(n['clients']) for n in self.w.op('nets')['nets']}

def execute(w, sc):
    r = Run(w, sc)
    r.start()
    e = {'e': 'reset', 'want': wanted(sc['cfg'], r.p)}
    if sc.get('exact'):
        e['exact'] = 1
    e.update(r.look())
    e['run'] = r.run()
    r.ev.append(e)
    for o in sc['ops']:
        r.count()
        r.step(o)
    w.end()
    return r.ev

# ------------------------------------------------------------ scenarios
def N(name, **k):
    n = {x: list(v) if isinstance(v, list) else v for x, v in NET.items()}
    n['name'] = name
    n.update(k)
    return n
def S(host, port, **k):
    s = {'host': host, 'port': port, 'ssl': False, 'pass': None, 'bind': None}
    s.update(k)
    return s
def L(port, **k):
    l = {'port': port, 'address': None, 'password': None, 'network': None, 'default': False, 'allow': []}
    l.update(k)
    return l
def C(name, key=None, join=True, **k):
    c = {'name': name, 'key': key, 'join': join}
    c.update(k)
    return c

CHANS = ['#c', '#d', '&e', '#[x]', '#caf\xe9']
WORDS = ['away', 'gone fishing', 'a;b', 'back\\slash', ' lead', 'a=b', '#hash', 'na\xefve', '%s %n', 'x', '[y]', 'semi;colon;']
KEYS = ['key', 'k2', 'a;b', 'k\\n', '=']
NAMES = ['neta', 'netb', 'netc']

def gen_net(rng, name, i, own):
    n = N(name, own=own)
    maybe = lambda v, p=0.4: v if rng.random() < p else None
    n['nick'] = maybe(rng.choice(['me', 'you', '[me]', 'm\\e']), 0.7)
    n['full'] = maybe(rng.choice(['Real', 'Real Name', 'A; B', 'na\xefve', 'back\\s']))
    n['user'] = maybe(rng.choice(['user', '~u', 'u;v']))
    n['pass'] = maybe(rng.choice(['sekrit', 'a b', 'x;y', '\\']), 0.3)
    n['skipfirst'] = rng.random() < 0.3
    n['speed'] = rng.choice([0, 0, 3])
    n['interval'] = rng.choice([-1, -1, 30, 0])
    n['cmds'] = rng.choice([[], ['JOIN #z'], ['PRIVMSG x :a;b', 'MODE me +i'], ['PRIVMSG q :a \\ b']])
    if name == 'nett':      # never connected to
        if rng.random() < 0.5:
            n['kind'] = 'program'
            n['where'] = '/dev/null/program -a;b'
        else:
            n['servers'] = [S('srvt', '669%d' % j, ssl=rng.random() < 0.7, **{'pass': maybe('p;w')}) for j in (0, 1)]
    else:
        n['where'] = maybe('127.0.0.1', 0.15)
        for j in range(rng.choice([0, 1, 1, 2])):
            n['servers'].append(S('srv' + name[-1], '66%d%d' % (i, j), **{'pass': maybe(rng.choice(['spw', 'a b', 'p;w'])), 'bind': maybe('127.0.0.1', 0.2)}))
    for c in rng.sample(CHANS, rng.choice([0, 1, 2, 3])):
        k = maybe(rng.choice(KEYS), 0.5)
        if own and '[' not in c and rng.random() < 0.2:
            n['chans'].append(C(c, k, rng.random() < 0.7, group=True))
        else:
            j = rng.random() < 0.7
            if j or k is not None:
                n['chans'].append(C(c, k, j))
    n['auto'] = rng.random() < 0.6 and name != 'nett'
    return n

def gen_cfg(rng, plain=False):
    g = {}
    if not plain:
        for k in BOOL[:6]:
            if rng.random() < 0.25:
                g[k] = rng.choice(['true', 'false'])
        for k in NUM[:4]:
            if rng.random() < 0.25:
                g[k] = rng.choice(['0', '5', '600'])
        for k in ('auto-away-message', 'auto-away-nick', 'default-client-charset', 'default-nick', 'default-fullname', 'motd-file', 'default-username'):
            if rng.random() < 0.25:
                g[k] = rng.choice(['me', 'UTF-8']) if k in ('default-nick', 'default-username', 'default-client-charset') else rng.choice(WORDS)
        if g.get('default-client-charset') == 'me':
            g['default-client-charset'] = 'ISO-8859-1'
        if rng.random() < 0.4:
            g['report-time'] = rng.choice(['always', 'never', 'replication'])
        if rng.random() < 0.3:
            g['replication'] = rng.choice(['none', 'simple', 'highlight', 'lastdisconnect'])
    if rng.random() < 0.5:
        g['admin-user'] = rng.choice(['adm', 'Adm'])
    if g.get('autosave') == 'false' and plain:
        del g['autosave']
    g.pop('auto-away-enable', None)
    cfg = {'g': g, 'nets': [], 'lsts': []}
    names = NAMES[:rng.choice([1, 2, 2, 3])] + (['nett'] if not plain and rng.random() < 0.3 else [])
    for i, nm in enumerate(names):
        own = rng.random() < 0.5
        if plain:
            n = N(nm, own=own, nick=rng.choice(['me', 'me', None]), auto=rng.random() < 0.5,
                  servers=[S('srv' + nm[-1], '66%d0' % i)] if rng.random() < 0.85 else [])
            if rng.random() < 0.4:
                n['chans'] = [C('#c', rng.choice([None, 'key']), True)]
        else:
            n = gen_net(rng, nm, i, own)
        cfg['nets'].append(n)
    if not plain and rng.random() < 0.3:
        g['logging'] = rng.choice(['irssi', 'custom'])
        if g['logging'] == 'custom':
            cfg['log'] = {'logfilename': rng.choice(['~log', 'logs of %N'])}
            for k in rng.sample(LOGKEYS, 5):
                cfg['log'][k] = rng.choice(['%h:%M %n %m', ' lead %m', 'a;b\\c %n'])
            cfg['log']['logfilename'] = '/dev/null/%N'
    r = rng.random()
    if r < 0.85:
        cfg['lsts'].append(L('5000', password='pw' if rng.random() < 0.9 or plain else None, network=rng.choice([None, 'neta']), default=True,
                             address=rng.choice([None, None, '127.0.0.1'])))
    if rng.random() < (0.15 if plain else 0.3):
        for q in rng.sample(['5010', '5011', '5012'], rng.choice([1, 2])):
            cfg['lsts'].append(L(q, password=rng.choice([None, 'pw', 'a b', 'x;y']), network=rng.choice([None, 'neta', names[-1]]),
                                 address=rng.choice([None, '127.0.0.1'])))
    if not plain and rng.random() < 0.2:
        cfg['lsts'].append(L('5020', password=rng.choice([None, 'pw']), network=rng.choice([None, 'neta']), default=not any(l['default'] for l in cfg['lsts']),
                             allow=rng.sample([['bob', 'pw'], ['joe', 'a;b'], ['any', '']], rng.choice([1, 2, 3]))))
    return cfg

def case(rng, s):
    r = rng.random()
    return s if r < 0.6 else s.upper() if r < 0.85 else s.capitalize()

SETTINGS = ['admin-log', 'admin-user', 'auto-away-enable', 'auto-away-client-limit', 'auto-away-message', 'auto-away-nick', 'auto-away-time',
            'autosave', 'bind', 'default-client-charset', 'default-network', 'learn-network-name', 'learn-nickserv', 'log_level', 'logging',
            'max_who_age', 'motd-file', 'password', 'port', 'report-time', 'report-time-offset', 'replication', 'default-nick',
            'default-username', 'default-fullname']
def values(s):
    if s in ('admin-log', 'auto-away-enable', 'autosave', 'learn-network-name', 'learn-nickserv'):
        return ['true', 'false', 'TRUE', 'False', 'maybe', '1']
    if s in ('auto-away-client-limit', 'auto-away-time', 'max_who_age', 'report-time-offset'):
        return ['0', '5', '600', '-3600', '-3600', '12x', 'many']
    if s == 'admin-user':
        return ['adm', 'Adm']
    if s == 'replication':
        return ['none', 'simple', 'highlight', 'lastdisconnect', 'Simple', 'twice']
    if s == 'report-time':
        return ['never', 'false', 'always', 'Replication', 'true', 'sometimes']
    if s == 'motd-file':
        return ['~/motd', '~/nothere', 'no such file']
    if s == 'port':
        return ['5000', '5007']
    if s == 'bind':
        return ['127.0.0.1']
    if s == 'default-network':
        return NAMES
    if s == 'default-client-charset':
        return ['UTF-8', 'ISO-8859-1']
    if s == 'log_level':
        return ['1', '5']
    if s == 'logging':
        return ['irssi']
    if s in ('default-nick', 'default-username'):
        return ['me', 'you', ':me', 'a b', 'x;y']
    if s == 'password':
        return ['pw', 'pw2', 'a b']
    return ['away', 'gone fishing', 'a;b', 'back\\slash', 'a = b', 'x']

def value(rng, s):
    return rng.choice(values(s))

def gen_command(rng, k):
    """Some command; k counts the listeners started."""
    n = lambda: case(rng, rng.choice(NAMES + ['netd', 'nowhere']))
    r = rng.random()
    c = lambda *a: [case(rng, a[0])] + list(a[1:])
    cut = lambda a: a if rng.random() < 0.93 else a[:rng.randrange(1, len(a) + 1)]
    if r < 0.10:
        return cut(rng.choice([c('addnetwork', n().lower()), c('network', 'add', n().lower()), c('addnetwork', rng.choice(['global', '#x', 'a[b', 'a/b', '.x', 'x~', 'socks', 'Listener']))]))
    if r < 0.16:
        return cut(rng.choice([c('delnetwork', n()), c('network', rng.choice(['del', 'delete', 'remove']), n())]))
    if r < 0.22:
        return cut(c('network', case(rng, 'rename'), n(), n().lower()))
    if r < 0.27:
        return rng.choice([c('listnetworks'), c('network', 'list')])
    if r < 0.29:
        return cut(rng.choice([c('network', 'info', n()), c('network', 'what'), c('network')]))
    if r < 0.37:
        m = rng.choice(NAMES + ['netd'])
        i = 'abcd'.index(m[-1])
        return cut(c('addserver', case(rng, m), rng.choice(['srv%s:66%d%d' % (m[-1], i, j) for j in (0, 1, 2, 2)] + ['srv%sx' % m[-1]])) + rng.choice([[], [], ['spw']]))
    if r < 0.46:
        return cut(c('connect', n()))
    if r < 0.53:
        return rng.choice([c('disconnect', n()), c('disconnect')])
    if r < 0.57:
        return rng.choice([c('nextserver', n()), c('nextserver')])
    if r < 0.62:
        return rng.choice([c('saveconfig'), c('saveconfig', '~/alt')])
    if r < 0.63:
        return c('set')
    if r < 0.76:
        s = rng.choice(SETTINGS + ['nosetting'])
        v = value(rng, s)
        return c('set', case(rng, s), *v.split(' ')) if rng.random() < 0.8 else c('set', case(rng, s))
    if r < 0.81:
        return cut(c('unset', case(rng, rng.choice(SETTINGS + ['nosetting']))))
    if r < 0.84:
        return c('echo', *rng.choice([[], ['a'], ['a', 'b', 'c']]))
    if r < 0.86:
        return c('help', *rng.choice([[], ['set'], ['nosuch']]))
    if r < 0.87:
        return c('detach')
    if r < 0.89:
        return cut(c('charset', rng.choice(['UTF-8', 'iso-8859-1', 'nosuch'])))
    if r < 0.90:
        return c('dumpjoinedchannels', *rng.choice([[], [n()]]))
    if r < 0.93:
        return cut(c('startlistener', rng.choice(['', '', '127.0.0.1:']) + '503%d' % next(k), 'pw') + rng.choice([[], [n()]]))
    if r < 0.96:
        return cut(c('stoplistener', rng.choice(['5000', '5030', '5031', '127.0.0.1:5030', '127.0.0.1:5000', '5099'])))
    if r < 0.98:
        return c('listlistener')
    return [rng.choice(['frobnicate', 'set-', 'netwrk', 'HELO'])] + rng.choice([[], ['x']])

def gen_line(rng):
    c = rng.choice(CHANS[:4])
    return rng.choice([':me!u@h JOIN ' + c, ':me!u@h JOIN ' + c, ':me!u@h PART ' + c, ':x!u@h KICK %s me :out' % c, ':op!u@h MODE %s +k %s' % (c, rng.choice(['key', 'k2'])),
                       ':op!u@h MODE %s -k key' % c, ':me!u@h NICK you', ':you!u@h NICK me', ':x!u@h PRIVMSG me :hello'])

def ops(rng, length, admin):
    k = iter(range(1000))
    out = []
    left = [9]
    while len(out) < length:
        r = rng.random()
        net = rng.choice(NAMES)
        if r < (0.5 if admin else 0.25):
            who = rng.choice(['adm', 'c1', 'c1', 'c2'])
            w = gen_command(rng, k)
            if w[0].lower() == 'startlistener' and left[0] == 0:
                continue
            if w[0].lower() == 'startlistener':
                left[0] -= 1
            if rng.random() < 0.02 and who == 'adm':
                w = []
            if who != 'adm' and any(x.startswith(':') for x in w):
                who = 'adm'
            if who != 'adm' and rng.random() < 0.3 and w:
                out.append(['msg', who, rng.choice(['adm', 'Adm', 'ADM', 'bob', '#c']), w])
            else:
                out.append(['cmd', who, w])
        elif r < (0.6 if admin else 0.33):
            out.append(['login', rng.choice(['c1', 'c2', 'c3']), rng.choice(NAMES[:2] + ['netc', '', 'newhost'] if not admin else NAMES)])
        elif r < 0.66:
            out.append(['up', net])
        elif r < 0.78:
            out.append(['line', net, gen_line(rng)])
        elif r < 0.81:
            out.append(['drop', net])
        elif r < 0.83:
            out.append(['close', rng.choice(['c1', 'c2'])])
        elif r < 0.87:
            out.append(['tick', rng.choice([1, 61])])
        elif r < 0.93:
            out.append(['save'])
        elif r < 0.96:
            out.append(['load', rng.choice(['~', '~/alt'])])
        else:
            out.append(['restart', rng.choice(['~', '~', '~/alt'])])
    return out

def scenario(rng, admin):
    cfg = gen_cfg(rng, plain=admin and rng.random() < 0.8)
    if admin:       # answers that can't be converted to the character set of the client are not sent
        cfg = json.loads(json.dumps(cfg).replace('\\u00ef', 'i').replace('\\u00e9', 'e'))
    pre = [['login', 'c1', rng.choice([n['name'] for n in cfg['nets'] if n['name'] != 'nett'])]] if admin else []
    pre += [['up', n['name']] for n in cfg['nets'] if rng.random() < 0.7]
    o = pre + ops(rng, rng.choice([8, 14, 22]), admin)
    if not admin:
        o += [['save'], ['load', '~'], ['restart', '~'], ['save'], ['load', '~']]
    return {'cfg': cfg, 'files': ['motd'], 'ops': o}

def sweep(rng):
    """Every setting with every value, kept on disk and read again; servers of networks made again."""
    out = []
    adm = lambda *w: ['cmd', 'adm', list(w)]
    again = [['save'], ['load', '~'], ['restart', '~']]
    for s in SETTINGS:
        vs = sorted(set(values(s)))
        for v in vs:
            o = [adm('set', s, *v.split(' ')), adm('set', s)] + again + [adm('set', s)]
            u = rng.choice(vs)
            o += rng.choice([[adm('unset', s)], [adm('set', s, *u.split(' '))]]) + [adm('set', s)] + again
            out.append(o)
    for own in (False, True):
        for first in ([], ['one']):
            for then in ([], ['two']):
                for kept in ([['save']], again):
                    out.append([adm('addserver', 'neta', 'srva:6600', *first)] + kept + [adm('delnetwork', 'neta')] + rng.choice([[], again])
                               + [adm('addnetwork', 'neta'), adm('addserver', 'neta', 'srva:6600', *then)] + again)
    return [{'cfg': {'g': {}, 'nets': [N('neta', own=rng.random() < 0.5, nick='me'), N('netb', own=rng.random() < 0.5, nick='me', servers=[S('srvb', '6610')])],
                     'lsts': [L('5000', password='pw', default=True)]}, 'files': ['motd'], 'ops': o} for o in out]

# ------------------------------------------------------------ behaviours of ConfigMC
def behaviour(h):
    """A history of the model: what it does to networks is done by commands, what happens on them by their servers."""
    cfg = {'g': {}, 'nets': [N('neta', own=True, nick='me', servers=[S('srva', '6667')])], 'lsts': [L('5000', password='pw', default=True)]}
    o = []
    for x in h:
        k = x[0]
        if k == 'add':
            o.append(['cmd', 'adm', ['addnetwork', x[1]]])
        elif k == 'del':
            o.append(['cmd', 'adm', ['delnetwork', x[1]]])
        elif k == 'rename':
            o.append(['cmd', 'adm', ['network', 'rename', x[1], x[2]]])
        elif k == 'server':
            o.append(['cmd', 'adm', ['addserver', x[1], 'srv' + x[1] + ':66%s0' % 'ab'.index(x[1][-1])] + ([x[2]] if x[2] else [])])
        elif k == 'on':
            o += [['cmd', 'adm', ['connect', x[1]]], ['up', x[1]]]
        elif k == 'off':
            o.append(['cmd', 'adm', ['disconnect', x[1]]])
        elif k == 'join':
            o.append(['line', x[1], ':me!u@h JOIN ' + x[2]])
            if x[3]:
                o.append(['line', x[1], ':op!u@h MODE %s +k %s' % (x[2], x[3])])
        elif k == 'part':
            o.append(['line', x[1], ':me!u@h PART ' + x[2]])
        elif k == 'nick':
            o.append(['line', x[1], ':me!u@h NICK you'])
        elif k == 'set':
            o.append(['cmd', 'adm', ['set', x[1], x[2]]])
        elif k == 'unset':
            o.append(['cmd', 'adm', ['unset', x[1]]])
        elif k == 'save':
            o += [['cmd', 'adm', ['saveconfig', x[1]]], ['load', x[1]]]
        elif k == 'restart':
            o.append(['restart', x[1]])
    return {'cfg': cfg, 'ops': o + [['save'], ['load', '~'], ['restart', '~']]}

def commands(h):
    """A history of AdminMC: commands of a client of neta, and what its servers do."""
    cfg = {'g': {}, 'nets': [N('neta', own=True, nick='me', servers=[S('srvneta', '6600')])], 'lsts': [L('5000', password='pw', default=True)]}
    o = [['login', 'c1', 'neta']]
    for x in h:
        o.append(['cmd', 'c1' if len(o) % 2 else 'adm', x[1]] if x[0] == 'cmd' else ['line', x[1], ':me!u@h JOIN #c'] if x[0] == 'join' else [x[0], x[1]])
        if o[-1][0] == 'cmd' and len(o[-1][2]) == 1 and o[-1][2][0] in ('disconnect', 'nextserver'):
            o[-1][1] = 'c1'
    return {'cfg': cfg, 'ops': o}

def scenario_of(kf):
    nets = [N(n, nick='me', own=False) for n, _, _ in kf['networks']]
    ops = [['cmd', 'adm', ['addserver', n, h + ':6667', p]] for n, h, p in kf['networks']]
    return {'cfg': {'g': {}, 'nets': nets, 'lsts': [L('5000', password='pw', default=True)]}, 'exact': kf['exact'], 'ops': ops + kf['ops']}
