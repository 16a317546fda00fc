"""Running several clients and networks, recording what went where (events of MuxTrace.tla)."""
import re
from drive import *

def raw_out(r):
    """What the proxy wrote during an operation: {peer: [raw lines]}."""
    return {p: lines(d) for p, d in (r.get('io') or {}).items()}

class MuxRun:
    def __init__(self, w, sc, chk, netconf=None):
        self.w, self.sc = w, sc
        self.names = sc['nets']
        self.conn = {}               # server connection name -> network
        self.sname = {}              # network -> current server connection
        nets = {}
        self.ports = {}
        autoc, joins = sc.get('autocmd', {}), sc.get('join', {})
        for i, n in enumerate(self.names):
            p = 6000 + i
            self.ports[p] = n
            nc = net(servers='irc.%s:%d;' % (n, p), nick=sc.get('nick', {}).get(n, 'me'))
            if n in autoc:
                nc['autocmd'] = ''.join(x + ';' for x in autoc[n])
            nc.update((netconf or {}).get(n, {}))
            groups = {'': nc}
            for c, k in joins.get(n, []):
                groups[c] = {'autojoin': 'true'}
                if k:
                    groups[c]['key'] = k
            nets[n] = groups
        glob = {'report-time': 'always' if sc.get('report') else 'never', 'autoconnect': ';'.join(self.names) + ';',
                'default-network': self.names[0]}
        if sc.get('offset'):
            glob['report-time-offset'] = str(sc['offset'])
        glob.update(sc.get('glob', {}))
        w.partial = []
        r = start(w, glob, nets)
        self.ev = w.partial = [{'e': 'reset', 'chk': chk, 'report': bool(sc.get('report')), 'replayed': sc.get('glob', {}).get('replication', 'none') in ('simple', 'lastdisconnect'), 'offset': sc.get('offset', 0),
                    'nets': [{'name': n, 'autocmd': [parse(x) for x in autoc.get(n, [])],
                              'join': [parse('JOIN %s%s' % (c, ' ' + k if k else '')) for c, k in joins.get(n, [])]}
                             for n in self.names]}]
        self.clients = {}
        self.accepted(r)

    def accepted(self, r):
        for e in r.get('ev') or []:
            if 'acc' in e:
                n = self.ports[e['port']]
                self.conn[e['acc']] = n
                self.sname[n] = e['acc']
                st = conv_state(self.w.op('dump', n)['st'])
                self.ev.append({'e': 'conn', 'net': n, 'nick': st['me'][0], 'user': st['me'][1], 'host': st['me'][2],
                                'out': [], 'now': 0})

    def out(self, r, drop_ping=False):
        o = []
        for p, ls in raw_out(r).items():
            ls = [parse(x) for x in ls]
            if drop_ping:
                ls = [x for x in ls if x[1] != 'PING']
            ls = [x for x in ls if not (x[1] == 'NOTICE' and x[2:3] == ['*'])]
            if ls:
                o.append([self.conn.get(p, p), ls])
        return o

    def do(self, op):
        w = self.w
        k = op[0]
        if k == 'srv':
            s = self.sname.get(op[1])
            if s is None:
                return
            r = w.op('send', s, ''.join(x + '\r\n' for x in op[2]))
            ls = [parse(x) for x in op[2]]
            self.ev.append({'e': 'srv', 'k': 'srv ' + ls[0][1], 'net': op[1], 'lines': ls, 'now': EPOCH + r['t'], 'out': self.out(r)})
        elif k == 'cli':
            if op[1] not in self.clients:
                return
            r = w.op('send', op[1], ''.join(x + '\r\n' for x in op[2]))
            ls = [parse(x) for x in op[2]]
            self.ev.append({'e': 'cli', 'k': 'cli ' + ls[0][1], 'c': op[1], 'lines': ls, 'now': EPOCH + r['t'], 'out': self.out(r)})
        elif k == 'attach':
            _, c, n, nick, user = op
            if c in self.clients:
                return
            w.op('cconn', c, 5000)
            self.clients[c] = n
            r = w.op('send', c, 'PASS pw:%s\r\nNICK %s\r\nUSER %s a b :Real\r\n' % (n, nick, user))
            self.ev.append({'e': 'attach', 'c': c, 'net': n, 'nick': nick, 'user': user, 'host': 'localhost', 'now': EPOCH + r['t'], 'out': self.out(r)})
        elif k == 'detach':
            if op[1] not in self.clients:
                return
            r = w.op('close', op[1])
            del self.clients[op[1]]
            self.ev.append({'e': 'detach', 'c': op[1], 'now': EPOCH + r['t'], 'out': self.out(r)})
        elif k == 'lost':
            s = self.sname.pop(op[1], None)
            if s is None:
                return
            r = w.op('close', s)
            self.ev.append({'e': 'lost', 'net': op[1], 'now': EPOCH + r['t'], 'out': self.out(r)})
            self.accepted(r)
        elif k == 'idle':
            r = w.op('tick', op[1])
            n0 = len(self.ev)
            for p, ls in raw_out(r).items():
                if p in self.conn and any(x.startswith('PING') for x in ls):
                    w.op('send', p, ':irc PONG irc :x\r\n')
            for e in r.get('ev') or []:
                n = self.conn.get(e.get('closed'))
                if n and self.sname.get(n) == e['closed']:
                    del self.sname[n]
                    self.ev.append({'e': 'lost', 'net': n, 'now': EPOCH + r['t'], 'out': self.out(r, True)})
            self.accepted(r)
            if len(self.ev) == n0:
                self.ev.append({'e': 'idle', 'now': EPOCH + r['t'], 'out': self.out(r, True)})
        for e in r.get('ev') or []:
            if 'closed' in e:
                c = e['closed']
                if c in self.clients and self.ev[-1]['e'] != 'detach':
                    del self.clients[c]

def runner(chk, netconf=None):
    def execute(w, sc):
        m = MuxRun(w, sc, chk, netconf)
        for op in sc['ops']:
            m.do(op)
        w.end()
        return m.ev
    return execute

def login(n, nick='me'):
    return [['srv', n, [':irc.%s 001 %s :Welcome' % (n, nick), ':irc.%s 376 %s :End of MOTD' % (n, nick)]]]
