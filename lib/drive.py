"""Driving the proxy: default configurations, login sequences, and turning recorded bytes into events."""
import json, re
from world import World, Died, write_config

EPOCH = 1000000000

def esc(s):
    """Recorded text as TLA+ can carry it: the CTCP delimiter becomes a tab, anything odd is spelled out."""
    o = []
    for c in s:
        n = ord(c)
        if n == 1:
            o.append('\t')
        elif 32 <= n < 127:
            o.append(c)
        else:
            o.append('{%02x}' % n)
    return ''.join(o)

def parse(raw):
    """A line of the wire protocol as <<origin, command, argument, ...>>."""
    s = raw
    origin = ''
    if s.startswith(':'):
        origin, _, s = s[1:].partition(' ')
        s = s.lstrip(' ')
    out = []
    while s != '':
        if s.startswith(':') and out:
            out.append(s[1:])
            break
        w, sep, s = s.partition(' ')
        out.append(w)
        if not sep:
            break
        s = s.lstrip(' ')
    return [esc(x) for x in [origin] + (out or [''])]

def unparse(l):
    """The wire form of <<origin, command, argument, ...>>."""
    a = [x.replace('\t', '\x01') for x in l]
    s = (':%s ' % a[0] if a[0] else '') + a[1]
    for i, x in enumerate(a[2:]):
        last = i == len(a) - 3
        s += ' ' + (':' + x if last and (x == '' or ' ' in x or x[0] == ':') else x)
    return s

def lines(data):
    """The complete lines of a byte string written by the proxy."""
    out = []
    for l in data.split('\n'):
        l = l.rstrip('\r')
        if l != '':
            out.append(l)
    return out

GLOBAL = {'report-time': 'never', 'port': '5000', 'password': 'pw', 'autoconnect': 'netA', 'default-network': 'netA'}
def net(**kw):
    d = {'nick': 'me', 'username': 'user', 'fullname': 'Real', 'servers': 'irc.a:6667;'}
    d.update(kw)
    return {k.replace('_', '-'): v for k, v in d.items() if v is not None}

ALL_LISTS = ['b', 'e', 'I']
def conv_state(st):
    """The dump of the harness in the shape State.tla's RecView reads."""
    ch = []
    for c in st['chans']:
        present = c.get('listp') or ''
        ls = []
        for m in ALL_LISTS:
            ents = c['lists'].get(m) or []
            ls.append([m, m in present, [[esc(x[0] or ''), esc(x[1] or '')] for x in ents]])
        ch.append({'name': esc(c['name']), 'hastopic': c['topic'] is not None, 'topic': esc(c['topic'] or ''),
                   'by': esc(c['topic_by'] or ''), 'at': c['topic_at'], 'created': c['created'],
                   'modes': c['modes'], 'got': bool(c['mode_received']),
                   'opts': [[k, esc(v or '')] for k, v in c['opts'].items()],
                   'lists': ls, 'nicks': [[esc(n['nick'] or ''), n['modes']] for n in c['nicks']]})
    me = st['me']
    return {'me': [esc(me['nick'] or ''), esc(me['user'] or ''), esc(me['host'] or '')], 'umodes': me['modes'],
            'away': bool(st['away']), 'chans': ch}

def start(w, glob=None, networks=None, listeners=None, files=None, before=()):
    d = w.new()
    for op in before:
        w.op(*op)
    w.partial = []
    g = dict(GLOBAL)
    for k, v in (glob or {}).items():
        if v is None:
            g.pop(k, None)
        else:
            g[k] = v
    write_config(d, g, networks or {'netA': {'': net()}}, listeners, files)
    return w.op('init', d)
