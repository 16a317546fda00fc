"""Advertised capabilities (events of IsupportTrace.tla)."""
from drive import *

def words(s):
    return [esc(x) for x in s.split(' ') if x != '']

def execute(w, sc):
    """sc: {tokens: [[token...]...]} or {ops: [...]}"""
    ev = w.partial = []
    start(w, networks={'netA': {'': net()}})
    w.partial = ev
    ev.append({'e': 'reset'})
    if 'tokens' in sc:
        for ts in sc['tokens']:
            r = w.op('isup', *ts)
            ev.append({'e': 'tokens', 'toks': [esc(t) for t in ts], 'words': words(r['feature']), 'cls': r['cls'], 'mark': r['mark'], 'status': r['status'], 'chan': r['chan']})
        w.end()
        return ev
    s, n = 's1', 1
    ev.append({'e': 'conn'})
    for i, op in enumerate(sc['ops']):
        if op[0] == 'srv':
            w.op('send', s, op[1] + '\r\n')
            ev.append({'e': 'srv', 'line': parse(op[1])})
        elif op[0] == 'lost':
            w.op('close', s)
            r = w.op('tick', 61)
            for e in r.get('ev') or []:
                if 'acc' in e:
                    s = e['acc']
                    ev.append({'e': 'conn'})
        elif op[0] == 'attach':
            c = 'c%d' % n
            n += 1
            w.op('cconn', c, 5000)
            r = w.op('send', c, 'PASS pw\r\nNICK me\r\nUSER u a b :r\r\n')
            ls = [parse(x) for x in lines((r.get('io') or {}).get(c, ''))]
            fs = [x for x in ls if x[1] == '005']
            ev.append({'e': 'attach', 'words': [y for x in fs for y in x[3:-1]], 'most': max([len(x) - 2 for x in fs] + [0])})
            w.op('close', c)
    w.end()
    return ev

TOKS = {'CASEMAPPING': ['ascii', 'rfc1459', 'strict-rfc1459', 'ASCII', 'rfc3454', ''],
        'PREFIX': ['(ov)@+', '(qaohv)~&@%+', '(o)@', '()', '', '(ov', 'ov)@+', '(ohv)@%', '(o)@+%', '(yqaohv)!~&@%+'],
        'CHANMODES': ['beI,k,l,imnpst', 'b,k,l,imnt', 'b,k,l', ',,,', 'eIbq,k,flj,CFLMPQcgimnprstz', 'b,k,l,i,m', 'x', ''],
        'CHANTYPES': ['#', '#&', '&#+!', '', '~'], 'NETWORK': ['Foo', 'Bar.Net', ''], 'ELIST': ['MNUCT', 'M', 'UC', 'zM', '', 'mnu'],
        'EXTBAN': ['~,cqr', '$,a', ',r', '~', '', '~,a,b'], 'SILENCE': ['15', '0', '', 'x'], 'EXCEPTS': ['e', '', 'xy'], 'INVEX': ['I', '', 'xy'], 'DEAF': ['D', '', 'zz'],
        'CHARSET': ['utf-8', 'ascii', ''], 'MAXLIST': ['b:50', 'be:60,I:10', ''], 'IDCHAN': ['!:5', ''], 'STATUSMSG': ['@+', '@', ''], 'CHANLIMIT': ['#:20', '#&:10', ''], 'IRCD': ['foo', '']}
NUMS = ['NICKLEN', 'MAXNICKLEN', 'USERLEN', 'HOSTLEN', 'CHANNELLEN', 'MAXCHANNELLEN', 'AWAYLEN', 'KICKLEN', 'TOPICLEN', 'WATCH', 'MAXPARA', 'MAXCHANNELS', 'MAXTARGETS', 'MAXBANS', 'MODES', 'KEYLEN']
FLAGS = ['OVERRIDE', 'VBANLIST', 'REMOVE', 'WALLCHOPS', 'MAP', 'SSL', 'WALLVOICES', 'RFC2812', 'PENALTY', 'FNC', 'SAFELIST', 'USERIP', 'CPRIVMSG', 'CNOTICE', 'KNOCK', 'CAPAB', 'HCN', 'VCHANNELS', 'WHOX', 'CALLERID', 'ACCEPT', 'ESILENCE', 'UHNAMES', 'NAMESX', 'SECURELIST']

def token(rng, safe=False):
    x = rng.random()
    if x < .5:
        k = rng.choice(list(TOKS))
        t = k if rng.random() < .12 else '%s=%s' % (k, rng.choice(TOKS[k]))
    elif x < .75:
        k = rng.choice(NUMS)
        t = k if rng.random() < .1 else '%s=%s' % (k, rng.choice(['0', '1', '9', '30', '307', '', 'abc', '12x', '0017']))
    elif x < .93:
        t = rng.choice(FLAGS) + rng.choice(['', '', '', '', '=', '=1'])
    else:
        t = rng.choice(['FOO', 'FOO=bar', '-KNOCK', 'NICKLEN2=5', 'PREFIXES=(ov)@+', '=', 'CASE=ascii', 'TARGMAX=NAMES:1', 'CLIENTVER=3.0', 'x=y=z', 'NETWORK=a=b'])
    return t.lower() if rng.random() < .04 and '=' not in t else t

def tokens(rng):
    return [token(rng) for _ in range(rng.choice([1, 3, 8, 30]))]

def scenario(rng):
    ops = []
    def caps():
        for _ in range(rng.randint(1, 3)):
            ts = [t for t in [token(rng) for _ in range(rng.randint(0, 12))] if not t.upper().startswith('CHARSET')]
            ops.append(['srv', (':irc.a 005 me %s%s' % (''.join(t + ' ' for t in ts), rng.choice([':are supported by this server'] * 6 + ['', ':', 'x']))).strip()])
    for k in range(rng.randint(1, 3)):
        ops.append(['srv', ':irc.a 001 me :Welcome'])
        if rng.random() < .5:
            ops.append(['srv', ':irc.a 004 me irc.a x iowx biklmnopstv'])
        if rng.random() < .9:
            caps()
        ops.append(['srv', ':irc.a %s me :End' % rng.choice(['376', '422'])])
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < .3:
                caps()
            ops.append(['attach'])
        ops.append(['lost'])
        if rng.random() < .3:
            ops.append(['attach'])
    return {'ops': ops}
