"""Connections to the listeners: recording bytes (events of GateTrace.tla)."""
from drive import *

LISTENERS = {'5000': {'pw': 'pw', 'users': [], 'net': 'netA'},
             '5001': {'pw': 'other', 'users': [], 'net': 'netB'},
             '5002': {'pw': 'pw', 'users': [], 'net': '-'},
             '5003': {'pw': 'pw', 'users': [['al', 'secret'], ['bo', 'x y']], 'net': '-'}}

def execute(w, sc):
    """sc: {open: listeners without passwords?, up: networks to connect, ops}"""
    ev = w.partial = []
    free = sc.get('free')
    glob = {'password': None if free else 'pw', 'autoconnect': ';'.join(sc['auto']) + ';' if sc['auto'] else None}
    nets = {n: {'': net(servers='irc.%s:%d;' % (n, 6000 + i))} for i, n in enumerate(['netA', 'netB'])}
    d = w.new()
    w.partial = ev
    g = dict(GLOBAL)
    for k, v in glob.items():
        if v is None:
            g.pop(k, None)
        else:
            g[k] = v
    write_config(d, g, nets, {'5001': {'password': 'other', 'network': 'netB'}, '5002': {}}, None)
    if not sc.get('implicit'):
        g['create-implicit'] = 'false'
        write_config(d, g, nets, {'5001': {'password': 'other', 'network': 'netB'}, '5002': {}}, None)
    for port in [6000, 6001, 6667, 9, 1] if not sc['auto'] else [6001, 6667, 9, 1] if len(sc['auto']) == 1 else [6667, 9, 1]:
        w.op('port', port, 'pending')
    with open(d + '/config', 'a') as f:
        f.write('[socks]\nport=5003\nallow=al:secret;bo:x y;\n')
    r = w.op('init', d)
    ls = []
    for p, x in LISTENERS.items():
        ls.append([p, '-' if free and x['pw'] == 'pw' else x['pw'], x['users'], x['net']])
    made = ['nope', 'irc.netA', 'secret'] if sc.get('implicit') else []
    ev.append({'e': 'reset', 'nets': [['netA', 'irc.netA', 6000], ['netB', 'irc.netB', 6001]] + [[x, '-', 0] for x in made], 'listeners': ls})
    conn, sname, alive, whole = {}, {}, {}, {}
    def conns(r):
        for x in r.get('ev') or []:
            if 'acc' in x and x['port'] in (6000, 6001) and not x.get('pending'):
                n = 'netA' if x['port'] == 6000 else 'netB'
                conn[x['acc']] = n
                sname[n] = x['acc']
                st = conv_state(w.op('dump', n)['st'])
                ev.append({'e': 'conn', 'net': n, 'nick': st['me'][0], 'user': st['me'][1], 'host': st['me'][2], 'out': [], 'closed': [], 'now': 0})
    def rec(r, **e):
        new = {x['acc'] for x in r.get('ev') or [] if 'acc' in x}
        o = []
        for p, dta in (r.get('io') or {}).items():
            if p in new:
                continue
            if p in conn:
                o.append([conn[p], [parse(x) for x in lines(dta)]])
            else:
                o.append([p, [ord(c) for c in dta]])
        e.update(out=o, now=EPOCH + r['t'], closed=[x['closed'] for x in r.get('ev') or [] if 'closed' in x and x['closed'] in alive])
        for c in e['closed']:
            del alive[c]
        ev.append(e)
        conns(r)
    conns(r)
    for op in sc['ops']:
        k = op[0]
        if k == 'open':
            rec(w.op('cconn', op[1], op[2]), e='open', c=op[1], port=str(op[2]))
            alive[op[1]] = 1
        elif k == 'data':
            whole[op[1]] = op[2].endswith('\n')
            if op[1] in alive:
                rec(w.op('send', op[1], op[2].encode('latin1')), e='data', k='data', c=op[1], bytes=[ord(x) for x in op[2]])
        elif k == 'close':
            if op[1] in alive and whole.get(op[1]):
                r = w.op('close', op[1])
                del alive[op[1]]
                rec(r, e='close', c=op[1])
        elif k == 'lost':
            if op[1] in sname:
                rec(w.op('close', sname.pop(op[1])), e='lost', net=op[1])
        elif k == 'srv':
            if op[1] in sname:
                rec(w.op('send', sname[op[1]], op[2] + '\r\n'), e='srv', net=op[1], line=parse(op[2]))
    w.end()
    return ev

# ---------------------------------------------------------------- scenarios
def socks_meth(ms):
    return '\x05' + chr(len(ms)) + ''.join(map(chr, ms))
def socks_auth(u, p, v=1):
    return chr(v) + chr(len(u)) + u + chr(len(p)) + p
def socks_req(host, port, cmd=1, atyp=3, v=5):
    return chr(v) + chr(cmd) + '\0' + chr(atyp) + chr(len(host)) + host + chr(port >> 8) + chr(port & 255)

def behaviour(h, free):
    """a behaviour of GateMC"""
    ops = []
    for n in ('netA', 'netB'):
        ops += [['srv', n, ':irc 001 me :Welcome'], ['srv', n, ':irc 376 me :End']]
    for o in h:
        if o[0] == 'open':
            ops.append(['open', o[1], int(o[2])])
        elif o[0] == 'data':
            ops.append(['data', o[1], ''.join(map(chr, o[2]))])
        else:
            ops.append(['srv', o[1], unparse(o[2])])
    return {'free': free, 'auto': ['netA', 'netB'], 'ops': ops}

def registration(rng):
    """connections which gave the password, on networks in any phase"""
    r = rng
    ops = []
    auto = r.choice([['netA', 'netB'], ['netA', 'netB'], ['netA'], []])
    for n in auto:
        m = r.random()
        if m < .7:
            ops += [['srv', n, ':irc 001 %s :Welcome' % r.choice(['me', 'me', 'other'])], ['srv', n, ':irc 376 me :End']]
        elif m < .8:
            ops += [['srv', n, ':irc 001 me :Welcome']]
    reg = ['NICK %s' % x for x in ('me', 'ME', 'zed', ':you', 'you more', 'me', '{m}', '[M]')] + ['USER u a b :r', 'USER u a b c', 'user v a b c d e', 'USER :u', 'USER u a', 'USER', 'NICK', 'NICK :', 'NICK :a b', 'USER u a b', 'USER a b c :']
    junk = ['PASS pw', 'PASS bad', 'JOIN #a', 'PRIVMSG #a :hi', 'PRIVMSG ctrlproxy :HELP', 'CTRLPROXY HELP', 'PING x', 'PONG x', 'QUIT', 'CONNECT netB', 'CONNECT nope', 'CONNECT', '', ':x', 'MODE me', 'AWAY :x', 'NOTICE zed :x', 'WHO', '001 me', 'ERROR :x', 'nick', 'KILL me']
    conns = ['k%d' % i for i in range(r.choice([1, 2, 2, 3]))]
    q = {}
    for c in conns:
        p = r.choice([5000, 5000, 5001, 5002])
        ops.append(['open', c, p])
        s = 'PASS %s\r\n' % ('other' if p == 5001 else r.choice(['pw', 'pw', 'pw:netB', 'pw:netA']))
        for _ in range(r.randint(0, 9)):
            s += r.choice(reg if r.random() < .6 else junk) + r.choice(['\r\n', '\r\n', '\n'])
        if r.random() < .7:
            x = ['NICK ' + r.choice(['me', 'zed']), 'USER u a b :r']
            r.shuffle(x)
            s += '\r\n'.join(x) + '\r\n'
        for _ in range(r.randint(0, 4)):
            s += r.choice(['USER v a b c', 'PASS pw', 'PASS bad', 'user', 'USER', 'PASS', 'PRIVMSG #a :%s' % c, 'PING t', 'pass x']) + '\r\n'
        q[c] = s
    while any(q.values()):
        c = r.choice([x for x in conns if q[x]])
        n = q[c].find('\n') + 1 if r.random() < .7 else r.randint(1, len(q[c]))
        ops.append(['data', c, q[c][:n]])
        q[c] = q[c][n:]
        if r.random() < .12:
            ops.append(['srv', r.choice(['netA', 'netB']), r.choice([':al!u@h PRIVMSG #a :seen', ':me!user@proxy.host NICK zed', ':irc 433 * me :In use', ':irc 376 me :End', ':irc 999 me :odd'])])
        if r.random() < .03:
            ops.append(['lost', r.choice(['netA', 'netB'])])
        if r.random() < .02:
            ops.append(['close', c])
    ops += [['srv', 'netA', ':al!u@h PRIVMSG #a :last'], ['srv', 'netB', ':al!u@h PRIVMSG #a :last']]
    return {'free': False, 'auto': auto, 'ops': ops}

def scenario(rng):
    r = rng
    ops = []
    implicit = r.random() < .25
    auto = r.choice([['netA', 'netB'], ['netA', 'netB'], ['netA'], []])
    for n in auto:
        if r.random() < .8:
            ops += [['srv', n, ':irc 001 me :Welcome'], ['srv', n, ':irc 376 me :End']]
    knock = ['PASS pw', 'PASS pw', 'PASS pw', 'PASS bad', 'PASS', 'PASS :', 'pass other', 'PASS other', 'PASS pw:netB', 'PASS pw:NETA', 'PASS pw:nope', 'PASS bad:netA', 'PASS pw:irc.netA',
             'PASS :pw', 'PASS pwx', 'PASS p', 'PASS PW', 'PASS pw extra', 'PASS secret', 'PASS al:secret', ':x PASS pw', 'PASS  pw', 'PASS :pw:netA', 'PASS pw:']
    if implicit:
        knock.remove('PASS pw:')
    other = ['NICK me', 'NICK zed', 'NICK', 'USER u a b :r', 'USER u', 'USER u a b', 'PRIVMSG #a :hi', 'JOIN #a', 'QUIT :x', 'PING x', 'PONG', 'CTRLPROXY HELP', 'CONNECT netB', 'CONNECT nope', 'CONNECT',
             '', ' ', ':x', ':o NICK me', 'OPER a b', 'nick me', 'CONNECT irc.netB 6001', 'WHOIS me', 'NICK you more', 'USER v w x y', 'PASSWORD pw', 'PAS pw']
    conns = {}
    for i in range(r.choice([1, 2, 2, 3])):
        conns['k%d' % i] = {'port': r.choice([5000, 5000, 5000, 5001, 5002, 5003]), 'open': False, 'q': ''}
    for c, x in conns.items():
        if x['port'] == 5003 and r.random() < .8 or r.random() < .15:
            s = socks_meth(r.choice([[2], [2], [0, 2], [0], [], [2, 0]]))
            for _ in range(r.choice([1, 1, 2])):
                s += socks_auth(*r.choice([('al', 'secret'), ('al', 'secret'), ('bo', 'x y'), ('al', 'wrong'), ('', ''), ('zz', 'pw'), ('al', 'secret2'), ('al', '')]), v=r.choice([1, 1, 1, 5, 2]))
                if r.random() < .5:
                    break
            s += socks_req(*r.choice([('irc.netA', 6000), ('irc.netA', 6000), ('netB', 9), ('nope', 1), ('irc.netA', 9 if implicit else 6001), ('IRC.NETB', 6001)]),
                           cmd=r.choice([1] * 8 + [2, 3]), atyp=r.choice([3] * 8 + [1, 4, 7]), v=r.choice([5] * 9 + [4]))
        else:
            s = ''
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                s += r.choice(knock + other) + r.choice(['\r\n', '\n'])
            if r.random() < .8:
                s += 'PASS %s\r\n' % {5001: 'other'}.get(x['port'], 'pw' if r.random() < .8 else 'pw:netB')
        for _ in range(r.randint(0, 5)):
            s += r.choice(other + other + knock) + r.choice(['\r\n', '\n'])
        if r.random() < .7:
            reg = ['NICK ' + r.choice(['me', 'me', 'zed']), 'USER u a b :r']
            r.shuffle(reg)
            s += '\r\n'.join(reg) + '\r\n'
        for _ in range(r.randint(0, 3)):
            s += r.choice(['PRIVMSG #a :one %s' % c, 'JOIN #b', 'USER u a b :r', 'PASS pw', 'PING t', 'PRIVMSG #a :two', 'NICK you']) + '\r\n'
        x['q'] = s
    k = 0
    while any(x['q'] or not x['open'] for x in conns.values()) and k < 60:
        k += 1
        c = r.choice(list(conns))
        x = conns[c]
        if not x['open']:
            x['open'] = True
            ops.append(['open', c, x['port']])
        elif x['q']:
            m = r.random()
            n = r.randint(1, 6) if m < .25 else r.randint(1, 40) if m < .6 else x['q'].find('\n') + 1 or len(x['q']) if m < .8 else len(x['q'])
            ops.append(['data', c, x['q'][:n]])
            x['q'] = x['q'][n:]
        if r.random() < .12:
            ops.append(['srv', r.choice(['netA', 'netB']), r.choice([':al!u@h PRIVMSG #a :seen', ':al!u@h NOTICE me :x', ':irc 999 me :odd', ':irc 376 me :End'])])
        if r.random() < .02:
            ops.append(['close', c])
    ops.append(['srv', 'netA', ':al!u@h PRIVMSG #a :last'])
    ops.append(['srv', 'netB', ':al!u@h PRIVMSG #a :last'])
    return {'free': r.random() < .15, 'implicit': implicit, 'auto': auto, 'ops': ops}
