"""ctrlproxyd and the proxies behind it: recording bytes (events of DaemonTrace.tla)."""
import os
from drive import *
import gate

def data(s):
    return [ord(x) for x in s]

def execute(w, sc):
    """sc: {users: [[name, pid?, sock?]], spawn: can proxies be started, ops}"""
    ev = w.partial = []
    d = w.new()
    w.partial = ev
    socks = []
    for u, pid, sock in sc['users']:
        os.makedirs(d + '/conf/' + u, exist_ok=True)
        if pid:
            with open('%s/conf/%s/pid' % (d, u), 'w') as f:
                f.write(str(os.getpid()))
        elif sc.get('stale'):
            with open('%s/conf/%s/pid' % (d, u), 'w') as f:
                f.write('4194999')
        if sock:
            socks.append(u)
    ran = d + '/ran'
    with open(d + '/run', 'w') as f:
        f.write('#!/bin/sh\necho "$@" >>%s\n' % ran)
    os.chmod(d + '/run', 0o755)
    with open(d + '/daemon.conf', 'w') as f:
        f.write('[settings]\nconfigdir=%s/conf\nport=6667\naddress=0.0.0.0\nctrlproxy-path=%s\n' % (d, d + '/run' if sc['spawn'] else d + '/nothing'))
    for u in socks:
        w.op('listen', u, '%s/conf/%s/socket' % (d, u))
    w.op('daemon', d + '/daemon.conf')
    w.op('reap')
    if os.path.exists(ran):
        os.unlink(ran)
    ev.append({'e': 'reset', 'users': [list(u) for u in sc['users']], 'spawn': bool(sc['spawn'])})
    alive, whole, back = set(), {}, 0
    def started():
        if not os.path.exists(ran):
            return []
        with open(ran, encoding='latin1') as f:
            ls = f.read().split('\n')[:-1]
        os.unlink(ran)
        pre, post = '--config-dir %s/conf/' % d, ' --restricted'
        return [esc(x[len(pre):-len(post)]) if x.startswith(pre) and x.endswith(post) else 'odd: ' + x for x in ls]
    down = any(not u[1] for u in sc['users']) or sc.get('strangers')
    def rec(r, **e):
        nonlocal back
        out = {}
        evs = r.get('ev') or []
        for p, x in (r.get('io') or {}).items():
            out[p] = out.get(p, '') + x
        if down and e['e'] == 'data' and sc['spawn']:
            r = w.op('reap')
            evs = evs + (r.get('ev') or [])
            for p, x in (r.get('io') or {}).items():
                out[p] = out.get(p, '') + x
        acc = [x for x in evs if 'acc' in x]
        for x in acc:
            back += 1
            assert x['acc'] == 'b%d' % back
            alive.add(x['acc'])
        e['out'] = [[p, data(x)] for p, x in out.items()]
        e['acc'] = [x['inst'] for x in acc]
        e['ran'] = started()
        e['closed'] = [x['closed'] for x in evs if 'closed' in x and x['closed'] in alive]
        for p in e['closed']:
            alive.discard(p)
        ev.append(e)
    for op in sc['ops']:
        k = op[0]
        if k == 'open':
            alive.add(op[1])
            rec(w.op('cconn', op[1], '6667'), e='open', c=op[1])
        elif k == 'data' and op[1] in alive:
            whole[op[1]] = op[2].endswith('\n')
            rec(w.op('send', op[1], op[2].encode('latin1')), e='data', c=op[1], bytes=data(op[2]))
        elif k == 'back' and 'b%d' % op[1] in alive:
            whole['b%d' % op[1]] = op[2].endswith('\n')
            rec(w.op('send', 'b%d' % op[1], op[2].encode('latin1')), e='back', b=op[1], bytes=data(op[2]))
        elif k == 'close' and op[1] in alive and whole.get(op[1], True):
            alive.discard(op[1])
            rec(w.op('close', op[1]), e='close', c=op[1])
        elif k == 'bclose' and 'b%d' % op[1] in alive and whole.get('b%d' % op[1], True):
            alive.discard('b%d' % op[1])
            rec(w.op('close', 'b%d' % op[1]), e='bclose', b=op[1])
        elif k == 'stall' and op[1] in alive:
            rec(w.op('stall', op[1], int(op[2])), e='stall', p=op[1], on=bool(op[2]))
        elif k == 'tick':
            rec(w.op('tick', op[1]), e='tick')
    if sc.get('quit'):
        w.op('quit')
    w.end()
    return ev

USERS = [['al', True, True], ['bo', True, False], ['ce', False, True]]

def behaviour(h):
    """a behaviour of DaemonMC"""
    ops = [[o[0], o[1], ''.join(map(chr, o[2]))] if len(o) > 2 else list(o) for o in h]
    return {'users': USERS, 'spawn': True, 'ops': ops, 'quit': True}

def text(r):
    return r.choice(['hi', 'a b  c', ' lead', 'trail ', ':colon', '', '\x01ACTION x\x01', 'x' * 300, 'caf\xe9', '\x02bold', '464', 'PASS OK'])

def any_line(r):
    m = r.random()
    o = r.choice(['', '', ':me ', ':al!u@h ', ':irc.net '])
    if m < .5:
        s = '%sPRIVMSG %s :%s' % (o, r.choice(['#a', 'me', '&x', 'al,#b']), text(r))
    elif m < .6:
        s = '%s%03d me %s' % (o, r.choice([1, 4, 5, 353, 366, 376, 433, 464]), r.choice(['x', ':a b', 'a b :c']))
    elif m < .9:
        s = o + r.choice(['JOIN #a', 'PART #a :bye', 'MODE #a +o me', 'PING x', 'PING :a b', 'PONG', 'NICK you', 'AWAY', 'AWAY :', 'QUIT :bye', 'USER a b c d', 'PASS again', 'CONNECT h 1', 'NOTICE AUTH :PASS OK',
                          'WHO #a  %', 'join #b', 'TOPIC #a :', 'ERROR :x', 'SERVER', 'A B C D E F G H I J K L M N O P'])
    elif m < .95:
        s = 'X' * r.choice([1, 400, 510, 600, 2000])
    else:
        s = r.choice([':', ':x', ' ', '', ':x  y z'])
    return s + r.choice(['\r\n', '\r\n', '\n'])

def scenario(r):
    users = [['al', True, True], ['bo', True, r.random() < .8], ['ce', r.random() < .5, r.random() < .8], ['x' * 90, True, False]]
    names = ['al'] * 6 + ['bo'] * 3 + ['ce', 'ce', 'zz', 'AL', '..', '../al', 'al/', '.', 'x' * 90, 'x' * 250, 'al/../bo', 'al.']
    ops, conns = [], {}
    for i in range(r.choice([1, 2, 2, 3, 4])):
        c = 'k%d' % i
        u, pw = r.choice(names), r.choice(['pw', 'pw', 'a:b', ':x', 'p w', ''])
        live = ''
        if r.random() < .3:
            s = gate.socks_meth(r.choice([[2], [2], [2], [0, 2], [0], []]))
            steps = [s, gate.socks_auth(u, pw or 'pw', v=r.choice([1] * 8 + [5, 2])),
                     gate.socks_req(r.choice(['irc.net', 'h', 'H' * 127, 'h' * 128, 'h' * 255]), r.choice([6667, 1, 256, 65535]),
                                    cmd=r.choice([1] * 9 + [2]), atyp=r.choice([3] * 9 + [1, 4]), v=r.choice([5] * 9 + [4]))]
            if r.random() < .1:
                steps = [''.join(steps)]
            elif r.random() < .1:
                steps = [steps[0], steps[1] + steps[2]]
            q = [['socks', x] for x in steps]
        else:
            ls = ['PASS %s' % (':' + pw if ' ' in pw or pw == '' or r.random() < .3 else pw), 'NICK ' + r.choice(['me', ':me', 'a b']),
                  'USER %s a b :%s' % (u, r.choice(['Real', 'Real name', '']))]
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                ls.append(r.choice(['CONNECT irc.net 6667', 'CONNECT irc.net', 'CONNECT', 'PASS', 'NICK', 'NICK other', 'PASS other', 'USER short', 'JOIN #a', 'PING x', 'PRIVMSG #a :x',
                                    'CAP LS', 'user bo 1 2 :x', 'nick low', 'pass low', '', ':x', ':o NICK me', 'USER  a b :c']))
            r.shuffle(ls)
            if r.random() < .04:
                ls.insert(r.randint(0, len(ls)), 'QUIT')
            x = '\r\n'.join(ls) + '\r\n'
            q = []
            while x:
                m = r.random()
                n = len(x) if m < .4 else x.find('\n') + 1 if m < .8 else r.randint(1, len(x))
                q.append(['x', x[:n]])
                x = x[n:]
        conns[c] = {'q': q, 'open': False, 'n': r.randint(0, 12)}
    nb = 0
    answered = set()
    for _ in range(r.randint(10, 70)):
        c = r.choice(list(conns))
        x = conns[c]
        m = r.random()
        if not x['open']:
            x['open'] = True
            ops.append(['open', c])
        elif m < .45 and x['q']:
            ops.append(['data', c, x['q'].pop(0)[1]])
            nb += 1
        elif m < .5:
            ops.append(['data', c, ''.join(any_line(r) for _ in range(r.choice([1, 1, 2, 5])))] if not x['q'] or r.random() < .05 else ['tick', 1])
        elif m < .75 and not x['q']:
            z = ''.join(any_line(r) for _ in range(r.choice([1, 1, 2, 5])))
            k = r.choice([0, 0, r.randint(1, len(z))])
            if k:
                ops.append(['data', c, z[:k]])
            ops.append(['data', c, z[k:]])
        elif m < .97 and nb:
            k = r.randint(1, min(nb, 4))
            if k not in answered or r.random() < .05:
                if r.random() < .9:
                    answered.add(k)
                z = r.choice(['NOTICE AUTH :PASS OK\r\n'] * 16 + [':p NOTICE AUTH :PASS OK\r\n', ':p 464 * :no\r\n', '464\r\n', 'ERROR :bye\r\n', 'NOTICE\r\n', 'NOTICE AUTH\r\n', 'NOTICE AUTH PASS OK\r\n', 'NOTICE auth :PASS OK\r\n',
                                                                    'NOTICE AUTH :PASS OK \r\n', 'notice AUTH :PASS OK\r\n', ':p\r\n', '\r\n', '4641 x\r\n', 'PASS OK\r\n', 'NOTICE AUTH :PASS OKAY\r\n', 'NOTICE me :PASS OK\r\n',
                                                                    'NOTICE * :PASS OK\r\n', 'NOTICE AUTHENTICATED :PASS OK\r\n', 'PRIVMSG AUTH :PASS OK\r\n', 'NOTICE AUTH PASS :OK\r\n', 'NOTICE AUTH :PASS OK OK\r\n', 'NOTICE PASS OK\r\n'])
                if r.random() < .3:
                    z += any_line(r)
                if r.random() < .05:
                    ops.append(['back', k, z[:3]])
                    z = z[3:]
                ops.append(['back', k, z])
            else:
                ops.append(['back', k, ''.join(any_line(r) for _ in range(r.choice([1, 1, 2, 6])))])
        elif m < .98:
            ops.append(['close', c])
        elif m < .985 and nb:
            ops.append(['bclose', r.randint(1, nb)])
        elif nb:
            p = r.choice([c, 'b%d' % r.randint(1, min(nb, 4))])
            ops.append(['stallable', p])
    # a side that doesn't take anything for a while
    res, off = [], []
    for o in ops:
        if o[0] != 'stallable':
            res.append(o)
    return {'users': users, 'spawn': r.random() < .8, 'stale': r.random() < .3, 'strangers': True, 'ops': res, 'quit': r.random() < .5}

def bridges(r):
    """bridged connections, either side of which may stop reading"""
    ops, n = [], r.choice([1, 2, 3])
    for i in range(n):
        ops += [['open', 'k%d' % i], ['data', 'k%d' % i, 'PASS pw\r\nNICK n%d\r\nUSER al a b :r\r\n' % i], ['back', i + 1, 'NOTICE AUTH :PASS OK\r\n']]
    st = {}
    for _ in range(r.randint(5, 40)):
        i = r.randrange(n)
        m = r.random()
        if m < .15:
            p = r.choice(['k%d' % i, 'b%d' % (i + 1)])
            st[p] = not st.get(p)
            ops.append(['stall', p, st[p]])
        else:
            z = ''.join(any_line(r) for _ in range(r.choice([1, 1, 3, 20])))
            k = r.choice([0, 0, r.randint(1, len(z))])
            for y in (z[:k], z[k:]):
                if y:
                    ops.append(['data', 'k%d' % i, y] if m < .6 else ['back', i + 1, y])
            if r.random() < .01:
                ops.append(r.choice([['close', 'k%d' % i], ['bclose', i + 1]]))
    for p, on in st.items():
        if on:
            ops.append(['stall', p, False])
    ops += [r.choice([['close', 'k0'], ['bclose', 1], ['tick', 1]])]
    return {'users': USERS, 'spawn': True, 'ops': ops, 'quit': True}
