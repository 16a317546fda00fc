"""Peers that misbehave, and everybody else going on being served (events of ServeTrace.tla)."""
import gen_mux, gate, mux
from drive import *

NETS = ['netA', 'netB']

def plain(x):
    """without the time in front of the text"""
    return x[:-1] + [re.sub(r'^\[\d\d:\d\d:\d\d\] ', '', x[-1])]

def execute(w, sc):
    """sc: {glob, log, ops}"""
    nets = {n: {'': net(servers='irc.%s:%d;' % (n, 6000 + i), **sc.get('net', {}))} for i, n in enumerate(NETS)}
    for c, k in sc.get('join', []):
        nets['netA'][c] = {'autojoin': 'true'}
        if k:
            nets['netA'][c]['key'] = k
    glob = {'autoconnect': 'netA;netB;'}
    glob.update(sc.get('glob') or {})
    d = w.new()
    ev = w.partial = []
    g = dict(GLOBAL)
    g.update(glob)
    if sc.get('log') == 'irssi':
        g['irssi-log'] = d + '/logs'
    write_config(d, g, nets, {'5003': {'allow': 'al:secret;'}}, None)
    if sc.get('log') == 'custom':
        with open(d + '/config', 'a') as f:
            f.write('\n[log-custom]\nlogfilename=%s/logs/%%N/%%@\n' % d + sc['formats'])
    sname, conn, alive, dirty = {}, {}, set(), {}
    tok = 0
    ev.append({'e': 'reset', 'nets': NETS})
    def adopt(r):
        got = []
        for x in r.get('ev') or []:
            if 'acc' in x and x['port'] in (6000, 6001):
                n = NETS[x['port'] - 6000]
                conn[x['acc']] = n
                sname[n] = x['acc']
                got.append(n)
            elif 'acc' in x:
                got.append('stray %s' % x['port'])
        return got
    def rec(r, hit=None, me=None, **e):
        who, hits = [], []
        servers = set(sname.values())
        new = adopt(r)
        for p, dta in (r.get('io') or {}).items():
            ls = [parse(x) for x in lines(dta)]
            # the proxy telling its clients what it is doing
            if not all(x[1] == 'NOTICE' and x[2:3] == ['*'] for x in ls):
                if conn.get(p, p) not in who:
                    who.append(conn.get(p, p))
            if hit:
                h = [hit(x) for x in ls]
                h = [x for x in h if x]
                if h:
                    hits.append([conn.get(p, p), h])
        closed = [x['closed'] for x in r.get('ev') or [] if 'closed' in x and (x['closed'] in alive or x['closed'] in servers)]
        e.update(who=who, hits=hits, closed=[conn.get(p, p) for p in closed])
        for p in closed:
            if p in conn:
                if sname.get(conn[p]) == p:
                    del sname[conn[p]]
            else:
                alive.discard(p)
        e['acc'] = new
        ev.append(e)
    def peer(p):
        return sname.get(p) if p in NETS else p if p in alive else None
    def tidy(p):
        """a line begun is completed before anything else is said"""
        if dirty.get(p) and p in stalled:
            do(['flow', p])
        if dirty.pop(p, None) and peer(p):
            rec(w.op('send', peer(p), '\r\n'), e='bad', p=p)
    settled = set()
    def settle(n):
        tidy(n)
        if n in sname and n not in settled:
            rec(w.op('send', sname[n], ':irc.%s 001 me :Welcome\r\n:irc.%s 376 me :End\r\n' % (n, n)), e='settle', net=n)
            settled.add(n)
    inn = {}
    r = w.op('init', d)
    w.op('lstate')
    adopt(r)
    stalled = {}
    def do(op):
        nonlocal tok
        k = op[0]
        for p in [p for p in stalled if stalled[p] != peer(p)]:
            del stalled[p]
        if k in ('bad', 'cut') and op[1] in stalled:
            # one that closes its connection without reading is only gone once it read
            do(['flow', op[1]])
        if k == 'bad' and peer(op[1]):
            x = op[2].encode('latin1')
            if op[1] in NETS:
                settled.discard(op[1])
            dirty[op[1]] = not op[2].endswith('\n')
            rec(w.op('send', peer(op[1]), x), e='bad', p=op[1])
        elif k == 'open':
            alive.add(op[1])
            rec(w.op('cconn', op[1], op[2] if len(op) > 2 else 5000), e='open', c=op[1])
        elif k == 'login' and op[1] in alive and op[1] not in inn and not dirty.get(op[1]) and op[1] not in stalled:
            inn[op[1]] = op[2]
            rec(w.op('send', op[1], 'PASS pw:%s\r\nNICK me\r\nUSER u a b :Real\r\n' % op[2]), hit=lambda x: '001' if x[1] == '001' else None, e='login', c=op[1], net=op[2])
        elif k == 'hang' and peer(op[1]) and not dirty.get(op[1]):
            alive.discard(op[1])
            rec(w.op('close', op[1]), e='hang', p=op[1])
        elif k == 'lost' and peer(op[1]) and not dirty.get(op[1]):
            rec(w.op('close', sname.pop(op[1])), e='lost', p=op[1])
            settled.discard(op[1])
        elif k == 'cut' and peer(op[1]):
            # goes away in the middle of a line
            x, p = peer(op[1]), op[1]
            rec(w.op('send', x, op[2].encode('latin1')), e='bad', p=p)
            dirty.pop(p, None)
            if peer(p):
                if p in NETS:
                    del sname[p]
                    settled.discard(p)
                else:
                    alive.discard(p)
                r = w.op('close', x)
                r.setdefault('ev', [])
                rec(r, e='lost', p=p)
        elif k == 'settle':
            settle(op[1])
        elif k == 'say' and op[1] in sname:
            settle(op[1])
            tok += 1
            t = 'tok%dx' % tok
            ln = [':probe!p@h', op[2] if len(op) > 2 else 'PRIVMSG', '#probe', t]
            rec(w.op('send', sname[op[1]], '%s %s %s :%s\r\n' % tuple(ln)), hit=lambda x: plain(x) if t in ' '.join(x) else None, e='say', net=op[1], line=['probe!p@h'] + ln[1:])
        elif k == 'ask' and op[1] in alive and op[1] in inn:
            n = inn[op[1]]
            tidy(op[1])
            settle(n)
            if n in sname and op[1] in alive:
                tok += 1
                t = 'tok%dx' % tok
                rec(w.op('send', op[1], 'PRIVMSG probe :%s\r\n' % t), hit=lambda x: plain(x) if t in ' '.join(x) else None, e='ask', c=op[1], line=['', 'PRIVMSG', 'probe', t])
        elif k == 'ping' and op[1] in alive and op[1] in inn and op[1] not in stalled:
            tidy(op[1])
            if op[1] in alive:
                tok += 1
                t = 'tok%dx' % tok
                rec(w.op('send', op[1], 'PING %s\r\n' % t), hit=lambda x: 'PONG' if x[1] == 'PONG' and t in x else None, e='ping', c=op[1])
        elif k == 'wait':
            # nobody is silent for long
            for n in NETS:
                tidy(n)
                if n in sname:
                    rec(w.op('send', sname[n], 'PONG x\r\n'), e='bad', p=n)
                    settled.discard(n)
            # lost a moment ago
            rec(w.op('tick', 61), e='wait')
        elif k == 'stall' and peer(op[1]) and op[1] not in stalled:
            stalled[op[1]] = peer(op[1])
            rec(w.op('stall', peer(op[1]), 1), e='stall', p=op[1])
        elif k == 'flow' and stalled.get(op[1]) and stalled[op[1]] == peer(op[1]):
            del stalled[op[1]]
            mine = (lambda x: plain(x) if x[:3] == ['', 'PRIVMSG', 'probe'] else None) if op[1] in NETS else (lambda x: plain(x) if x[0] == 'probe!p@h' else None)
            rec(w.op('stall', peer(op[1]), 0), hit=mine, e='flow', p=op[1])
        elif k in ('save', 'hup'):
            rec(w.op(k), e=k)
    for op in sc['ops']:
        do(op)
    # everybody is still served, and so are those that come now
    for n in NETS:
        tidy(n)
    do(['wait'])
    for i, n in enumerate(NETS):
        do(['settle', n])
        do(['open', 'z%d' % i])
        do(['login', 'z%d' % i, n])
    for n in NETS:
        do(['say', n])
        do(['say', n, 'NOTICE'])
    for p in sorted(stalled):
        do(['flow', p])
    for c in sorted(alive):
        do(['ask', c])
        do(['ping', c])
    do(['hup'])
    do(['save'])
    w.op('quit')
    w.end()
    return ev

# ---------------------------------------------------------------- what peers send
NICKS = ['me', 'me', 'ME', 'al', 'al', 'bo', 'Cy[x]', 'me_', 'n' * 200, '', '*', '@al', '+al', '@', '1', 'a!b@c', '\xe9', '#a', 'ctrlproxy']
CHANS = ['#a', '#a', '#A', '#b', '&c', '#new', '', '#', '&', ',', '#a,#b', '#a,', '0', 'al', '!x', '#' + 'y' * 300, '#\x07', '*', '@#a', '#a%s%n', '#../x', '#x/y/z', '=']
MODES = ['+o', '-o', '+', '-', '', 'o', '+ov', '+o-v+h', '+b', '-b', '+beI', '+k', '-k', '+l', '-l', '+lk', '+nt', '+' + 'o' * 40, '+z', '+\xe9', '+s-s+s', '+kkk', '+lll', '+i', '+qaohv', '-bbbb', '++--', '+b-b']
NUMS = ['0', '1', '-1', '99999999999999999999', 'abc', '', '1000000000', '2147483648', '4294967296', '-99999999999', '1e9', '0x10']
TEXTS = ['hello', 'hello there  two', '', ' ', ':', '\x01', '\x01\x01', '\x01VERSION\x01', '\x01ACTION x', '\x01ACTION', '\x01PING\x01', '\x01DCC SEND a 1 2 3\x01', '\x01 \x01', 'x' * 450, 'x' * 3000, '%s%n%d', '\xff\xfe', '\xc3', 'caf\xc3\xa9', '\x02b\x03,', '@al +bo al', 'al @', '@', ' @al  bo ', 'me=+u@h', 'me=', '=', 'me*=-@', 'al=+u', ':me=-u@h al', 'You are now identified', 'This nickname is registered', 'a' * 30 + '!']
MASKS = ['*!*@*', '*', '', '!', '@', '!@', 'al!u@h', 'a' * 300, 'x y', '*!*@*!*@*', '[', '\\']
TOKENS = ['PREFIX', 'PREFIX=', 'PREFIX=(', 'PREFIX=(ov', 'PREFIX=(ov)', 'PREFIX=(ov)@', 'PREFIX=(o)@+', 'PREFIX=)(', 'PREFIX=ov@+', 'PREFIX=(ohv)@%+', 'PREFIX=()', '-PREFIX', 'CHANMODES', 'CHANMODES=', 'CHANMODES=b', 'CHANMODES=,,,', 'CHANMODES=b,k,l,imn,x,y',
          'CHANMODES=beI,k,l,psitnm', 'CHANMODES=,', 'CHANMODES=\xe9,\xe8,\xe7,\xe6', 'CHANTYPES', 'CHANTYPES=', 'CHANTYPES=#', 'CHANTYPES=#&', 'CHANTYPES=al', '-CHANTYPES', 'CASEMAPPING', 'CASEMAPPING=', 'CASEMAPPING=ascii', 'CASEMAPPING=rfc1459', 'CASEMAPPING=strict-rfc1459', 'CASEMAPPING=none', '-CASEMAPPING',
          'NICKLEN', 'NICKLEN=', 'NICKLEN=0', 'NICKLEN=-1', 'NICKLEN=x', 'MODES', 'MODES=', 'MODES=0', 'MODES=99999999999', 'NETWORK', 'NETWORK=', 'NETWORK=x%s', 'NETWORK=' + 'n' * 400, '=', '==x', '-', '', 'X', 'X=', 'STATUSMSG', 'STATUSMSG=', 'STATUSMSG=@+', 'MAXLIST', 'MAXLIST=', 'MAXLIST=b', 'MAXLIST=b:', 'MAXLIST=:5,b:2',
          'CHANLIMIT', 'CHANLIMIT=', 'CHANLIMIT=#', 'CHANLIMIT=#:,:3', 'IDCHAN', 'IDCHAN=', 'IDCHAN=!', 'IDCHAN=!:5', 'TARGMAX', 'TARGMAX=', 'TARGMAX=:,X', 'EXCEPTS', 'EXCEPTS=', 'EXCEPTS=e', 'EXCEPTS=\xe9', 'INVEX', 'INVEX=', 'NAMESX', 'UHNAMES', 'WATCH', 'WATCH=', 'CHARSET', 'CHARSET=', 'CHARSET=nothing', 'CHARSET=utf-8', 'CHARSET=latin1', 'CNOTICE', 'SILENCE', 'SILENCE=', 'SILENCE=x', 'CHIDLEN=', 'CHIDLEN', 'ELIST', 'ELIST=', 'TOPICLEN', 'KICKLEN', 'MAXBANS', 'MAXCHANNELS', 'CHANNELLEN', 'AWAYLEN', 'CALLERID', 'RFC2812', 'FNC', 'SAFELIST', 'STD', 'STD=', 'USERLEN', 'USERIP', 'HCN', 'CPRIVMSG', 'WALLCHOPS', 'WALLVOICES', 'PENALTY', 'KNOCK', 'MAXTARGETS=', 'PREFIX=' + '(' + 'q' * 60 + ')' + '@' * 60, 'CHANMODES=' + 'b' * 300 + ',k,l,i']
SCMDS = ['JOIN', 'JOIN', 'PART', 'PART', 'KICK', 'KICK', 'QUIT', 'NICK', 'NICK', 'MODE', 'MODE', 'MODE', 'TOPIC', 'TOPIC', 'PRIVMSG', 'PRIVMSG', 'NOTICE', 'NOTICE', 'INVITE', 'KILL', 'WALLOPS', 'PING', 'PONG', 'CAP', 'AUTHENTICATE', 'ACCOUNT', 'AWAY', 'CHGHOST', 'SERVER', 'SQUIT', 'USER', 'PASS', 'WHO', 'NAMES', 'ERROR', 'FROB', 'join', 'mode', 'Quit', 'nick', '']
STATE_NUMS = [1, 2, 3, 4, 4, 5, 5, 5, 5, 42, 221, 301, 302, 305, 306, 311, 314, 315, 318, 319, 321, 322, 323, 324, 324, 329, 331, 332, 333, 341, 346, 347, 348, 349, 352, 352, 353, 353, 366, 366, 367, 368, 372, 375, 376, 396, 401, 403, 404, 421, 422, 433, 433, 432, 436, 437, 442, 451, 461, 464, 465, 471, 473, 474, 475, 477, 482, 900]

def pick_args(r, ctx):
    """parameters for a command or numeric, mostly of the right kind"""
    P = {'n': NICKS, 'c': CHANS, 'm': MODES, 'd': NUMS, 't': TEXTS, 'k': MASKS, 'i': TOKENS, 'u': ['u', 'user', '', '~u'], 'h': ['h', 'proxy.host', '', 'x' * 200], 's': ['=', '@', '*', '', 'H', 'G*@', 'H@d', 'srv']}
    return [r.choice(P[x]) for x in ctx]
NFORM = {1: 't', 4: 'hsmm', 5: 'iiiiit', 42: 'nt', 221: 'm', 301: 'nt', 302: 't', 311: 'nuhst', 314: 'nuhst', 315: 'ct', 319: 'nt', 322: 'cdt', 324: 'cmnd', 329: 'cd', 331: 'ct', 332: 'ct', 333: 'cnd', 341: 'nc', 346: 'cknd', 347: 'ct', 348: 'cknd', 349: 'ct', 352: 'cuhsnst', 353: 'sct', 366: 'ct', 367: 'cknd', 368: 'ct', 396: 'ht', 433: 'nt', 432: 'nt', 436: 'nt', 437: 'nt', 401: 'nt', 403: 'ct'}
CFORM = {'JOIN': 'c', 'PART': 'ct', 'KICK': 'cnt', 'QUIT': 't', 'NICK': 'n', 'MODE': 'cmnnn', 'TOPIC': 'ct', 'PRIVMSG': 'nt', 'NOTICE': 'nt', 'INVITE': 'nc', 'KILL': 'nt', 'CAP': 'nst', 'ACCOUNT': 'n', 'CHGHOST': 'uh', 'PING': 't', 'PONG': 'ht', 'ERROR': 't', 'WHO': 'c', 'NAMES': 'c', 'WALLOPS': 't', 'AWAY': 't'}
def join_args(r, words, args):
    s = ' '.join(words)
    for i, a in enumerate(args):
        last = i == len(args) - 1
        if last and (' ' in a or a == '' or r.random() < .5):
            s += ' :' + a
        elif a == '' and r.random() < .5:
            s += ' '
        else:
            s += ' ' + a
    return s
def shape(r, args):
    x = r.random()
    if x < .25:
        args = args[:r.randint(0, len(args))]
    elif x < .3:
        args = args + [r.choice(TEXTS + NICKS) for _ in range(r.randint(1, 20))]
    elif x < .33:
        r.shuffle(args)
    return args
def odd_server_line(r):
    o = r.choice(['irc.netA', 'irc.netA', 'me!user@proxy.host', 'me!user@proxy.host', 'me', 'ME!x@y', 'al!u@h', 'al!u@h', 'al!u@h', 'bo', 'zz!q@w', '', '', '!', '@', 'al!', 'al@', '!@', 'n' * 300, 'me!', '#a'])
    o = [':' + o] if o or r.random() < .1 else []
    if r.random() < .5:
        k = r.choice(STATE_NUMS) if r.random() < .8 else r.choice(gen_mux.ALLNUM + list(range(0, 1000, 7)))
        args = pick_args(r, NFORM.get(k, r.choice(['ct', 'nt', 't', 'nct', 'cnnt'])))
        args = shape(r, [r.choice(['me'] * 6 + NICKS)] + args)
        s = join_args(r, o + [r.choice(['%03d'] * 9 + ['%d', '%05d']) % k], args)
    else:
        c = r.choice(SCMDS)
        form = CFORM.get(c.upper(), r.choice(['', 'c', 'n', 'nt', 'ct', 'cnt']))
        if c.upper() in ('PRIVMSG', 'NOTICE', 'MODE') and r.random() < .5:
            form = ('c' if form[0] == 'n' else 'n') + form[1:]
        s = join_args(r, o + [c], shape(r, pick_args(r, form)))
    if r.random() < .05:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(['\r', '\x00', '\xff', ' ', '  ', ':', '\t', '\x01', '%s']) + s[i:]
    return s
def known_server_line(r):
    """nothing odd about these"""
    return r.choice([':me!user@proxy.host JOIN #a', ':me!user@proxy.host JOIN #b', ':al!u@h JOIN #a', ':bo!u@h JOIN #b', ':irc.netA 353 me = #a :@al me bo', ':irc.netA 366 me #a :End', ':irc.netA 324 me #a +nt', ':al!u@h MODE #a +o bo', ':al!u@h NICK al2', ':al!u@h QUIT :bye', ':al!u@h PART #a :x',
                     ':al!u@h PRIVMSG #a :hi', ':al!u@h PRIVMSG me :hi', ':al!u@h NOTICE me :x', ':al!u@h TOPIC #a :new', ':irc.netA 332 me #a :topic', ':irc.netA 333 me #a al 1000000000', ':me!user@proxy.host NICK me2', ':irc.netA 005 me PREFIX=(ov)@+ CHANMODES=beI,k,l,imnpst :are supported', ':irc.netA 352 me #a u h srv al H :0 Real',
                     ':irc.netA 315 me #a :End', ':irc.netA 367 me #a *!*@x al 1', ':irc.netA 368 me #a :End', ':al!u@h KICK #a me :out', ':al!u@h KICK #a bo :out', ':irc.netA 433 * me :In use', ':irc.netA 302 me :me=+user@proxy.host', ':irc.netA 306 me :away', ':irc.netA 305 me :back', ':irc.netA 311 me al u h * :Real', ':irc.netA 318 me al :End', ':al!u@h MODE #a +b *!*@y', ':irc.netA 004 me irc.netA v1 io beI', 'PING :x', ':al!u@h PRIVMSG me :\x01VERSION\x01', ':al!u@h INVITE me #c', ':me!user@proxy.host MODE me +i', ':irc.netA 221 me +i', 'ERROR :Closing link'])
CCMDS = ['PRIVMSG', 'PRIVMSG', 'NOTICE', 'JOIN', 'PART', 'KICK', 'NICK', 'MODE', 'TOPIC', 'WHO', 'WHOIS', 'WHOWAS', 'NAMES', 'LIST', 'AWAY', 'INVITE', 'ISON', 'USERHOST', 'STATS', 'MOTD', 'PING', 'PONG', 'PASS', 'USER', 'CAP', 'AUTHENTICATE', 'CONNECT', 'OPER', 'SILENCE', 'WATCH', 'FROB', 'who', 'Mode', '', '001', '353', '433', 'ERROR', 'CTRLPROXY', 'QUIT']
CCF = dict(CFORM, WHOIS='n', WHO='c', NAMES='c', LIST='c', ISON='nn', USERHOST='nn', USER='uhht', PASS='t', WHOWAS='nd', STATS='sn', OPER='nt', CAP='st', CTRLPROXY='t', CONNECT='hd')
ADMIN = ['HELP', 'HELP x', 'HELP ' + 'x' * 400, 'LISTNETWORKS', 'LISTNETWORKS x', 'STATUS', 'CHARSET', 'CHARSET nothing', 'ECHO', 'ECHO a  b', 'BACKLOG', 'BACKLOG #a', 'BACKLOG nobody', 'BACKLOG #', 'DETACH x', 'SET', 'SET nothing', 'SET nothing x', 'SET report-time', 'UNSET', 'UNSET nothing', 'ADDSERVER', 'ADDSERVER x', 'ADDSERVER nope nope', 'ADDNETWORK', 'DELNETWORK', 'DELNETWORK nope', 'CONNECT nope', 'DISCONNECT nope', 'NEXTSERVER nope', 'STARTLISTENER', 'STOPLISTENER', 'STOPLISTENER 1', 'LISTLISTENER', 'DIE now', 'SAVECONFIG x/y/z', 'NETWORKINFO', 'NETWORKINFO nope', 'NOTICED', '', ' ', ':', 'help', 'ECHO ' + 'y' * 600, 'SET nick', 'DUMPJOINEDCHANNELS', 'DUMPJOINEDCHANNELS nope', 'LISTRULES', 'ADDRULE', 'DELRULE', 'NICKSERV', 'LOADMODULE nothing']
ADMIN.remove('DETACH x'); ADMIN.remove('DIE now'); ADMIN.remove('SAVECONFIG x/y/z')
def odd_client_line(r):
    if r.random() < .12:
        a = r.choice(ADMIN)
        return r.choice(['CTRLPROXY %s', 'PRIVMSG ctrlproxy :%s', 'PRIVMSG CTRLPROXY :%s', 'NOTICE ctrlproxy :%s', ':x CTRLPROXY %s']) % a
    c = r.choice(CCMDS) if r.random() < .85 else r.choice(list(gen_mux.Q))
    if c == 'CTRLPROXY':
        return 'CTRLPROXY ' + r.choice(ADMIN)
    o = r.choice(['', '', '', '', ':me', ':al!u@h', ':', ':!@', ':' + 'o' * 300])
    s = join_args(r, [x for x in [o] if x] + [c], shape(r, pick_args(r, CCF.get(c.upper(), r.choice(['', 'c', 'n', 'nt', 'ct', 'cmn'])))))
    if r.random() < .05:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(['\r', '\x00', '\xff', ' ', '  ', ':', '\t', '\x01', '%s']) + s[i:]
    return s
def known_client_line(r):
    return r.choice(['JOIN #a', 'PART #a', 'MODE #a', 'MODE #a b', 'WHO #a', 'NAMES #a', 'TOPIC #a', 'PRIVMSG #a :hi', 'PRIVMSG al :hi', 'NOTICE al :x', 'WHOIS al', 'NICK you', 'AWAY :gone', 'AWAY', 'ISON al bo', 'USERHOST me', 'LIST', 'PING x', 'MODE me +i', 'INVITE al #a', 'KICK #a al :x', 'PRIVMSG al :\x01PING 1\x01', 'NOTICE al :\x01VERSION x\x01', 'QUIT :bye', 'MODE me', 'JOIN #a,#b key'])
def odd_knock(r):
    x = r.random()
    if x < .5:
        return r.choice(['PASS bad', 'PASS', 'PASS :', 'NICK me', 'NICK', 'NICK :', 'USER', 'USER u', 'USER a b c :d', 'CAP LS 302', 'CONNECT', 'CONNECT x', 'CONNECT irc.netA 6000', 'QUIT', 'JOIN #a', 'PASS bad:netA', 'PASS :%s%n', 'PASS ' + 'p' * 600, 'GET / HTTP/1.0', 'PRIVMSG ctrlproxy :DIE', 'CTRLPROXY DIE', ':', ':x', '', ' ', 'AUTHENTICATE PLAIN', '\x00', 'N' * 3000])
    return odd_client_line(r) if x < .8 else odd_server_line(r)
def blob(r):
    x = r.random()
    if x < .25:
        return ''.join(chr(r.randrange(256)) for _ in range(r.choice([1, 3, 20, 200])))
    if x < .4:
        return 'x' * r.choice([511, 512, 513, 1024, 4096, 20000]) + r.choice(['', '\n', '\r\n', ' :', '\x00'])
    if x < .6:
        return '\x05' + ''.join(chr(r.choice([0, 1, 2, 3, 5, 127, 255])) for _ in range(r.randint(0, 40)))
    if x < .75:
        return r.choice([gate.socks_meth([2]), gate.socks_meth([0, 2]), gate.socks_meth([2]) + gate.socks_auth('al', 'bad'), gate.socks_meth([2]) + gate.socks_auth('x' * 255, 'y' * 255), gate.socks_meth([]), gate.socks_meth(list(range(255))), gate.socks_req('irc.netA', 6000)])
    if x < .9:
        return '\r\n' * r.randint(1, 300)
    return ('PING x\r\n' if r.random() < .5 else ':\r\n') * r.randint(50, 300)
def payload(r, kind, p):
    server, client = p in NETS, p.startswith('c')
    one = odd_server_line if server else odd_client_line if client else odd_knock
    known = known_server_line if server else known_client_line if client else odd_knock
    if kind == 'bytes':
        x = blob(r)
        return x if server or client or 'PASS pw' not in x else 'x\r\n'
    if kind == 'known':
        return ''.join(known(r) + '\r\n' for _ in range(r.randint(1, 6)))
    if kind == 'cut':
        s = ''.join((one if r.random() < .6 else known)(r) + '\r\n' for _ in range(r.randint(1, 3)))
        return s[:r.randint(1, len(s))]
    return ''.join((one if r.random() < .8 else known)(r) + r.choice(['\r\n', '\r\n', '\n', '\n\r', '\r\n\r\n']) for _ in range(r.choice([1, 1, 2, 4, 8])))
FORMATS = ''.join('%s=%s\n' % (k, v) for k, v in {'join': '%h:%M %n %u %c', 'part': '%n %u %c %m', 'quit': '%n %m', 'kick': '%n %t %r %c', 'nickchange': '%n %r', 'topic': '%n %c %t', 'notopic': '%n %c', 'mode': '%n %p %c %t', 'notice': '%n %m', 'msg': '%n %m', 'action': '%n %m'}.items())
def setup(r):
    sc = {'glob': {'replication': r.choice(['none', 'none', 'simple', 'lastdisconnect', 'highlight'])}, 'ops': []}
    if r.random() < .3:
        sc['glob']['report-time'] = 'always'
    if r.random() < .2:
        sc['glob']['auto-away'] = 'x'
    x = r.random()
    if x < .2:
        sc['log'] = 'irssi'
    elif x < .4:
        sc['log'], sc['formats'] = 'custom', FORMATS
    if r.random() < .08:
        sc['net'] = {r.choice(['nick', 'username', 'fullname']): r.choice(['', '', 'x' * 100, 'a b', '\u00e9'])}
    if r.random() < .3:
        sc['join'] = [['#a', r.choice(['', 'key'])], ['#b', '']]
    return sc
def prelude(r):
    ops = []
    for n in NETS:
        if r.random() < .85 or n == 'netB':
            ops.append(['settle', n])
    for c, n in (('c1', 'netA'), ('c2', 'netB')):
        ops += [['open', c], ['login', c, n]]
    if r.random() < .5:
        ops.insert(r.randint(0, len(ops)), ['bad', 'netA', ':me!user@proxy.host JOIN #a\r\n:irc.netA 353 me = #a :me @al bo\r\n:irc.netA 366 me #a :End\r\n:me!user@proxy.host JOIN #b\r\n'])
    return ops

def behaviour(h, r):
    sc = setup(r)
    ops = prelude(r)
    for o in h:
        if o[0] == 'bad':
            ops.append([('cut' if o[2] == 'cut' and r.random() < .3 else 'bad'), o[1], payload(r, o[2], o[1] if o[1] != 'c3' else 'k')])
        elif o[0] == 'login':
            ops += [['open', o[1] + 'x'], ['login', o[1] + 'x', o[2]]]
        else:
            ops.append(list(o))
    sc['ops'] = ops
    return sc

def scenario(r):
    sc = setup(r)
    ops = prelude(r)
    k = 0
    for _ in range(r.randint(5, 40)):
        x = r.random()
        if x < .45:
            ops.append(['bad', 'netA', payload(r, r.choice(['lines'] * 6 + ['known'] * 4 + ['cut', 'bytes']), 'netA')])
        elif x < .65:
            ops.append(['bad', r.choice(['c1', 'c3']), payload(r, r.choice(['lines'] * 6 + ['known'] * 3 + ['cut', 'bytes']), 'c1')])
        elif x < .72:
            k += 1
            ops.append(['open', 'k%d' % k, r.choice([5000, 5003])])
            for _ in range(r.randint(1, 3)):
                ops.append([r.choice(['bad', 'bad', 'bad', 'cut']), 'k%d' % k, payload(r, r.choice(['lines', 'bytes', 'cut']), 'k')])
        elif x < .76:
            ops += [['open', 'c3'], ['login', 'c3', 'netA']] if not any(o[1:2] == ['c3'] and o[0] == 'open' for o in ops) else []
        elif x < .84:
            ops.append(['say', r.choice(NETS)])
        elif x < .9:
            ops.append(['ask', r.choice(['c1', 'c2', 'c3'])])
        elif x < .92:
            ops.append(['wait'])
        elif x < .95:
            ops.append([r.choice(['stall', 'stall', 'flow']), r.choice(['netA', 'netB', 'c1', 'c2', 'c3'])])
        elif x < .965:
            ops.append(['lost', 'netA'])
        elif x < .97:
            ops.append(['hang', 'c3'])
        elif x < .985:
            ops.append([r.choice(['cut']), 'netA', payload(r, 'cut', 'netA')])
        else:
            ops.append([r.choice(['save', 'hup'])])
    sc['ops'] = ops
    return sc

# ---------------------------------------------------------------- exact service beside a network whose peers misbehave
class Beside(mux.MuxRun):
    """Everything of netX, and connections that never become clients, is left out of the record; the others are judged with Mux.tla."""
    def __init__(self, w, sc):
        self.hidden, self.hs, self.hnew = set(), None, set()
        self.xport = 6000 + len(sc['nets'])
        real = mux.start
        def begin(w, glob, nets, *a):
            nets['netX'] = {'': net(servers='irc.netX:%d;' % self.xport)}
            glob['autoconnect'] += 'netX;'
            return real(w, glob, nets, *a)
        mux.start = begin
        try:
            mux.MuxRun.__init__(self, w, sc, 'P25')
        finally:
            mux.start = real
    def accepted(self, r):
        rest = dict(r)
        for e in r.get('ev') or []:
            if 'acc' in e and e['port'] == self.xport:
                self.hs = e['acc']
                self.hidden.add(self.hs)
        rest['ev'] = [e for e in r.get('ev') or [] if not ('acc' in e and e['port'] == self.xport)]
        mux.MuxRun.accepted(self, rest)
    def out(self, r, drop_ping=False):
        self.look(r)
        new = {e['acc'] for e in r.get('ev') or [] if 'acc' in e and e['port'] == self.xport}
        q = dict(r)
        q['io'] = {p: d for p, d in (r.get('io') or {}).items() if p not in self.hidden and p not in new}
        return mux.MuxRun.out(self, q, drop_ping)
    def look(self, r):
        for e in r.get('ev') or []:
            if e.get('closed') in self.hidden:
                if e['closed'] == self.hs:
                    self.hs = None
                self.hnew.discard(e['closed'])
    def do(self, op):
        w, k = self.w, op[0]
        if k[0] != 'x':
            return mux.MuxRun.do(self, op)
        p = self.hs if op[1] == 'netX' else op[1] if op[1] in self.hnew else None
        r = None
        if k == 'xbad' and p:
            r = w.op('send', p, op[2].encode('latin1'))
        elif k == 'xopen' and op[1] not in self.hidden:
            self.hidden.add(op[1])
            self.hnew.add(op[1])
            r = w.op('cconn', op[1], 5000)
        elif k == 'xlogin' and p:
            r = w.op('send', p, '\r\nPASS pw:netX\r\nNICK me\r\nUSER u a b :x\r\n')
        elif k == 'xclose' and p:
            if p == self.hs:
                self.hs = None
            self.hnew.discard(p)
            r = w.op('close', p)
        if r:
            others = [e for e in r.get('ev') or [] if 'closed' in e and e['closed'] not in self.hidden]
            self.ev.append({'e': 'idle', 'now': EPOCH + r['t'], 'out': self.out(r) + [['closed', e['closed']] for e in others]})
            self.accepted(r)
        return None

def beside(w, sc):
    m = Beside(w, sc)
    for op in sc['ops']:
        m.do(op)
    w.end()
    return m.ev

def beside_scenario(r):
    sc = gen_mux.scenario(r, r.choice(['P03', 'P04', 'P13', 'P14']))
    ops = [['xbad', 'netX', ':irc.netX 001 me :Welcome\r\n:irc.netX 376 me :End\r\n'], ['xopen', 'x1'], ['xlogin', 'x1']] if r.random() < .8 else []
    k = 1
    for op in sc['ops']:
        while r.random() < .4:
            x = r.random()
            if x < .5:
                ops.append(['xbad', 'netX', payload(r, r.choice(['lines'] * 5 + ['known'] * 3 + ['bytes', 'cut']), 'netA')])
            elif x < .75:
                ops.append(['xbad', 'x1', payload(r, r.choice(['lines'] * 5 + ['known'] * 3 + ['bytes', 'cut']), 'c')])
            elif x < .8:
                k += 1
                ops += [['xopen', 'x%d' % k], ['xbad', 'x%d' % k, payload(r, r.choice(['lines', 'bytes', 'cut']), 'k')]]
            elif x < .85:
                k += 1
                ops += [['xopen', 'x%d' % k], ['xlogin', 'x%d' % k], ['xbad', 'x%d' % k, payload(r, 'lines', 'c')]]
            elif x < .9:
                ops.append(['xclose', r.choice(['x%d' % r.randint(1, k), 'netX'])])
            else:
                ops.append(['xbad', 'netX', ':irc.netX 001 me :Welcome\r\n:irc.netX 376 me :End\r\n'])
        ops.append(op)
    sc['ops'] = ops
    return sc
