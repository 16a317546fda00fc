"""Histories and backlogs (events of HistoryTrace.tla)."""
import mux, gen_mux, gen_view
from mux import *

class HistoryRun(MuxRun):
    def __init__(self, w, sc, chk):
        sc = dict(sc)
        self.chk = chk
        rt = sc.get('report_time', 'never')
        sc['report'] = rt == 'always'
        g = {'report-time': rt, 'replication': sc.get('policy', 'none')}
        if sc.get('words'):
            g['match'] = ''.join(x + ';' for x in sc['words'])
        sc['glob'] = dict(sc.get('glob', {}), **g)
        super().__init__(w, sc, chk)
        self.ev[0].update(pure=bool(sc.get('pure')), policy=sc.get('policy', 'none'), words=[esc(x) for x in sc.get('words', [])], stamp=rt != 'never')
    def do(self, op):
        k, w = op[0], self.w
        if k in ('srv', 'cli'):
            for x in op[2]:
                super().do([k, op[1], [x]])
        elif k == 'mark':
            w.op('mark', op[1], op[2])
            self.ev.append({'e': 'mark', 'net': op[1], 'name': op[2], 'out': []})
        elif k == 'knock':
            w.op('cconn', 'kk', 5000)
            w.op('send', 'kk', op[1])
            w.op('close', 'kk')
        elif k == 'trav':
            r = w.op('trav', *op[1:])
            self.ev.append({'e': 'trav', 'net': op[1], 'from': op[2], 'to': op[3], 'obj': esc(op[4]) if len(op) > 4 else '', 'none': bool(r.get('none')),
                            'ok': bool(r.get('ok')), 'lines': [[t, parse(x)] for t, x in r.get('lines', [])], 'out': []})
        elif k == 'lstate':
            r = w.op('lstate', op[1], op[2])
            e = {'e': 'lstate', 'net': op[1], 'mark': op[2], 'none': bool(r.get('none')), 'out': []}
            if r.get('st'):
                e['st'] = conv_state(r['st'])
            self.ev.append(e)
        else:
            super().do(op)

def runner(chk):
    def execute(w, sc):
        m = HistoryRun(w, sc, chk)
        for op in sc['ops']:
            m.do(op)
        w.end()
        return m.ev
    return execute

def read_ops(rng, n, marks, objs):
    """Reads between any two positions, of everything or one object, and states."""
    ops = []
    p = lambda: rng.choice(marks + ['-'])
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < .45:
            ops.append(['lstate', n, p()])
        else:
            ops.append(['trav', n, p(), p()] + ([rng.choice(objs)] if rng.random() < .45 else []))
    return ops

OBJS = ['#a', '#A', '#b', '&c', 'al', 'me', 'ME', 'Cy[x]', 'cy{X}', '#b[1]', '#B{1}', '#a,#b', 'nobody']
def sprinkle(rng, ops, nets, gap=6):
    """Marks and reads strewn over a history."""
    out, marks, k = [], {n: [] for n in nets}, 0
    for op in ops:
        out.append(op)
        if op[0] == 'idle':
            continue
        if rng.random() < 1 / gap:
            n = rng.choice(nets)
            if rng.random() < .5 or not marks[n]:
                k += 1
                m = 'm%d' % (k % 9)
                for x in nets:
                    if m in marks[x]:
                        marks[x].remove(m)
                marks[n].append(m)
                out.append(['mark', n, m])
            else:
                out += read_ops(rng, n, marks[n], OBJS)
        if rng.random() < .05:
            out.append(['idle', rng.choice([1, 7, 100])])
    for n in nets:
        out += read_ops(rng, n, marks[n], OBJS) + [['trav', n, '-', '-'], ['lstate', n, '-']]
    return out

def lines_scenario(rng):
    sc = gen_mux.scenario(rng, rng.choice(['P04', 'P04', 'P03', 'P20', 'P14']))
    sc['ops'] = sprinkle(rng, sc['ops'], sc['nets'])
    if rng.random() < .3:
        sc['autocmd'] = {sc['nets'][0]: ['PRIVMSG al :auto', 'MODE me +i', 'NOTICE #a :hi']}
    return sc

def state_scenario(rng):
    sc = gen_view.scenario(rng, 'none')
    sc['ops'] = sprinkle(rng, sc['ops'], sc['nets'], 4)
    sc['glob'] = {}
    return sc

PURE = [('s_join_me', 3), ('s_names', 6), ('s_join_other', 14), ('s_join_multi', 2), ('s_part', 6), ('s_kick', 5), ('s_kick_multi', 1),
        ('s_quit', 5), ('s_nick', 8), ('s_topic', 6), ('s_topicreply', 5), ('s_mode', 14), ('s_324', 3), ('s_privmsg', 12)]
def long_scenario(rng, n=2300):
    """More lines than lie between two states kept: every change of state is one that is recorded."""
    g = gen_view.Gen(rng, 'none')
    g.nets = ['netA']
    g.info['netA'] = None
    g.login('netA')
    g.ops = [o for o in g.ops if not any(' 302 ' in x or ' 221 ' in x for x in (o[2] if o[0] == 'srv' else []))]
    names, ws = [s for s, _ in PURE], [k for _, k in PURE]
    s = g.sim['netA']
    ls = []
    talk = rng.random() < .5
    while len(ls) < n:
        if talk and 30 < len(ls) % 1000 < 975:
            ls += [':al!u@h PRIVMSG #a :%d' % i for i in range(975 - len(ls) % 1000)]
        getattr(s, rng.choices(names, ws)[0])()
        ls += s.out
        s.out = []
    ops, marks, k = list(g.ops), [], 0
    for i, l in enumerate(ls):
        ops.append(['srv', 'netA', [l]])
        if rng.random() < .004 or (i % 1000 > 988 or i % 1000 < 12) and rng.random() < .7:
            k += 1
            ops.append(['mark', 'netA', 'm%d' % k])
            marks.append('m%d' % k)
            if rng.random() < .1:
                ops.append(['idle', 1])
        if rng.random() < .006 and marks:
            ops += read_ops(rng, 'netA', marks[-8:], OBJS)
    for m in marks:
        ops.append(['lstate', 'netA', m])
    ops += [['lstate', 'netA', '-'], ['trav', 'netA', '-', '-'], ['trav', 'netA', rng.choice(marks), '-', '#a']]
    return {'nets': ['netA'], 'ops': ops, 'pure': True}

def behaviour(policy, rng):
    """A behaviour of HistoryMC, as operations."""
    from drive import unparse
    def conv(h):
        again = mux.login('netA') + [['srv', 'netA', [':me!user@proxy.host JOIN #a']]]
        ops = list(again)
        for op in h:
            if op[0] in ('srv', 'cli'):
                ops.append([op[0], 'netA' if op[0] == 'srv' else op[1], [unparse(op[2])]])
            elif op[0] == 'attach':
                ops.append(['attach', op[1], 'netA', op[3], op[4]])
            elif op[0] == 'lost':
                ops += [['lost', 'netA'], ['idle', 61]] + again
            elif op[0] == 'mark':
                ops.append(['mark', 'netA', 'm'])
            else:
                ops.append(list(op))
        if policy == 'none':
            ops += [['trav', 'netA', '-', '-'], ['trav', 'netA', 'm', '-'], ['trav', 'netA', '-', 'm', '#a'], ['lstate', 'netA', 'm'], ['lstate', 'netA', '-']]
        else:
            ops += [['attach', 'c9', 'netA', 'me', 'u9']]
        return {'nets': ['netA'], 'ops': ops, 'policy': policy, 'words': ['word'], 'autocmd': {'netA': ['PRIVMSG al :auto']},
                'report_time': rng.choice(['never', 'never', 'replication', 'always'])}
    return conv

WORDS = ['word', 'me', 'Beer', 'a:b', '[x]', 'hello there']
class BacklogGen(gen_mux.Gen):
    """More coming and going, and texts with the words looked for."""
    def one_text(self):
        return self.r.choice(gen_mux.TEXTS + [self.r.choice(['%s', 'x%sx', 'the %s is', '%s.']) % self.r.choice(WORDS + ['beer', 'WORD'])] * 6)
    def talk_srv(self, n):
        if self.r.random() < .5:
            return super().talk_srv(n)
        r = self.r
        t = self.one_text()
        if r.random() < .15:
            t = '\x01ACTION %s\x01' % t
        self.srv(n, ':%s %s %s :%s' % (self.oth(), r.choice(['PRIVMSG', 'PRIVMSG', 'NOTICE']), self.target(n), t))
    def attach(self):
        if self.r.random() < .2:
            # someone knocks and goes away without ever becoming a client
            self.ops.append(['knock', self.r.choice(['', 'PASS pw\r\n', 'PASS pw:%s\r\nNICK x\r\n' % self.r.choice(self.nets), 'PASS bad\r\n'])])
        super().attach()
def backlog_scenario(rng, policy):
    if rng.random() < .25:
        sc = gen_view.scenario(rng, policy)
    else:
        g = BacklogGen(rng, 'P04')
        f = {'P04': dict(query=1, reply=1, talk_srv=8, talk_cli=3, nick=.5, ctcp_srv=1, ctcp_cli=.5, attach=2, detach=1.6, lose=.25)}
        sc = g.run(rng.randint(20, 70), f)
    sc.pop('report', None)
    sc.pop('glob', None)
    sc.update(policy=policy, words=rng.sample(WORDS, rng.randint(0, 3)), report_time=rng.choice(['never', 'replication', 'always']))
    if rng.random() < .3:
        sc['autocmd'] = {sc['nets'][0]: ['PRIVMSG al :auto word', 'NOTICE #a :hi']}
    if rng.random() < .2:
        sc['offset'] = rng.choice([3600, -7265])
    ops = []
    for op in sc['ops']:
        ops.append(op)
        if rng.random() < .08:
            ops.append(['idle', rng.choice([1, 7, 100])])
    sc['ops'] = ops
    return sc
