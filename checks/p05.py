"""P05: tracked channel state is exactly what the server announced."""
import random
from drive import *
import gen_server

def execute(w, sc):
    ev = w.partial = []
    start(w, networks={'netA': {'': net()}})
    w.partial = ev
    st = conv_state(w.op('dump', 'netA')['st'])
    ev.append({'e': 'reset', 'nick': st['me'][0], 'user': st['me'][1], 'host': st['me'][2]})
    for raw in sc:
        r = w.op('send', 's1', raw + '\r\n')
        now = EPOCH + r['t']
        d = w.op('dump', 'netA')['st']
        if d is None:
            break
        st = conv_state(d)
        c = parse(raw)
        ev.append({'e': 'srv', 'k': c[1], 'line': c, 'now': now, 'st': st})
    w.end()
    return ev

def run(ctx):
    for which in ('members', 'modes', 'topics'):
        hs = ctx.model('StateMC', 'StateMC_%s.cfg' % which, gen=True, limit=ctx.n(1500, 30000),
                       consts={'Depth': ctx.n(5, 7 if which != 'modes' else 6)})
        ctx.conform('StateTrace', [[unparse(l) for l in h] for h in hs], execute, label='model behaviours (%s)' % which)
    n = ctx.n(500, 12000)
    scs = [gen_server.history(ctx.rng, ctx.rng.randint(20, 60)) for _ in range(n)]
    ctx.conform('StateTrace', scs, execute, label='random server histories')
