"""P06: what a client has been told always adds up to the network's real state."""
import mux, gen_view
from drive import unparse

import muxcheck

def behaviour(h):
    ops = mux.login('netA')
    for op in h:
        if op[0] == 'lost':
            ops.append(['lost', 'netA'])
        elif op[0] == 'again':
            ops += [['idle', 61]] + mux.login('netA')
        else:
            ops += muxcheck.from_model([op])['ops'][2:]
    return {'nets': ['netA'], 'ops': ops}

def run(ctx):
    hs = ctx.model('ViewMC', 'ViewMC.cfg', gen=True, limit=ctx.n(1200, 30000), consts={'Depth': ctx.n(7, 8), 'Gen': 'TRUE'})
    ctx.conform('ViewTrace', [behaviour(h) for h in hs], mux.runner('P06'), cfg='MuxTrace.cfg', label='model behaviours')
    ex = mux.runner('P06')
    n = ctx.n(450, 8000)
    for b in ('none', 'highlight', 'simple', 'lastdisconnect'):
        ctx.conform('ViewTrace', [gen_view.scenario(ctx.rng, b) for _ in range(n if b == 'none' else n // 4)], ex, cfg='MuxTrace.cfg', label='random histories, %s backlog' % b)
