"""The part common to the checks decided with Mux.tla."""
import mux, gen_mux
from drive import unparse

NETOF = {'A': 'netA', 'B': 'netB'}
def from_model(h):
    ops = mux.login('netA') + mux.login('netB')
    for op in h:
        if op[0] == 'srv':
            ops.append(['srv', NETOF[op[1]], [unparse(op[2])]])
        elif op[0] == 'cli':
            ops.append(['cli', op[1], [unparse(op[2])]])
        elif op[0] == 'attach':
            ops.append(['attach', op[1], NETOF[op[2]], op[3], op[4]])
        else:
            ops.append(list(op))
    return {'nets': ['netA', 'netB'], 'report': False, 'ops': ops}

def run(ctx, prop):
    hs = ctx.model('MuxMC', 'MuxMC.cfg', gen=True, limit=ctx.n(1500, 40000),
                   consts={'Which': '"%s"' % prop, 'Depth': ctx.n(*DEPTH[prop]), 'Gen': 'TRUE'})
    ex = mux.runner(prop)
    ctx.conform('MuxTrace', [from_model(h) for h in hs], ex, label='model behaviours')
    n = ctx.n(500, 8000)
    ctx.conform('MuxTrace', [gen_mux.scenario(ctx.rng, prop) for _ in range(n)], ex, label='random interleavings')
DEPTH = {'P03': (4, 5), 'P04': (4, 6), 'P14': (5, 6), 'P20': (4, 6), 'P13': (5, 7)}
