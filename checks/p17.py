import filters, mux
from drive import unparse
NETOF = {'A': 'netA', 'B': 'netB'}
def from_model(h):
    ops = mux.login('netA') + mux.login('netB')
    for op in h:
        if op[0] in ('srv',):
            ops.append(['srv', NETOF[op[1]], [unparse(op[2])]])
        elif op[0] == 'cli':
            ops.append(['cli', op[1], [unparse(op[2])]])
        elif op[0] == 'attach':
            ops.append(['attach', op[1], NETOF[op[2]], op[3], op[4]])
        elif op[0] == 'add':
            ops.append(['add', op[1], op[2], op[3], list(op[4])])
        else:
            ops.append(list(op))
    return {'nets': ['netA', 'netB'], 'report': False, 'ops': ops}
def run(ctx):
    for which in ('"flt"', '"hook"'):
        hs = ctx.model('FiltersMC', 'FiltersMC.cfg', gen=True, limit=ctx.n(1000, 20000), consts={'Which': which, 'Depth': ctx.n(5, 6), 'Gen': 'TRUE'})
        ctx.conform('FiltersTrace', [from_model(h) for h in hs], filters.execute, label='model behaviours')
    n = ctx.n(500, 8000)
    ctx.conform('FiltersTrace', [filters.scenario(ctx.rng) for _ in range(n)], filters.execute, label='random histories')
