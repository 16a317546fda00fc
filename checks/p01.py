"""P01: nothing crosses before the listener password is accepted."""
import gate
def run(ctx):
    for which, depth, limit, free in (('P01', ctx.n(7, 9), ctx.n(900, 20000), False), ('SOCKS', ctx.n(5, 6), ctx.n(900, 20000), True)):
        hs = ctx.model('GateMC', 'GateMC.cfg', gen=True, limit=limit, consts={'Depth': depth, 'Gen': 'TRUE', 'Which': '"%s"' % which})
        ctx.conform('GateTrace', [gate.behaviour(h, free) for h in hs], gate.execute, cfg='MuxTrace.cfg', label='model behaviours %s' % which)
    ctx.conform('GateTrace', [gate.scenario(ctx.rng) for _ in range(ctx.n(2000, 20000))], gate.execute, cfg='MuxTrace.cfg', label='random connections')
