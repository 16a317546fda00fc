"""P02: a client is welcomed exactly once, after both NICK and USER."""
import gate
def run(ctx):
    hs = ctx.model('GateMC', 'GateMC.cfg', gen=True, limit=ctx.n(1500, 30000), consts={'Depth': ctx.n(7, 9), 'Gen': 'TRUE', 'Which': '"P02"'})
    ctx.conform('GateTrace', [gate.behaviour(h, False) for h in hs], gate.execute, cfg='MuxTrace.cfg', label='model behaviours')
    ctx.conform('GateTrace', [gate.registration(ctx.rng) for _ in range(ctx.n(2000, 20000))], gate.execute, cfg='MuxTrace.cfg', label='random registrations')
