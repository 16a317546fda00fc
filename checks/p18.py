import away

def run(ctx):
    hs = ctx.model('AwayMC', 'AwayMC.cfg', gen=True, limit=ctx.n(1500, 40000), consts={'Depth': ctx.n(5, 6), 'Gen': 'TRUE'})
    ctx.conform('AwayTrace', [away.behaviour(h) for h in hs], away.execute, label='model behaviours')
    ctx.conform('AwayTrace', [away.scenario(ctx.rng) for _ in range(ctx.n(500, 8000))], away.execute, label='random histories')
