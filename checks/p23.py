import logs

def run(ctx):
    ctx.model('LogsMC', 'LogsMC.cfg', consts={'Depth': ctx.n(7, 9)})
    hs = ctx.model('LogsMC', 'LogsMC.cfg', gen=True, limit=ctx.n(1500, 20000), consts={'Depth': ctx.n(5, 6), 'Gen': 'TRUE'})
    ctx.conform('LogsTrace', [logs.behaviour(h) for h in hs], logs.execute, label='model behaviours')
    ctx.conform('LogsTrace', [logs.scenario(ctx.rng) for _ in range(ctx.n(500, 8000))], logs.execute, label='random histories')
