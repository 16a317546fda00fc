import admin

def run(ctx):
    ctx.model('ConfigMC', 'ConfigMC.cfg', consts={'Depth': ctx.n(6, 7)})
    hs = ctx.model('ConfigMC', 'ConfigMC.cfg', gen=True, limit=ctx.n(600, 20000), consts={'Depth': ctx.n(5, 5), 'Gen': 'TRUE'})
    ctx.conform('AdminTrace', [admin.behaviour(h) for h in hs], admin.execute, label='model behaviours')
    ctx.conform('AdminTrace', admin.sweep(ctx.rng), admin.execute, label='settings, one by one')
    ctx.conform('AdminTrace', [admin.scenario(ctx.rng, False) for _ in range(ctx.n(1000, 8000))], admin.execute, label='random histories')
    ctx.probe_known('AdminTrace', admin.scenario_of, admin.execute)
