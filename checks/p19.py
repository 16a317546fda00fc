import admin

def run(ctx):
    ctx.model('AdminMC', 'AdminMC.cfg', consts={'Depth': ctx.n(4, 5)})
    hs = ctx.model('AdminMC', 'AdminMC.cfg', gen=True, limit=ctx.n(1500, 20000), consts={'Depth': ctx.n(4, 4), 'Gen': 'TRUE'})
    ctx.conform('AdminTrace', [admin.commands(h) for h in hs], admin.execute, label='model behaviours')
    ctx.conform('AdminTrace', admin.sweep(ctx.rng), admin.execute, label='settings, one by one')
    ctx.conform('AdminTrace', [admin.scenario(ctx.rng, True) for _ in range(ctx.n(3000, 20000))], admin.execute, label='random histories')
