import history
def run(ctx):
    hs = ctx.model('HistoryMC', 'HistoryMC.cfg', gen=True, limit=ctx.n(250, 20000), consts={'Depth': ctx.n(4, 5), 'Gen': 'TRUE'})
    ex = history.runner('P08')
    for p in ('simple', 'lastdisconnect', 'highlight'):
        conv = history.behaviour(p, ctx.rng)
        ctx.conform('HistoryTrace', [conv(h) for h in hs], ex, cfg='MuxTrace.cfg', label='model behaviours, %s' % p)
    for p in ('none', 'simple', 'lastdisconnect', 'highlight'):
        n = ctx.n(60 if p == "none" else 150, 4000)
        ctx.conform('HistoryTrace', [history.backlog_scenario(ctx.rng, p) for _ in range(n)], ex, cfg='MuxTrace.cfg', label='random histories, %s' % p)
