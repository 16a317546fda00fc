import cache
def run(ctx):
    hs = ctx.model('CacheMC', 'CacheMC.cfg', gen=True, limit=ctx.n(150, 6000), consts={'Depth': ctx.n(9, 12), 'Gen': 'TRUE'})
    conv = cache.behaviour(ctx.rng)
    ctx.conform('CacheTrace', [conv(h) for h in hs], cache.execute, cfg='MuxTrace.cfg', label='model behaviours')
    ctx.conform('CacheTrace', [cache.scenario(ctx.rng) for _ in range(ctx.n(350, 8000))], cache.execute, cfg='MuxTrace.cfg', label='random histories')
    ctx.conform('CacheTrace', [cache.big_scenario(ctx.rng) for _ in range(ctx.n(24, 400))], cache.execute, cfg='MuxTrace.cfg', label='large channels')
