import history
def run(ctx):
    ex = history.runner('P07')
    hs = ctx.model('HistoryMC', 'HistoryMC.cfg', gen=True, limit=ctx.n(300, 20000), consts={'Depth': ctx.n(4, 5), 'Gen': 'TRUE'})
    conv = history.behaviour('none', ctx.rng)
    ctx.conform('HistoryTrace', [conv(h) for h in hs], ex, cfg='MuxTrace.cfg', label='model behaviours')
    ctx.conform('HistoryTrace', [history.lines_scenario(ctx.rng) for _ in range(ctx.n(300, 6000))], ex, cfg='MuxTrace.cfg', label='histories of conversation')
    ctx.conform('HistoryTrace', [history.state_scenario(ctx.rng) for _ in range(ctx.n(250, 6000))], ex, cfg='MuxTrace.cfg', label='histories of channels')
    ctx.conform('HistoryTrace', [history.long_scenario(ctx.rng) for _ in range(ctx.n(4, 40))], ex, cfg='MuxTrace.cfg', label='long histories')
