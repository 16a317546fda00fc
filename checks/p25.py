"""P25: whatever one of the peers sends, everybody else goes on being served."""
import serve
def run(ctx):
    hs = ctx.model('ServeMC', 'ServeMC.cfg', gen=True, limit=ctx.n(700, 6000), consts={'Depth': ctx.n(6, 8), 'Gen': 'TRUE'})
    ctx.conform('ServeTrace', [serve.behaviour(h, ctx.rng) for h in hs], serve.execute, label='model behaviours')
    ctx.conform('ServeTrace', [serve.scenario(ctx.rng) for _ in range(ctx.n(900, 40000))], serve.execute, label='misbehaving peers')
    ctx.conform('MuxTrace', [serve.beside_scenario(ctx.rng) for _ in range(ctx.n(250, 8000))], serve.beside, label='service beside a misbehaving network', cfg='MuxTrace.cfg')
