"""P12: byte streams are framed faithfully in both directions."""
import framing
def run(ctx):
    for a, size in ((1, ctx.n(7, 9)), (2, ctx.n(5, 6))):
        hs = ctx.model('LineMC', 'LineMC.cfg', gen=True, consts={'Size': size, 'Gen': 'TRUE', 'Alphabet': a}, prefixes=True)
        ls = [''.join(map(chr, h)) for h in hs]
        n = 400
        ctx.conform('FramingTrace', [{'lines': ls[i:i + n]} for i in range(0, len(ls), n)], framing.execute, label='every short line (%d)' % len(ls))
    ls = [framing.random_line(ctx.rng) for _ in range(ctx.n(4000, 60000))]
    ctx.conform('FramingTrace', [{'lines': ls[i:i + 200]} for i in range(0, len(ls), 200)], framing.execute, label='random lines')
    for s in (1, 2, 3):
        hs = ctx.model('FramingMC', 'FramingMC.cfg', gen=True, limit=ctx.n(500, 15000), consts={'Depth': ctx.n(5, 7), 'Gen': 'TRUE', 'Script': s})
        ctx.conform('FramingTrace', [framing.behaviour(h) for h in hs], framing.execute, label='model behaviours %d' % s)
    ctx.conform('FramingTrace', [framing.scenario(ctx.rng) for _ in range(ctx.n(800, 20000))], framing.execute, label='random streams')
