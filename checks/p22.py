"""P22: server capabilities are parsed as advertised."""
import caps
def run(ctx):
    for part in (1, 2, 3, 4):
        hs = ctx.model('IsupportMC', 'IsupportMC.cfg', gen=True, consts={'Depth': 2 if part != 3 or not ctx.thorough else 3, 'Gen': 'TRUE', 'Part': part}, prefixes=True)
        ctx.conform('IsupportTrace', [{'tokens': hs[i:i + 40]} for i in range(0, len(hs), 40)], caps.execute, label='every short sequence (%d)' % part)
    ctx.conform('IsupportTrace', [{'tokens': [caps.tokens(ctx.rng) for _ in range(20)]} for _ in range(ctx.n(100, 2000))], caps.execute, label='random sequences')
    ctx.conform('IsupportTrace', [caps.scenario(ctx.rng) for _ in range(ctx.n(400, 8000))], caps.execute, label='told to clients')
