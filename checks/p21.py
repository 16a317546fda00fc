"""P21: names are compared by the server's advertised case rules."""
import names, gen_server, gen_mux, mux, p05
def run(ctx):
    for a, size in ((1, 1), (2, ctx.n(2, 3)), (3, ctx.n(3, 4))):
        hs = ctx.model('CaseMC', 'CaseMC.cfg', gen=True, consts={'Alphabet': a, 'Size': size, 'Gen': 'TRUE'}, prefixes=True)
        ls = list(names.pairs(hs))
        ctx.conform('CaseTrace', [ls[i:i + 30] for i in range(0, len(ls), 30)], names.execute, label='every pair of short names (%d)' % len(hs))
    ls = list(names.every_byte(names.MAPPINGS))
    ctx.conform('CaseTrace', [ls[i:i + 16] for i in range(0, len(ls), 16)], names.execute, label='every pair of bytes')
    ctx.conform('CaseTrace', [[names.random_names(ctx.rng) for _ in range(10)] for _ in range(ctx.n(200, 3000))], names.execute, label='random names')
    # where names are compared: the tracked state, and who a line is from
    scs = [gen_server.history(ctx.rng, ctx.rng.randint(20, 60), nicks=names.NICKS, chans=names.CHANS, odd=.6) for _ in range(ctx.n(300, 8000))]
    ctx.conform('StateTrace', scs, p05.execute, label='server histories with odd spellings')
    for f in ('P20', 'P04'):
        scs = [gen_mux.scenario(ctx.rng, f, others=names.NICKS, chans=names.CHANS[:4], mine=['me', 'me[', 'me{', 'ME[', 'Me[', 'mE{']) for _ in range(ctx.n(150, 4000))]
        ctx.conform('MuxTrace', scs, mux.runner(f), label='identity with odd spellings (%s)' % f)
