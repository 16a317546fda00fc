import services, mux
from drive import unparse
NETOF = {'A': 'netA', 'B': 'netB'}
def from_model(learn):
    def conv(h):
        ops = mux.login('netA') + mux.login('netB') + [['attach', 'c1', 'netA', 'me', 'c1'], ['attach', 'c2', 'netB', 'me', 'c2']]
        for op in h:
            if op[0] == 'srv':
                ops.append(['srv', NETOF[op[1]], [unparse(op[2])]])
            elif op[0] == 'cli':
                ops.append(['cli', op[1], [unparse(op[2])]])
            elif op[0] == 'lost':
                ops += [['lost', NETOF[op[1]]], ['idle', 61], ['srv', NETOF[op[1]], [':irc.A 001 me :Welcome']]]
            else:
                ops.append(list(op))
        return {'nets': ['netA', 'netB'], 'learn': learn, 'ops': ops, 'file': 'you\tk1\t*\nme\tk2\tnetB\n',
                'keys': [['*', 'you', 'k1'], ['netB', 'me', 'k2']]}
    return conv
def run(ctx):
    for learn in (True, False):
        hs = ctx.model('ServicesMC', 'ServicesMC.cfg', gen=True, limit=ctx.n(900 if learn else 200, 20000),
                       consts={'Depth': ctx.n(4, 5), 'Gen': 'TRUE', 'LearnOn': 'TRUE' if learn else 'FALSE'})
        ctx.conform('ServicesTrace', [from_model(learn)(h) for h in hs], services.execute, label='model behaviours')
    n = ctx.n(500, 8000)
    ctx.conform('ServicesTrace', [services.scenario(ctx.rng) for _ in range(n)], services.execute, label='random histories')
