"""P24: the front end for several users bridges a client only after its proxy agreed."""
import os
import daemon
from world import BUILD
def run(ctx):
    for which, depth in (('LINES', ctx.n(6, 7)), ('SOCKS', ctx.n(6, 7))):
        hs = ctx.model('DaemonMC', 'DaemonMC.cfg', gen=True, limit=ctx.n(300, 20000), consts={'Depth': depth, 'Gen': 'TRUE', 'Which': '"%s"' % which})
        ctx.conform('DaemonTrace', [daemon.behaviour(h) for h in hs], daemon.execute, label='model behaviours %s' % which, binary=os.path.join(BUILD, 'dworld'))
    ctx.conform('DaemonTrace', [daemon.scenario(ctx.rng) for _ in range(ctx.n(360, 16000))], daemon.execute, label='connections and verdicts', binary=os.path.join(BUILD, 'dworld'))
    ctx.conform('DaemonTrace', [daemon.bridges(ctx.rng) for _ in range(ctx.n(80, 5000))], daemon.execute, label='bridges', binary=os.path.join(BUILD, 'dworld'))
