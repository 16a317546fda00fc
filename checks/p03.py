import muxcheck
def run(ctx):
    muxcheck.run(ctx, 'P03')
