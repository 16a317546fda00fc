import conn, muxcheck

def run(ctx):
    conn.check(ctx, 'P13')
    muxcheck.run(ctx, 'P13')
