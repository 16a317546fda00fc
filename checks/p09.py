import conn

def run(ctx):
    conn.check(ctx, 'P09')
