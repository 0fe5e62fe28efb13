from cv import cs8
def static(ctx):
    ctx.trust('C doubles treated as reals')
    cs8.v_km1(ctx); cs8.v_k(ctx)
