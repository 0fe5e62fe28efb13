from cv import cs3,cs5
def static(ctx):
    ctx.trust('C doubles treated as reals')
    cs5.v_tableau(ctx); cs5.v_stages(ctx); cs5.v_trace(ctx)
