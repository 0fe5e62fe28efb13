from cv import cs,cs2,cs3,cs5,cs6
def static(ctx):
    ctx.trust('C doubles treated as reals')
    cs6.v_small3d(ctx); cs6.v_triangle_frame(ctx); cs6.v_triangle_integrands(ctx); cs6.v_self_triangle(ctx); cs6.v_kronrod(ctx)
