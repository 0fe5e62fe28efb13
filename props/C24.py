from cv import cs,cs2,cs3,cs5,cs6
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['kronrod_adaptive'])
    pywrap.v_small(ctx,('kronrod_adaptive',))
    ctx.trust('C doubles treated as reals')
    cs6.v_kronrod(ctx)
