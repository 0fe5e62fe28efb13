from cv import cs,cs2,cs3,cs5,cs6,pyfield
def static(ctx):
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['plane_intersection'])
    ctx.trust('C doubles treated as reals')
    ctx.attempt('cs6.v_plane',cs6.v_plane,ctx)
    ctx.attempt('pyfield.v_planes',pyfield.v_planes,ctx)
