from cv import cs3,cs5,pyfield
def static(ctx):
    ctx.trust('C doubles treated as reals')
    ctx.trust('numpy operations by contract over arrays of symbolic length; CPython executes the Python bodies; ctypes passes the declared arguments unchanged')
    ctx.attempt('cs3.v_lorentz',cs3.v_lorentz,ctx)
    ctx.attempt('cs5.v_bounded radial',cs5.v_bounded,ctx,'radial')
    ctx.attempt('cs5.v_bounded 3d',cs5.v_bounded,ctx,'3d')
    ctx.attempt('cs5.v_dispatch',cs5.v_dispatch,ctx)
    ctx.attempt('pyfield.v_tracers',pyfield.v_tracers,ctx)
