from cv import cs5,pyfield
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['trace_particle', 'trace_particle_radial', 'trace_particle_radial_derivs', 'trace_particle_3d', 'trace_particle_3d_derivs'])
    pywrap.v_trace_field(ctx)
    ctx.trust('C doubles treated as reals')
    ctx.trust('numpy operations by contract over arrays of symbolic length; CPython executes the Python bodies; ctypes passes the declared arguments unchanged')
    ctx.attempt('cs5.v_trace',cs5.v_trace,ctx)
    ctx.attempt('cs5.v_dispatch',cs5.v_dispatch,ctx)
    ctx.attempt('pyfield.v_tracers',pyfield.v_tracers,ctx)
    ctx.attempt('pyfield.v_blocks',pyfield.v_blocks,ctx)
