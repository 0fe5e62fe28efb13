from cv import cs,cs2,cs3,cs5,pyfield
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['combine_elec_magnetic_field'])
    pywrap.v_trace_field(ctx); pywrap.v_small(ctx,('combine_elec_magnetic_field',))
    ctx.trust('C doubles treated as reals')
    ctx.trust('numpy operations by contract over arrays of symbolic length; CPython executes the Python bodies; ctypes passes the declared arguments unchanged')
    for f in(cs.v_point,cs.v_ring,cs.v_cring,cs2.v_field_radial,cs2.v_field_3d,cs2.v_current_field): ctx.attempt(f.__name__,f,ctx)
    ctx.attempt('cs3.v_lorentz',cs3.v_lorentz,ctx)
    ctx.attempt('cs5.v_bounded radial',cs5.v_bounded,ctx,'radial')
    ctx.attempt('cs5.v_bounded 3d',cs5.v_bounded,ctx,'3d')
    ctx.attempt('cs5.v_axial_traceable radial',cs5.v_axial_traceable,ctx,'radial')
    ctx.attempt('cs5.v_axial_traceable 3d',cs5.v_axial_traceable,ctx,'3d')
    ctx.attempt('cs5.v_dispatch',cs5.v_dispatch,ctx)
    ctx.attempt('pyfield.v_tracers',pyfield.v_tracers,ctx)
    ctx.attempt('pyfield.v_velocity',pyfield.v_velocity,ctx)
