from cv import cs4,pyfield
LEVEL='proof'
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['potential_radial_derivs', 'field_radial_derivs', 'potential_3d_derivs', 'field_3d_derivs'])
    pywrap.v_tables3d(ctx)
    ctx.trust('C doubles treated as reals; the comparison of z with the sampled range and the division (z-z0)/dz are exact')
    ctx.trust('numpy operations by contract over arrays of symbolic length; CPython executes the Python bodies; ctypes passes the declared arguments unchanged')
    ctx.attempt('cs4.v_interval',cs4.v_interval,ctx)
    ctx.attempt('cs4.v_radial_spec',cs4.v_radial_spec,ctx)
    ctx.attempt('cs4.v_3d_spec',cs4.v_3d_spec,ctx)
    ctx.attempt('pyfield.v_axial_access',pyfield.v_axial_access,ctx)
