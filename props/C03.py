from cv import cs,cs2,pyfield,pylib
def static(ctx):
    from cv import pywrap
    pywrap.v_small(ctx,('potential_radial_ring','dr1_potential_radial_ring','dz1_potential_radial_ring','current_field_radial_ring'))
    ctx.trust('C doubles treated as reals; size_t/int conversions of element counts exact (N < 2^31)')
    ctx.trust('numpy operations by contract over arrays of symbolic length; CPython executes the Python bodies; ctypes passes the declared arguments unchanged')
    ctx.attempt('cs.v_point',cs.v_point,ctx)
    ctx.attempt('cs.v_ring',cs.v_ring,ctx)
    ctx.attempt('cs.v_cring',cs.v_cring,ctx)
    ctx.attempt('cs.v_axial',cs.v_axial,ctx)
    for f in cs2.ALLSUM: ctx.attempt(getattr(f,'__name__','sum'),f,ctx)
    ctx.attempt('pyfield.v_access',pyfield.v_access,ctx)
    ctx.attempt('pylib.v_interface',pylib.v_interface,ctx)
