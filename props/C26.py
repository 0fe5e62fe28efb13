from cv import cs,cs2
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['axial_derivatives_radial', 'current_axial_derivatives_radial', 'current_field_radial_ring', 'current_potential_axial', 'current_potential_axial_radial_ring'])
    pywrap.v_small(ctx,('current_field_radial_ring',))
    ctx.trust('C doubles treated as reals'); cs.v_axial(ctx); cs2.v_axial_mesh(ctx); cs2.v_axial_mesh_current(ctx); cs2.v_current_potential(ctx)
    from cv.cs import V,s_ring,s_axis
