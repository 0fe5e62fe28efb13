from cv import cs,cs3,pyexc
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['fill_matrix_radial', 'fill_matrix_3d'])
    pywrap.v_small(ctx,('normal_2d','normal_3d'))
    ctx.trust('C doubles treated as reals'); ctx.trust('potential_triangle and flux_triangle by their contracts (property C29)'); ctx.trust('split_collect runs the function on consecutive parts of the rows covering all of them and returns the results in order (property C28)'); ctx.trust('scipy.integrate.quad returns the integral')
    cs.v_point(ctx); cs.v_ring(ctx); cs.v_posjac(ctx); cs.v_tri(ctx)
    cs3.v_fdn2(ctx); cs3.v_fdn3(ctx); cs3.v_self_radial(ctx); cs3.v_matrix_radial(ctx); cs3.v_matrix_3d(ctx); pyexc.v_matrix(ctx)
