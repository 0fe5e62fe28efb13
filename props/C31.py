from cv import cs7
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['axial_coefficients_3d'])
    pywrap.v_coefficients3d(ctx)
    ctx.attempt('axial_coefficients_3d',cs7.v_coefficients,ctx)
