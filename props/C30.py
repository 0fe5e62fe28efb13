from cv import cs,cs2,cs3,cs5,cs6,pyexc
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['triangle_areas', 'charge_radial'])
    pywrap.v_areas(ctx); pywrap.v_small(ctx,('charge_radial',))
    ctx.trust('C doubles treated as reals'); ctx.trust('every coil has positive area (precondition)')
    cs.v_posjac(ctx); cs.v_tri(ctx); cs3.v_areas(ctx); cs3.v_charge_radial(ctx); pyexc.v_coils(ctx); pyexc.v_charge(ctx)
