from cv import pyexc,cs
def static(ctx):
    ctx.trust('the groups of the mesh are disjoint and none is both an electrode and a dielectric (precondition)'); ctx.trust('CPython executes the bodies; numpy by contract (arrays of symbolic length)')
    ctx.attempt('cs.v_posjac',cs.v_posjac,ctx); ctx.attempt('cs.v_tri',cs.v_tri,ctx)
    pyexc.v_active(ctx); pyexc.v_setup(ctx); pyexc.v_rhs(ctx); ctx.attempt('pyexc.v_add',pyexc.v_add,ctx)
    ctx.bounded.append('number of physical groups in one excitation: up to 4 (their sizes, and all values, unbounded)')
