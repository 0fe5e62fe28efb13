from cv import pysurf as p
def static(ctx):
    ctx.trust('Python floats treated as reals')
    for f in(p.v_sweeps,p.v_collections,p.v_spanned,p.v_patch,p.v_shapes,p.v_boundary): ctx.attempt(f.__name__,f,ctx)
