from cv import pydisc as p
def static(ctx):
    ctx.trust('Python floats treated as reals')
    for f in(p.v_discretize,p.v_mesh): ctx.attempt(f.__name__,f,ctx)
    ctx.attempt('v_collection_mesh',p.v_collection_mesh,ctx,('Path',))
