from cv import pymesh
def static(ctx):
    ctx.trust('numpy array operations by contract over arrays of symbolic length; CPython executes the function bodies; doubles treated as reals')
    for n,f in [('combine',pymesh.v_combine),('extract',pymesh.v_extract),('remove',pymesh.v_remove),('flip',pymesh.v_flip)]:
        ctx.attempt(n,f,ctx)
