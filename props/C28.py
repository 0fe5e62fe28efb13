from cv import pythreads
def static(ctx):
    ctx.trust('a started thread runs to completion at some time before it is joined; the bodies do not interleave (each writes its own place of the result list; list.append is atomic)'); ctx.trust('numpy.array_split returns consecutive parts that cover the array; CPython executes the body')
    pythreads.v_any_threads(ctx); pythreads.v_threads(ctx); pythreads.v_split_collect(ctx)
