from cv import pymesh,pygeo
def static(ctx):
    from cv import pywrap
    pywrap.v_areas(ctx)
    ctx.trust('numpy array operations, np.unique/np.argsort index semantics by contract over arrays of symbolic length; CPython executes the function bodies; doubles treated as reals; rounding of the merge key (truncation below 2^-36 relative, no underflow) by contract')
    for n,f in [('degenerate',pymesh.v_degenerate),('dedup',pymesh.v_dedup),('init',pymesh.v_init),('combine',pymesh.v_combine),('extract',pymesh.v_extract),
                ('remove',pymesh.v_remove),('flip',pymesh.v_flip),('higher',pymesh.v_higher),('meshio',pymesh.v_meshio),('map',pygeo.v_mesh_map)]:
        ctx.attempt(n,f,ctx)
    ctx.bounded.append('Path.mesh and Surface.mesh results: run-time contract evaluation on generated geometries (their index arithmetic is proved in C21 and C22)')
