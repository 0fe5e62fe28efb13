from cv import pygeo

def static(ctx):
    ctx.trust("Python floats treated as reals")
    for f in(pygeo.v_transforms,pygeo.v_map_points,pygeo.v_mesh_map): ctx.attempt(f.__name__,f,ctx)
