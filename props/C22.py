from cv import pytile as t, pydisc as d
def static(ctx):
    for f in(t.v_sections,t.v_points,t.v_subdivide,t.v_start,t.v_normalize,t.v_triangles,t.v_copy_edge,t.v_mesh,t.v_surface_mesh): ctx.attempt('C22 '+f.__name__,f,ctx)
    ctx.attempt('C22 collections',d.v_collection_mesh,ctx,('Surface',))
