from cv import pypath as p
def static(ctx):
    ctx.trust('Python floats treated as reals')
    for f in(p.v_line,p.v_circles,p.v_arc,p.v_concat,p.v_extend,p.v_cut,p.v_phase,p.v_polygons,p.v_irregular): ctx.attempt(f.__name__,f,ctx)
