from cv import cs,cs2,cs3,cs5,cs6,pyorient as O,pymesh
def static(ctx):
    from cv import pywrap
    pywrap.v_small(ctx,('normal_2d',))
    ctx.trust('C doubles treated as reals')
    cs.v_tri(ctx); cs6.v_small3d(ctx); cs6.v_orientation(ctx)
    O.v_vertex_map(ctx); O.v_neighbours(ctx); O.v_connected(ctx); O.v_line_equal(ctx); O.v_reorient(ctx); O.v_outwards(ctx); O.v_ensure(ctx); O.v_group(ctx); O.v_commands(ctx); pymesh.v_flip(ctx)
    ctx.bounded.append('the composition of the contracts of the orientation commands is also evaluated at run time on generated closed surfaces and paths')
