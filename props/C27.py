from cv import pyinterp
def static(ctx):
    ctx.trust('doubles treated as reals; numpy by contract over arrays of symbolic length; CPython executes the bodies'); ctx.trust('scipy BPoly.from_derivatives / PPoly.from_bernstein_basis: the piecewise quintic with the given derivatives; CubicSpline: a piecewise cubic through the samples')
    ctx.trust('split_collect hands out consecutive parts in order (property C28); the sampled derivatives themselves: property C26')
    pyinterp.v_spline(ctx); pyinterp.v_field(ctx)
