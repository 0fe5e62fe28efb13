from cv import pyfocus
def static(ctx):
    ctx.trust('doubles treated as reals; numpy by contract over arrays of symbolic length; CPython executes the body'); ctx.trust('numpy.linalg.lstsq returns a solution of the normal equations'); ctx.trust('last samples have a nonzero z velocity, and two slopes differ (precondition)')
    pyfocus.v_focus(ctx); pyfocus.v_lemmas(ctx)
