from cv import pyexc
def static(ctx):
    ctx.trust('uniqueness: the assembled matrix is invertible (then superposition of solutions is the solution of the sum)'); ctx.trust('numpy.linalg.solve solves the given system')
    pyexc.v_recombine(ctx); pyexc.v_split(ctx); pyexc.v_direct(ctx); pyexc.v_solve(ctx); pyexc.v_rhs(ctx)
    ctx.bounded.append('Excitation.split / solve_direct_superposition: mixtures of excitation types of up to 6 groups enumerated; solve_matrix: 1-3 right-hand sides (sizes of the system unbounded)')
