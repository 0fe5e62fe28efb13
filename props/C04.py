from cv import pyfield,pylib,cs2
def static(ctx):
    ctx.trust('numpy array operations by contract over arrays of symbolic length; CPython executes the function bodies; doubles treated as reals; ctypes passes the declared arguments unchanged')
    ctx.trust('the C summation routines are linear in the charges and the table evaluations linear in the coefficients: discharged in C03 and C01')
    for n,f in [('interface',pylib.v_interface),('charges',pyfield.v_epc),('surface-charge fields',pyfield.v_bem),('axial fields',pyfield.v_axial)]: ctx.attempt(n,f,ctx)
