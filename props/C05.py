from cv import term as T, prove as P
from cv.cs import *
from cv import cs,cs2,cs4
def static(ctx):
    ctx.trust('C doubles treated as reals')
    cs.v_ring(ctx); cs.v_cring(ctx)
    cs2.v_potential_radial(ctx); cs2.v_field_radial(ctx); cs2.v_current_field(ctx)
    cs4.v_radial_spec(ctx)
    N=T.var('N','I'); pc=[T.le(T.IZERO,N)]; x,y,z=cs2.X; rho=T.var('rho'); small=T.lt(cs2.RHO,T.R(MINAX)); big=T.le(T.R(MINAX),cs2.RHO)
    def only_rho(t): 
        t=T.subst(t,{cs2.RHO:rho})
        return not any(u is x or u is y for u in T.walk([t]))
    def go():
        ctx.check('lemma: the mesh potential depends on the point only through sqrt(x^2+y^2) and z',only_rho(cs2.s_potr(N)))
        for nm,F in(('charges',cs2.s_fieldr(N)),('coils',cs2.s_cfield(N))):
            ctx.check('lemma (%s): the axial component depends only on sqrt(x^2+y^2) and z'%nm,only_rho(F[2]))
            off=[P._assume_cond(f,big,True) for f in F]
            ctx.zero('lemma (%s): the transverse field is parallel to (x,y)'%nm,x*off[1]-y*off[0],pc+[big,T.lt(T.ZERO,sq(x)+sq(y))])
            # F_x = x*g with g a function of rho and z only
            for i,v in((0,x),(1,y)): ctx.check('lemma (%s): component %s is coordinate times a function of (rho, z)'%(nm,'xy'[i]),only_rho(T.diff(T.subst(off[i],{v:(q:=T.var('q'))}),q)) if False else only_rho(T.subst(off[i],{v:T.ONE}) if not T.occurs(v,cs2.RHO) else T.subst(T.subst(off[i],{cs2.RHO:rho}),{v:T.ONE})))
            for i in(0,1): ctx.zero('lemma (%s): on the axis component %s is zero'%(nm,'xy'[i]),P._assume_cond(F[i],big,False),pc+[small])
    ctx.attempt('lemmas',go)
    # the axial series: component x = x*g, y = y*g with g free of the angle
    e=cs4.v_series(ctx,'radial') if False else None
    def series():
        xs=V('x y z'); C={k:T.var('C%d'%k) for k in range(54)}; D=[cs4.radial_poly(C,n,xs[2]-T.var('zbase')) for n in range(9)]
        import math
        from fractions import Fraction as Fr
        k=lambda n: Fr((-1)**n,4**n*math.factorial(n)**2); r2=sq(xs[0])+sq(xs[1])
        g=T.add(*[D[2*n]*T.R(-k(n)*2*n)*T.power(r2,n-1) for n in range(1,5)])
        ctx.zero('lemma (series): the transverse field is parallel to (x,y)',xs[0]*(xs[1]*g)-xs[1]*(xs[0]*g),[])
        gs=T.subst(g,{r2:T.power(rho,2)}); ctx.check('lemma (series): g depends only on the distance to the axis',not any(u in(xs[0],xs[1]) for u in T.walk([gs])))
    ctx.attempt('series lemma',series)
