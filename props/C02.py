from cv import term as T, prove as P
from cv.cs import *
from cv import cs,cs2,cs4
from fractions import Fraction as Fr
def static(ctx):
    from cv import pywrap
    pywrap.v_tables3d(ctx); pywrap.v_small(ctx,('potential_radial_ring','dr1_potential_radial_ring','dz1_potential_radial_ring'))
    ctx.trust('C doubles treated as reals'); ctx.trust('ellipkm1/ellipem1 stand for the complete elliptic integrals (accuracy: property C25)')
    cs.v_point(ctx); cs.v_ring(ctx)
    cs2.v_potential_3d(ctx); cs2.v_field_3d(ctx); cs2.v_potential_radial(ctx); cs2.v_field_radial(ctx)
    lemmas(ctx); cs4.v_radial_spec(ctx); cs4.v_3d_spec(ctx)
def lemmas(ctx):
    N=T.var('N','I'); xs=V('px py pz'); m={cs2.X[i]:xs[i] for i in range(3)}; pc=[T.le(T.IZERO,N)]
    def go3():
        V_=T.subst(cs2.s_pot3(N),m)
        for c in range(3): ctx.zero('lemma: 3D mesh field component %s = minus the derivative of the mesh potential'%'xyz'[c],T.subst(cs2.s_field3(N,c),m)+T.diff(V_,xs[c]),pc)
    ctx.attempt('lemma 3D',go3)
    def gor():
        V_=T.subst(cs2.s_potr(N),m); F=[T.subst(f,m) for f in cs2.s_fieldr(N)]; rho=T.subst(cs2.RHO,m); off=pc+[T.le(T.R(MINAX),rho)]
        far=P._assume_cond
        cond=T.le(T.R(MINAX),rho); small=T.lt(rho,T.R(MINAX))
        for c in range(3):
            f=P._assume_cond(P._assume_cond(F[c],cond,True),small,False)
            ctx.zero('lemma: radial mesh field component %s = minus the derivative of the mesh potential (off axis)'%'xyz'[c],f+T.diff(V_,xs[c]),off+[T.lt(T.ZERO,sq(xs[0])+sq(xs[1]))],env=None)
        on={xs[0]:T.ZERO,xs[1]:T.ZERO}
        r0,z0,r,z=V('r0 z0 r z')
        # K(complementary parameter p) = pi/2 - pi/8 (p-1) + O((p-1)^2) near p=1
        ctx.trust('Taylor expansion of the complete elliptic integral K at parameter 0: K = pi/2 (1 + m/4 + O(m^2))')
        S_=sq(z-z0)+sq(r+r0); p_=(sq(z-z0)+sq(r-r0))/S_
        tay=r*(T.PI/2-T.PI/8*(p_-1))/(T.PI*T.sqrt(S_)); at0=lambda t: T.subst(t,{r0:T.ZERO}); pos=[T.lt(T.ZERO,r)]
        ctx.zero('lemma: on the axis the radial derivative of the ring potential vanishes',at0(T.diff(tay,r0)),pos)
        ctx.zero('lemma: on the axis the ring potential is the axial potential r/(2 sqrt((z0-z)^2+r^2))',at0(tay)-s_axis(z0,r,z),pos)
        ctx.zero('lemma: on the axis the axial component is the derivative of the axial potential',at0(T.diff(tay,z0))-T.diff(s_axis(z0,r,z),z0),pos)
        for c in(0,1):
            ctx.zero('lemma: on the axis the transverse component %s is zero'%'xy'[c],P._assume_cond(F[c],cond,False),pc+[T.lt(rho,T.R(MINAX))])
    ctx.attempt('lemma radial',gor)
