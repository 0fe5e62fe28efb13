"""Contracts of the summation routines of the backend (all lengths, all points)."""
from .cs import *
from . import term as T

def ssum(N,nq,body):
    i,k=T.fresh('i','I'),T.fresh('k','I')
    return T.Sum(i,T.IZERO,N,T.add(*[body(i,T.I(kk)) for kk in range(nq)]))
def AT(name,*idx): 
    """element of a C array given (index, stride) pairs."""
    off=T.IZERO
    for i,s in idx: off=T.add(off,T.mul(i,T.I(s)))
    return T.sel(name,off)
def setup(R,nq,dim,pname='pos'):
    N=T.var('N','I'); R.assume(T.le(T.IZERO,N)); R.N=N
    return (R.arr('charges',N),R.arr('jac',T.mul(T.I(nq),N),('arr',D,nq)),R.arr(pname,T.mul(T.I(nq*dim),N),('arr',('arr',D,dim),nq)),N)
def w2(i,k): return AT('charges',(i,1))*AT('jac',(i,NQ2),(k,1))
def p2(i,k,c): return AT('pos',(i,NQ2*2),(k,2),(T.I(c),1))
def w3(i,k): return AT('charges',(i,1))*AT('jac',(i,NQ3),(k,1))
def p3(i,k,c): return AT('pos',(i,NQ3*3),(k,3),(T.I(c),1))
X=[T.sel('point',T.I(i)) for i in range(3)]
RHO=T.sqrt(sq(X[0])+sq(X[1]))
KC=['potential_3d_point','dx1_potential_3d_point','dy1_potential_3d_point','dz1_potential_3d_point','potential_radial_ring','dr1_potential_radial_ring','dz1_potential_radial_ring',
    'current_potential_axial_radial_ring','current_field_radial_ring','axial_derivatives_radial_ring','current_axial_derivatives_radial_ring']
def s_pot3(N): return ssum(N,NQ3,lambda i,k: w3(i,k)*s_point(*X,*[p3(i,k,c) for c in range(3)]))
def s_field3(N,c): return ssum(N,NQ3,lambda i,k: -w3(i,k)*s_dpoint[c](*X,*[p3(i,k,d) for d in range(3)]))
def s_potr(N): return ssum(N,NQ2,lambda i,k: w2(i,k)*s_ring(RHO,X[2],p2(i,k,0),p2(i,k,1)))
def onaxis(er): return T.ite(T.le(T.R(MINAX),RHO),er,T.ZERO)
def s_fieldr(N):
    er=ssum(N,NQ2,lambda i,k: -w2(i,k)*s_dr_axis(RHO,X[2],p2(i,k,0),p2(i,k,1)))
    ez=ssum(N,NQ2,lambda i,k: -w2(i,k)*s_dz(RHO,X[2],p2(i,k,0),p2(i,k,1)))
    return [onaxis(X[0]/RHO*er),onaxis(X[1]/RHO*er),ez]
def s_cfield(N):
    br=ssum(N,NQ3,lambda i,k: w3(i,k)*s_cring(RHO,X[2],p3(i,k,0),p3(i,k,2))[0])
    bz=ssum(N,NQ3,lambda i,k: w3(i,k)*s_cring(RHO,X[2],p3(i,k,0),p3(i,k,2))[1])
    return [onaxis(X[0]/RHO*br),onaxis(X[1]/RHO*br),bz]

def v_sum_scalar(ctx,f,spec,nq,dim,first,label):
    if not _once2(ctx,f): return
    def go():
        R=Run(ctx,KC)
        a=[R.arr('point',3)] if first=='point' else [T.var('z0')]
        s=setup(R,nq,dim); ctx.vacuity(f,R.st.pc)
        for p in R.run(f,*a,*s): ctx.zero(f+': '+label,T.sub(p.ret,spec(R.N)),p.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def v_sum_vec(ctx,f,spec,nq,dim,label,order='point result'):
    if not _once2(ctx,f): return
    def go():
        R=Run(ctx,KC); pt=R.arr('point',3); ro=R.out('result',3); s=setup(R,nq,dim); ctx.vacuity(f,R.st.pc)
        for p in R.run(f,pt,ro,*s):
            sp=spec(R.N)
            for c in range(3): ctx.zero(f+': component %s %s'%('xyz'[c],label),T.sub(getmem(p,ro,c),sp[c]),p.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def _once2(ctx,f):
    from .cs import _once
    return _once(ctx,'sum:'+f)
def v_potential_3d(ctx): v_sum_scalar(ctx,'potential_3d',s_pot3,NQ3,3,'point','sum over all elements and quadrature points of charge*weight*kernel')
def v_field_3d(ctx): v_sum_vec(ctx,'field_3d',lambda N:[s_field3(N,c) for c in range(3)],NQ3,3,'is the charge-weighted sum of minus the kernel gradient')
def v_potential_radial(ctx): v_sum_scalar(ctx,'potential_radial',s_potr,NQ2,2,'point','sum over all elements and quadrature points of charge*weight*ring potential')
def v_field_radial(ctx): v_sum_vec(ctx,'field_radial',s_fieldr,NQ2,2,'is the projected charge-weighted sum of minus the ring gradient')
def v_current_field(ctx): v_sum_vec(ctx,'current_field',s_cfield,NQ3,3,'is the projected current-weighted sum of ring fields')
def v_current_potential(ctx): v_sum_scalar(ctx,'current_potential_axial',lambda N: ssum(N,NQ3,lambda i,k: w3(i,k)*s_caxis(T.var('z0'),p3(i,k,0),p3(i,k,2))),NQ3,3,'z','sum over all elements and quadrature points')
def v_axial_mesh(ctx,f='axial_derivatives_radial',S=None,nq=NQ2,dim=2,rz=(0,1)):
    if not _once2(ctx,f): return
    S=S or S_AX
    def go():
        R=Run(ctx,KC); N=T.var('N','I'); M=T.var('Nz','I'); R.assume(T.le(T.IZERO,N),T.le(T.IZERO,M)); ctx.vacuity(f,R.st.pc)
        dv=R.arr('derivs',T.mul(T.I(9),M)); ch=R.arr('charges',N); ja=R.arr('jac',T.mul(T.I(nq),N),('arr',D,nq)); po=R.arr('pos',T.mul(T.I(nq*dim),N),('arr',('arr',D,dim),nq)); z=R.arr('z',M)
        q=T.fresh('q','I')
        for p in R.run(f,dv,ch,ja,po,N,z,M):
            s=p.st.copy(); s.pc+=[T.le(T.IZERO,q),T.lt(q,M)]
            for l in range(9):
                off=T.add(T.mul(T.I(9),q),T.I(l)); R.eng.record=False
                v=R.eng.read(s,dv.obj,off,D)
                W_,P_=(w2,p2) if nq==NQ2 else (w3,p3)
                sp=T.sel('derivs',off)+ssum(N,nq,lambda i,k: W_(i,k)*S[l](T.sel('z',q),P_(i,k,rz[0]),P_(i,k,rz[1])))
                ctx.zero(f+': row q, order %d accumulates the weighted sum of ring derivatives'%l,T.sub(v,sp),s.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def v_axial_mesh_current(ctx): v_axial_mesh(ctx,'current_axial_derivatives_radial',S_CAX,NQ3,3,(0,2))
ALLSUM=[v_potential_3d,v_field_3d,v_potential_radial,v_field_radial,v_current_field,v_current_potential,v_axial_mesh,v_axial_mesh_current]
