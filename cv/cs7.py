"""3D axial expansion coefficients (C31)."""
from fractions import Fraction as Fr
from math import comb
from .cs import *
from .cs import Run, getmem, _once
from .cs2 import NQ3
from . import term as T
F='axial_coefficients_3d'; NU,MM=4,8
def simplest(c):
    """a decimal literal within 2e-14 (relative) of a short fraction stands for that fraction"""
    if c.denominator<=10**13: return c
    s=-1 if c<0 else 1; a=abs(c); lo,hi=a*(1-Fr(2,10**14)),a*(1+Fr(2,10**14))
    def go(lo,hi):
        f=lo.numerator//lo.denominator
        if f==lo: return Fr(f)
        if f+1<=hi: return Fr(f+1)
        r=go(1/(hi-f),1/(lo-f)); return f+1/r
    q=go(lo,hi); return s*q if q.denominator<=10**13 else c
def literals(t):
    return T.subst(t,{u:T.R(simplest(T.cv(u))) for u in T.walk([t]) if u.op=='c' and u.sort=='R' and T.cv(u).denominator>10**13})
def legendre(l):
    """coefficients of the Legendre polynomial (Bonnet recursion)"""
    a,b=[Fr(1)],[Fr(0),Fr(1)]
    if l==0: return a
    for n in range(1,l):
        c=[Fr(0)]*(n+2)
        for k,x in enumerate(b): c[k+1]+=Fr(2*n+1,n+1)*x
        for k,x in enumerate(a): c[k]-=Fr(n,n+1)*x
        a,b=b,c
    return b
def amplitude(nu,m,s,R):
    """coefficient of r^(m+2nu) cos(m(phi-mu)) in 1/(4 pi |p-x|) = sum_l r^l/(4 pi R^(l+1)) P_l(s cos(phi-mu)),
    with cos^k = 2^-k sum_j C(k,j) cos((k-2j)..)"""
    l=m+2*nu; a=T.ZERO
    for k,c in enumerate(legendre(l)):
        if c and k>=m and (k-m)%2==0: a=T.add(a,T.mul(T.R(c*comb(k,(k-m)//2)*(1 if m==0 else 2)/Fr(2)**k),T.power(s,k)))
    return T.div(a,T.mul(T.R(4),T.PI,T.power(R,l+1)))
def run3(ctx):
    R=Run(ctx,[]); R.eng.domain=False; N,M=T.var('N','I'),T.var('Nz','I'); R.assume(T.le(T.IZERO,N),T.le(T.IZERO,M)); ctx.vacuity(F,R.st.pc)
    ch=R.arr('charges',N); ja=R.arr('jac',T.mul(T.I(NQ3),N),('arr',D,NQ3)); po=R.arr('pos',T.mul(T.I(NQ3*3),N),('arr',('arr',D,3),NQ3))
    tc=R.arr('trigc',T.mul(T.I(NQ3*8),N)); ts=R.arr('trigs',T.mul(T.I(NQ3*8),N)); zs=R.arr('zs',M); out=R.arr('coef',T.mul(T.I(64),M))
    return R,N,M,(ch,ja,po,tc,ts,N,zs,out,M)
def v_coefficients(ctx):
    """every output cell is its initial value plus the sum over elements h and quadrature points k of
    charges[h]*jac[h][k]*amplitude(nu,m)*{cos,sin}(m mu)"""
    ctx.function(F,'traceon/backend/three_d.c'); R,N,M,a=run3(ctx); out=a[7].obj; n0={k:v for k,v in R.eng.objs.items()} if isinstance(R.eng.objs,dict) else None
    ctx.trust('decimal literals within 2e-14 (relative) of a fraction with denominator below 1e13 stand for that fraction (tables of 1/n!)')
    ctx.trust('x = rho cos(mu), y = rho sin(mu) with rho = sqrt(x^2+y^2) > 0 and mu = atan2(y,x)')
    rho,p,mu,z=T.var('rho'),T.var('p'),T.var('mu'),T.var('z0'); pos=[T.lt(T.ZERO,rho)]
    q=T.fresh('q','I'); h=T.fresh('h','I'); paths=0
    s1=T.sqrt(T.add(T.R(1),T.power(p,2)))
    done={}
    for x in R.run(F,*a):
        paths+=1; ctx.vcs(F,R.eng); st=x.st.copy(); st.pc+=[T.le(T.IZERO,q),T.lt(q,M)]; R.eng.record=False
        # frame: inputs untouched
        ctx.check(F+': charges, Jacobians, positions and sample points are not modified',all(not st.log.get(o.obj) for o in(a[0],a[1],a[2],a[6])),'a write to an input array')
        for c in(0,1):
            for nu in range(NU):
                for m in range(MM):
                    name='%s: coefficient of %s, nu=%d, m=%d'%(F,'cos' if c==0 else 'sin',nu,m); off=T.add(T.mul(T.I(64),q),T.I(32*c+8*nu+m))
                    ctx.attempt(name,_cell,ctx,name,R,st,out,off,c,nu,m,N,q,h,rho,p,mu,z,s1,pos,done)
        R.eng.record=True
    ctx.check(F+': terminates',paths>0,'no path')
def _cell(ctx,name,R,st,out,off,c,nu,m,N,q,h,rho,p,mu,z,s1,pos,done):
    v=R.eng.read(st,out,off,D); init=T.sel(R.eng.objs[out].name,off,'R'); d=T.sub(v,init)
    parts=d.args if d.op=='add' else (d,); body=T.ZERO; rest=T.ZERO
    for u in parts:
        k=T.R(1); w=u
        if u.op=='mul' and any(f.op=='Sum' for f in u.args):
            w=next(f for f in u.args if f.op=='Sum'); k=T.mul(*[f for f in u.args if f is not w])
        if w.op=='Sum' and w.args[1] is T.IZERO and w.args[2] is N and not T.occurs(w.args[0],k): body=T.add(body,T.mul(k,T.subst(w.args[3],{w.args[0]:h})))
        else: rest=T.add(rest,u)
    if c==1 and m==0: pass
    if rest is not T.ZERO: raise Unsupported('cell is not its initial value plus a sum over the elements: '+T.show(rest,4))
    J=[T.sel('jac',T.add(T.mul(T.I(NQ3),h),T.I(k)),'R') for k in range(NQ3)]; zz=T.sel('zs',q,'R'); tot=T.ZERO; body=literals(body)
    ks=[]
    for k in range(NQ3):
        b=T.subst(body,{J[j]:T.ZERO for j in range(NQ3) if j!=k}); tot=T.add(tot,b); ks.append(b)
    if T.sub(body,tot) is not T.ZERO: ctx.zero(name+': one contribution per quadrature point',T.sub(body,tot),[])
    for k,b in enumerate(ks):
        P=[T.sel('pos',T.add(T.mul(T.I(3*NQ3),h),T.I(3*k+i)),'R') for i in range(3)]; C=T.var('charge'); jv=T.var('jacobian')
        b=T.subst(b,{P[0]:T.mul(rho,T.cos(mu)),P[1]:T.mul(rho,T.sin(mu)),P[2]:T.add(zz,T.mul(rho,p)),J[k]:jv,T.sel('charges',h,'R'):C})
        b=T.subst(b,{zz:z})
        b=T.subst(b,{u:mu for u in T.walk([b]) if u.op=='f' and u.args[0]=='atan2' and u.args[1] is T.mul(rho,T.sin(mu)) and u.args[2] is T.mul(rho,T.cos(mu))})
        spec=T.mul(C,jv,amplitude(nu,m,T.power(s1,-1),T.mul(rho,s1)),T.cos(T.mul(T.R(m),mu)) if c==0 else T.sin(T.mul(T.R(m),mu)))
        key=(b,c,nu,m)
        if key in done: ctx.rec(name+': quadrature point %d'%k,done[key],'same term'); continue
        ctx.zero(name+': quadrature point %d'%k,T.sub(b,spec),pos); done[key]=ctx.obs[-1]['status']
