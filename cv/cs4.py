"""Contracts of the axial series (radial and 3D expansion): interval selection, bounds, series, gradient."""
from .cs import *
from .cs import _once
from .cs2 import X
from . import term as T, nf
import math
NU,MM=4,8
def clampidx(z,z0,dz,N):
    t=T.fun('trunc',(z-z0)/dz)
    lo=T.ite(T.lt(t,T.IZERO),T.IZERO,t)
    hi=T.sub(N,T.I(2))
    return T.ite(T.lt(hi,lo),hi,lo)
def setup(ctx,f,per,field):
    R=Run(ctx); N=T.var('N','I'); R.assume(T.le(T.I(2),N))
    z0=T.sel('zs',T.IZERO); z1=T.sel('zs',T.IONE); zl=T.sel('zs',T.sub(N,T.IONE)); dz=z1-z0
    # the samples are equally spaced and increasing: instances of zs[k] = z0 + k*dz used below
    R.assume(T.lt(z0,z1),T.eq(zl,z0+T.itor(T.sub(N,T.IONE))*dz))
    pt=R.arr('point',3); zs=R.arr('zs',N); co=R.arr('coef',T.mul(T.I(per),T.sub(N,T.IONE)))
    fo=R.out('field',3) if field else None
    return R,N,pt,zs,co,fo,z0,zl,dz
class Table:
    """replace reads of coef[per*idx+k] by variables C<k>, and zs[idx] by base; checks all use one idx."""
    def __init__(s,ctx,f,terms,per,pc,IDX,label):
        sels=sorted({u for t in terms for u in T.walk([t]) if u.op=='sel' and u.args[0]=='coef'},key=lambda u:u.h)
        s.map={}; s.C={}; s.ok=True
        for u in sels:
            # offset - per*IDX must be a constant
            d=T.sub(u.args[1],T.mul(T.I(per),IDX)); k=None
            if T.isc(d): k=int(T.cv(d))
            else:
                base=s.base(u.args[1],per)
                if base is None: raise Unsupported('coefficient index form')
                idx,k=base
                if idx is not getattr(s,'idx',None):
                    s.idx=idx
                    if not ctx.true(label+': the interval index is that of the interval containing z (last interval at the last sample)',T.eq(idx,IDX),pc): s.ok=False
            s.map[u]=s.C.setdefault(k,T.var('C%d'%k))
        if not hasattr(s,'idx'): s.idx=IDX
        zsel={u for t in terms for u in T.walk([t]) if u.op=='sel' and u.args[0]=='zs' and u.args[1] is s.idx}
        s.zb=T.var('zbase')
        for u in zsel: s.map[u]=s.zb
    def base(s,off,per):
        """off = per*idx + k with 0<=k<per."""
        c=0; rest=[]
        for t in (off.args if off.op=='add' else (off,)):
            if T.isc(t): c+=int(T.cv(t))
            else: rest.append(t)
        if len(rest)!=1: return None
        t=rest[0]
        if per==1: return t,c
        if t.op=='mul' and T.isc(t.args[0]) and T.cv(t.args[0])==per: return T.mul(T.IONE,*t.args[1:]),c
        return None
    def __call__(s,t): return T.subst(t,s.map)
def v_interval(ctx):
    """the clamped index is the interval containing z (samples at 0,1,..,N-1 in units of the spacing)."""
    if not _once(ctx,'interval'): return
    t=T.var('t'); N=T.var('N','I'); i=clampidx(t,T.ZERO,T.ONE,N); pc=[T.le(T.I(2),N),T.le(T.ZERO,t),T.le(t,T.itor(T.sub(N,T.IONE)))]
    ctx.vacuity('interval lemma',pc)
    ctx.true('lemma: 0 <= index <= N-2',T.band(T.le(T.IZERO,i),T.le(i,T.sub(N,T.I(2)))),pc)
    ctx.true('lemma: zs[index] <= z <= zs[index+1]',T.band(T.le(T.itor(i),t),T.le(t,T.itor(T.add(i,T.IONE)))),pc)
    ctx.true('lemma: z strictly before the next sample, except at the last sample',T.bor(T.lt(t,T.itor(T.add(i,T.IONE))),T.eq(t,T.itor(T.sub(N,T.IONE)))),pc)
def v_series(ctx,which):
    """which: 'radial' or '3d'.  Interval, bounds, zero outside; returns closed forms of potential and field."""
    per=54 if which=='radial' else 2*NU*MM*4
    out={}
    for f,field in(('potential_%s_derivs'%which,False),('field_%s_derivs'%which,True)):
        def go():
            R,N,pt,zs,co,fo,z0,zl,dz=setup(ctx,f,per,field); z=X[2]; ctx.vacuity(f,R.st.pc)
            IDX=clampidx(z,z0,dz,N); inside=T.band(T.le(z0,z),T.le(z,zl))
            args=[pt]+([fo] if field else [])+[zs,co,N]
            ps=R.run(f,*args); terms=[]
            for p in ps:
                vals=[getmem(p,fo,i) for i in range(3)] if field else [p.ret]
                # outside the sampled range: exactly zero
                for i,v in enumerate(vals):
                    for cond,side in((T.lt(z,z0),'below the first sample'),(T.lt(zl,z),'above the last sample')):
                        if P.feasible(list(p.pc)+[cond]): 
                            if v is None or not isinstance(v,T.T): ctx.rec(f+': zero '+side,'unsupported','engine','component not written')
                            else: ctx.zero('%s: component %d is exactly zero %s'%(f,i,side),v,list(p.pc)+[cond])
                if P.feasible(list(p.pc)+[inside]): terms.append((list(p.pc)+[inside],vals))
            ctx.vcs(f,R.eng)
            out[f]=(terms,IDX,per,R,N,z0,zl,dz)
        if _once(ctx,'series:'+f): ctx.attempt(f,go)
    return out
def closed(ctx,f,entry):
    """inside terms with the table abstracted: list of (pc, values over C_k, zbase, x,y,z)."""
    terms,IDX,per,R,N,z0,zl,dz=entry; res=[]
    for pc,vals in terms:
        tb=Table(ctx,f,vals,per,pc,IDX,f)
        if not tb.ok: continue
        xs=V('x y z'); m={X[i]:xs[i] for i in range(3)}
        res.append(([T.subst(T.subst(c,tb.map),m) for c in pc if not any(u.op=='sel' and u.args[0] in('zs','coef') for u in T.walk([c]))],[T.subst(tb(v),m) for v in vals],tb))
    return res
def lin(t,atoms): return P.linear_in(t,atoms)
def zero_lin(ctx,name,t,atoms,pc,prefix=''):
    """t==0 for all values of atoms, t linear in them: coefficientwise."""
    z={a:T.ZERO for a in atoms}
    rest=T.subst(t,z)
    ok=ctx.zero(name+': constant part',rest,pc) if rest is not T.ZERO else True
    bad=0
    for a in atoms:
        if not T.occurs(a,t): continue
        c=T.diff(t,a)
        if any(T.occurs(b,c) for b in atoms): ctx.rec(name,'unknown','not linear in the table',''); return
        ctx.zero('%s: coefficient of table entry %s'%(name,a.args[0]),c,pc)
def radial_poly(C,n,u):
    return T.add(*[C.get(6*n+j,T.var('C%d'%(6*n+j)))*T.power(u,5-j) for j in range(6)])
def v_radial_spec(ctx,part='both'):
    """potential = sum_n (-1)^n D_2n (r/2)^(2n)/(n!)^2 ; field = -grad up to the dropped last order."""
    e=v_series(ctx,'radial')
    xs=V('x y z'); x,y,z=xs; zb=T.var('zbase'); u=z-zb; r2=sq(x)+sq(y)
    C={k:T.var('C%d'%k) for k in range(54)}; D=[radial_poly(C,n,u) for n in range(9)]; at=list(C.values())
    k=lambda n: Fr((-1)**n,4**n*math.factorial(n)**2)
    f='potential_radial_derivs'
    Vs=T.add(*[D[2*n]*T.power(r2,n)*T.R(k(n)) for n in range(5)])
    if f in e:
        for pc,vals,tb in closed(ctx,f,e[f]): zero_lin(ctx,f+': the even radial series of order 8',vals[0]-Vs,at,pc)
    f='field_radial_derivs'
    if f in e:
        # -dV/dx with V truncated: transverse uses D2..D8 (all orders), axial D1..D7
        g=T.add(*[D[2*n]*T.R(-k(n)*2*n)*T.power(r2,n-1) for n in range(1,5)])
        ez=T.add(*[D[2*n+1]*T.R(-k(n))*T.power(r2,n) for n in range(4)])
        for pc,vals,tb in closed(ctx,f,e[f]):
            for i,s in enumerate((x*g,y*g,ez)): zero_lin(ctx,f+': component %s of the differentiated series'%'xyz'[i],vals[i]-s,at,pc)
        # lemma: the specified field is -grad of the specified potential when D_{n+1} is the z-derivative of D_n (n<8)
        Df=[T.var('Q%d'%n) for n in range(9)]
        Vq=T.add(*[Df[2*n]*T.power(r2,n)*T.R(k(n)) for n in range(5)])
        gq=T.add(*[Df[2*n]*T.R(-k(n)*2*n)*T.power(r2,n-1) for n in range(1,5)])
        ctx.zero('lemma: transverse field = -dV/dx of the series',x*gq+T.diff(Vq,x),[]); ctx.zero('lemma: transverse field = -dV/dy of the series',y*gq+T.diff(Vq,y),[])
        dz_=T.add(*[Df[2*n+1]*T.power(r2,n)*T.R(k(n)) for n in range(4)])   # d/dz D_2n = D_2n+1; order 9 is not stored
        ezq=T.add(*[Df[2*n+1]*T.R(-k(n))*T.power(r2,n) for n in range(4)])
        ctx.zero('lemma: axial field = -dV/dz of the series up to the stored orders',ezq+dz_,[])
def cidx(s,nu,m,j): return s*NU*MM*4+nu*MM*4+m*4+j
def v_3d_spec(ctx):
    e=v_series(ctx,'3d')
    x,y,z=V('x y z'); zb=T.var('zbase'); u=z-zb; r=T.sqrt(sq(x)+sq(y)); phi=T.fun('atan2',y,x)
    C={k:T.var('C%d'%k) for k in range(2*NU*MM*4)}; at=list(C.values())
    A=lambda s,nu,m:T.add(*[C[cidx(s,nu,m,j)]*T.power(u,3-j) for j in range(4)])
    Vs=T.add(*[(A(0,nu,m)*T.fun('cos',T.R(m)*phi)+(A(1,nu,m)*T.fun('sin',T.R(m)*phi) if m else T.ZERO))*T.power(r,2*nu+m) for nu in range(NU) for m in range(MM)])
    f='potential_3d_derivs'
    if f in e:
        for pc,vals,tb in closed(ctx,f,e[f]): zero_lin(ctx,f+': the series sum (A cos m phi + B sin m phi) r^(m+2nu)',vals[0]-Vs,at,pc)
    f='field_3d_derivs'
    if f in e:
        off=[T.le(T.R(MINAX),r)]
        G=[T.neg(T.diff(Vs,v)) for v in(x,y,z)]
        for pc,vals,tb in closed(ctx,f,e[f]):
            axis=not P.feasible(pc+off+[T.lt(T.ZERO,sq(x)+sq(y))])
            for i in range(3):
                if axis:
                    # limit on the axis: -grad of the terms of order r^0, r^1:  A00(z) + r (A01 cos + B01 sin)
                    s=[T.neg(A(0,0,1)),T.neg(A(1,0,1)),T.neg(T.diff(A(0,0,0),z))][i]
                    zero_lin(ctx,f+': on the axis, component %s is the limit of minus the gradient'%'xyz'[i],vals[i]-s,at,[])
                else: zero_lin(ctx,f+': component %s is minus the derivative of the series'%'xyz'[i],vals[i]-G[i],at,[T.lt(T.ZERO,sq(x)+sq(y))])
