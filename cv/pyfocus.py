"""Contract of focus_position (C15): the normal equations of the transverse deviation of the rays."""
import numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, explore, tr, tn, tt, Unsupported
from .pygeo import ok
from .pylib import leaves
W='traceon/focus.py:focus_position'
def last(i,c): return T.fun('free_last_%d'%c,tt(i))
class Traj:
    """a trajectory: (n, 6) array, of which only the last sample is of interest."""
    ndim=2
    def __init__(s,i): s.i=i; s.n=S(T.mk('f',('free_nsamples',tt(i)),'I')); Y.cur.pc+=[T.lt(T.IZERO,s.n.t),T.bnot(T.eq(T.ZERO,last(i,5)))]
    @property
    def shape(s): return (s.n,6)
    def __len__(s): return s.n
    def __getitem__(s,k):
        j,c=k if isinstance(k,tuple) else (k,slice(None))
        jt=tt(j); 
        if not (T.isc(jt) and T.cv(jt)==-1 or P.prove_bool(T.eq(jt,T.sub(s.n.t,T.IONE)),Y.cur.pc).status=='proved'): raise Unsupported('a sample other than the last one')
        row=np.empty(6,object)
        for q in range(6): row[q]=S(last(s.i,q))
        return row[c]
class Rays(A.GenIter):
    """any number of trajectories."""
    def __init__(s,n): super().__init__(tt(n),Traj)
    def __len__(s): return S(s.n)
    def __getitem__(s,k): return Traj(k)
def columns(a):
    rs=getattr(a,'colsof',None)
    if rs is not None: return list(rs)
    return [A.SArr(a.n,(),lambda i,c=c:a.elem(i)[c],float,[(o,m,A.SArr(m,(),lambda i,x=x,c=c:x.elem(i)[c],float)) for o,m,x in a.parts] if a.parts else None) for c in range(a.tail[0])]
def rowsum(n,arrays,f):
    """sum over all rows of f(entries), part by part where the arrays are concatenations of equally long parts."""
    lv=[leaves(a) for a in arrays]; cut=[l for l in lv if len(l)>1]
    if cut and all(len(c)==len(cut[0]) and all(x[0] is y[0] and x[1] is y[1] for x,y in zip(c,cut[0])) for c in cut) and len(cut)==len(lv):
        r=T.ZERO
        for k,(o,m,_) in enumerate(cut[0]): v=T.fresh('r','I'); r=T.add(r,T.Sum(v,T.IZERO,m,f([tr(l[k][2].elem(v)) for l in lv])))
        return r
    v=T.fresh('r','I')
    return T.Sum(v,T.IZERO,n,f([tr(a.elem(v)) for a in arrays]))
def spec(N,x,y,z):
    """derivatives of half the summed squared transverse deviation with respect to z, x, y."""
    def s(w):
        v=T.fresh('i','I'); sx,sy=T.div(last(v,3),last(v,5)),T.div(last(v,4),last(v,5))
        rx=T.sub(T.add(last(v,0),T.mul(sx,T.sub(z,last(v,2)))),x); ry=T.sub(T.add(last(v,1),T.mul(sy,T.sub(z,last(v,2)))),y)
        return T.Sum(v,T.IZERO,N,w(sx,sy,rx,ry))
    return [('deviation along the slopes averages to zero',s(lambda sx,sy,rx,ry:T.add(T.mul(sx,rx),T.mul(sy,ry)))),('x is the mean ray position',s(lambda sx,sy,rx,ry:rx)),('y is the mean ray position',s(lambda sx,sy,rx,ry:ry))]
def v_focus(ctx):
    ctx.function(W,'the returned point satisfies the normal equations of the least-squares problem','contract'); N=X('nrays','I'); lab='focus_position'
    from .pylib import full_loader,SUMS
    L,B,lib=full_loader(ctx.unit(),SUMS()); M=L.get('traceon.focus')
    log=[]; cut=[]
    def lstsq(a,b,rcond=None):
        b=A.lift_arr(b)
        if not(rcond is None or isinstance(rcond,(int,float)) and rcond<=1e-13): cut.append(rcond)      # directions of small singular value are dropped: not the minimum
        if not hasattr(a,'tail') or len(a.tail)!=1 or b.tail: raise Unsupported('least-squares system')
        Y.cur.events.append(('same length',T.eq(b.n,tt(a.n)),list(Y.cur.pc)))
        sol=np.array([S(T.var('sol%d'%k,'R')) for k in range(a.tail[0])],object); log.append((columns(a),b,sol))
        return sol,S(T.var('resid','R')),3,np.array([S(T.var('sv%d'%k,'R')) for k in range(a.tail[0])],object)
    la=type('LA',(Y.Linalg,),dict(norm=staticmethod(A.s_norm),lstsq=staticmethod(lstsq)))(); L.np.extra['linalg']=la
    pre=[T.lt(T.IONE,tt(N))]
    def go(): log.clear(); r=M.focus_position(Rays(N)); return r,list(log)
    def body():
        for o in ok(ctx,lab,explore(go,pre)):
            r,lg=o.val; r=np.ravel(Y.toarr(r))
            if not ctx.check(lab+': three coordinates',len(r)==3): continue
            if len(lg)!=1: ctx.rec(lab,'unsupported','structure','%d least-squares problems'%len(lg)); continue
            cols,b,sol=lg[0]; n=b.n
            if len(cols)!=3: ctx.rec(lab,'unsupported','structure','%d unknowns'%len(cols)); continue
            res=[]
            for c in range(3): res.append(rowsum(n,cols+[b],lambda e,c=c:T.mul(e[c],T.sub(T.add(*[T.mul(e[k],tr(sol[k])) for k in range(3)]),e[3]))))
            for nm,s in spec(tt(N),*[tr(x) for x in r]):
                hit=[(c,sg) for c in range(3) for sg in(1,-1) if P.prove_zero(T.sub(s,T.mul(T.R(sg),res[c])),o.pc,limit=10).status=='proved']
                ctx.rec(lab+': '+nm,'proved' if hit else 'unknown','nf','normal equation %d of the solved system'%hit[0][0] if hit else 'not one of the normal equations of the solved system')
            ctx.check(lab+': no direction of the system is dropped (rcond)',not cut,'rcond=%s'%cut[:1])
            A.events(ctx,lab,[o])
    ctx.attempt(lab,body)
def v_lemmas(ctx):
    """normal equations <=> minimum; unique if two slopes differ; a common point of all rays is the solution."""
    a,d=T.var('dev'),T.var('ddev')
    ctx.zero('lemma: squared deviation at another point = at this one + 2 (deviation . change) + change^2',T.sub(T.mul(T.add(a,d),T.add(a,d)),T.add(T.mul(a,a),T.mul(T.R(2),T.mul(a,d)),T.mul(d,d))))
    sx,sy,tx,ty,dx,dy,dz=[T.var(n) for n in('sx','sy','tx','ty','dx','dy','dz')]
    z=lambda s,d:T.eq(T.sub(T.mul(s,dz),d),T.ZERO)
    ctx.true('lemma: two different slopes make the minimum unique',T.band(T.eq(dx,T.ZERO),T.eq(dy,T.ZERO),T.eq(dz,T.ZERO)),[z(sx,dx),z(sy,dy),z(tx,dx),z(ty,dy),T.bor(T.bnot(T.eq(sx,tx)),T.bnot(T.eq(sy,ty)))])
    x,zi,c,zc,s=[T.var(n) for n in('x','zi','c','zc','s')]
    ctx.true('lemma: a ray through the point has no deviation there',T.eq(T.sub(T.add(x,T.mul(s,T.sub(zc,zi))),c),T.ZERO),[T.eq(T.add(x,T.mul(s,T.sub(zc,zi))),c)])
