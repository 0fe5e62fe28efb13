"""Contracts of the interpolation of axial derivatives (C27)."""
import numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, explore, tr, tn, tt, Unsupported
from .pygeo import ok
from .pylib import full_loader, SUMS, TABLES
L_=A.lift_arr; K=T.var('k','I')
class Poly:
    """piecewise polynomials in the local coordinate: coefficients of the highest power first."""
    def __init__(s,x,rows): s.x=x; s._rows=rows
    @property
    def c(s): return A.Cols(s._rows,float)
def local(z,j): return T.sub(tr(z.elem(T.add(j,T.IONE))),tr(z.elem(j)))
class BPoly:
    """contract: the piecewise quintic with the given values, first and second derivatives at the samples."""
    @staticmethod
    def from_derivatives(x,y,orders=None,extrapolate=None):
        x,y=L_(x),L_(y)
        if y.tail!=(3,) or orders is not None: raise Unsupported('BPoly.from_derivatives')
        Y.cur.events.append(('same length',T.eq(x.n,y.n),list(Y.cur.pc)))
        b=BPoly(); b.x=x; b.y=y
        return b
class PPoly:
    @staticmethod
    def from_bernstein_basis(b,extrapolate=None):
        x,y=b.x,b.y; n=T.sub(x.n,T.IONE)
        def co(j):
            h=local(x,j); a,d=[[tr(q) for q in y.elem(t)] for t in(j,T.add(j,T.IONE))]; h2=T.mul(h,h)
            # unknown c3,c4,c5 from the conditions at the right end
            A0=T.sub(d[0],T.add(a[0],T.mul(a[1],h),T.mul(T.R(.5),T.mul(a[2],h2)))); A1=T.mul(h,T.sub(d[1],T.add(a[1],T.mul(a[2],h)))); A2=T.mul(h2,T.sub(d[2],a[2])); h3=T.mul(h2,h)
            c3=T.div(T.add(T.mul(T.R(10),A0),T.mul(T.R(-4),A1),T.mul(T.R(.5),A2)),h3); c4=T.div(T.add(T.mul(T.R(-15),A0),T.mul(T.R(7),A1),T.neg(A2)),T.mul(h3,h)); c5=T.div(T.add(T.mul(T.R(6),A0),T.mul(T.R(-3),A1),T.mul(T.R(.5),A2)),T.mul(h3,h2))
            return [c5,c4,c3,T.mul(T.R(.5),a[2]),a[1],a[0]]
        return Poly(x,[A.SArr(n,(),lambda j,q=q:S(co(j)[q]),float) for q in range(6)])
CUB=[0]
def CubicSpline(x,y,axis=0,bc_type='not-a-knot',extrapolate=None):
    """contract: a piecewise cubic through the samples (its other freedom is not specified)."""
    x,y=L_(x),L_(y)
    if y.tail: raise Unsupported('CubicSpline of several columns')
    Y.cur.events.append(('same length',T.eq(x.n,y.n),list(Y.cur.pc))); CUB[0]+=1; m=CUB[0]; n=T.sub(x.n,T.IONE)
    def co(j):
        h=local(x,j); a,d=tr(y.elem(j)),tr(y.elem(T.add(j,T.IONE))); c0,c1=T.fun('free_cub%d_0'%m,j),T.fun('free_cub%d_1'%m,j)
        return [c0,c1,T.sub(T.div(T.sub(d,a),h),T.add(T.mul(c0,T.mul(h,h)),T.mul(c1,h))),a]
    return Poly(x,[A.SArr(n,(),lambda j,q=q:S(co(j)[q]),float) for q in range(4)])
def load(ctx):
    L,B,lib=full_loader(ctx.unit(),{**SUMS(),**TABLES()}); L.stub('scipy.interpolate',CubicSpline=CubicSpline,BPoly=BPoly,PPoly=PPoly)
    ctx_close=L.np.extra['isclose']
    return L,B
def mods(L):
    for m in('interpolation','solver'):
        I=L.get('traceon.'+m)
        if hasattr(I,'FieldRadialAxial') and hasattr(I,'_quintic_spline_coefficients'): yield m,I
def deriv(c,q,d):
    """q-th derivative of the polynomial (highest power first) at d."""
    for _ in range(q): c=[T.mul(T.R(len(c)-1-i),x) for i,x in enumerate(c[:-1])]
    r=T.ZERO
    for x in c: r=T.add(T.mul(r,d),x)
    return r
def conditions(ctx,lab,c,z,at,pc,norders=9):
    """the table against the samples at(order,index)."""
    c=L_(c)
    if not ctx.check(lab+': one polynomial of degree 5 per order',c.tail==(9,6),str(c.tail)): return
    A.prove(ctx,lab+': one polynomial per interval',T.eq(c.n,T.sub(z.n,T.IONE)),pc)
    k=K; pc=pc+[A.inrange(k,T.sub(z.n,T.IONE))]; e=c.elem(k); h=local(z,k); pc=pc+[T.bnot(T.eq(h,T.ZERO))]
    for o in range(norders):
        co=[tr(x) for x in e[o]]
        for q in range(3 if o+2<norders else 1):
            for end in(0,1): ctx.zero('%s: order %d, derivative %d at the %s of an interval is the sample'%(lab,o,q,'end' if end else 'start'),T.sub(deriv(co,q,h if end else T.ZERO),at(o+q,T.add(k,T.IONE) if end else k)),pc)
def grid(a,b,n): return A.SArr(tt(n),(),lambda i:S(T.add(tr(a),T.mul(T.div(T.itor(i),T.itor(T.sub(tt(n),T.IONE))),T.sub(tr(b),tr(a))))),float)
def v_spline(ctx):
    """_quintic_spline_coefficients"""
    L,B=load(ctx); n=X('nz','I'); a,b=X('za'),X('zb')
    for m,I in mods(L):
        W='traceon/%s.py:_quintic_spline_coefficients'%m; ctx.function(W,'per interval and order a polynomial reproducing the samples (and for orders 0-6 their first and second derivatives) at both ends','contract'); lab=m+'._quintic_spline_coefficients'
        z=grid(a,b,n); d=A.arr('d',n,(9,)); pre=[T.le(T.I(2),tt(n)),T.lt(tr(a),tr(b))]; ctx.vacuity(lab,pre)
        def body():
            for o in ok(ctx,lab,explore(lambda:I._quintic_spline_coefficients(z,d.T),pre)):
                conditions(ctx,lab,o.val,z,lambda q,i:tr(d.elem(i)[q]),o.pc)
                A.events(ctx,lab,[o])
        ctx.attempt(lab,body)
def v_field(ctx):
    """FieldRadialAxial: sampling and tables."""
    L,B=load(ctx); a,b=X('zmin'),X('zmax'); SV=L.get('traceon.solver')
    for m,I in mods(L):
        for mode in('N','default'):
            ctx.function('traceon/%s.py:FieldRadialAxial.__init__'%m,'N equally spaced samples from zmin to zmax; one table of the electrostatic and one of the magnetostatic derivatives','contract'); ctx.function('traceon/%s.py:FieldRadialAxial._get_interpolation_coefficients'%m,'see __init__','contract')
            lab='%s.FieldRadialAxial (%s)'%(m,'number of samples given' if mode=='N' else 'default number of samples'); n=X('nz','I'); ne,nm=X('ne','I'),X('nm','I')
            cls=[k for k in(getattr(I,'S',None),SV) if k is not None and hasattr(k,'FieldRadialBEM')][0].FieldRadialBEM
            f=cls.__new__(cls)
            def src(k):
                e=SV.EffectivePointCharges.__new__(SV.EffectivePointCharges); e.charges=A.arr(k+'q',ne if k=='e' else nm); e.jacobians=A.arr(k+'j',ne if k=='e' else nm,(16,)); e.positions=A.arr(k+'p',ne if k=='e' else nm,(16,2))
                return e
            f.electrostatic_point_charges=src('e'); f.magnetostatic_point_charges=src('m'); f.current_point_charges=src('m')
            def table(w):
                def at(zs):
                    zs=L_(zs)
                    return A.SArr(zs.n,(9,),lambda i:np.array([S(T.fun('free_%s_%d'%(w,c),tr(zs.elem(i)))) for c in range(9)],object),float)
                return at
            f.get_electrostatic_axial_potential_derivatives=table('E'); f.get_magnetostatic_axial_potential_derivatives=table('M'); f.get_current_axial_potential_derivatives=table('C')
            f.is_electrostatic=lambda:S(T.predv('ise',T.IZERO)); f.is_magnetostatic=lambda:S(T.predv('ism',T.IZERO))
            def split(fn,arr):
                # contract (C28): consecutive parts, in order; one or two parts here
                arr=L_(arr); k=S(T.fresh('cut','I'))
                if not Y.branch(T.lt(T.IONE,arr.n)): return [fn(arr)]
                Y.assume(S(T.band(T.lt(T.IZERO,k.t),T.lt(k.t,arr.n))))
                return [fn(arr[:k]),fn(arr[k:])]
            (getattr(I,'util',None) or L.get('traceon.util')).split_collect=split
            pre=[T.le(T.IZERO,tt(ne)),T.le(T.IZERO,tt(nm))]+([T.le(T.I(2),tt(n))] if mode=='N' else [T.le(T.I(10),T.ite(T.lt(tt(ne),tt(nm)),tt(nm),tt(ne)))])
            def go(): return I.FieldRadialAxial(f,a,b,n) if mode=='N' else I.FieldRadialAxial(f,a,b)
            def body():
                outs=explore(go,pre+[T.lt(tr(a),tr(b))])
                for o in ok(ctx,lab,outs):
                    r=o.val; z=L_(r.z); N=z.n
                    if mode=='N': A.prove(ctx,lab+': the requested number of samples',T.eq(N,tt(n)),o.pc)
                    else: A.prove(ctx,lab+': at least two samples',T.le(T.I(2),N),o.pc)
                    ctx.zero(lab+': first sample at zmin',T.sub(tr(z.elem(T.IZERO)),tr(a)),o.pc+[T.le(T.I(2),N)]); ctx.zero(lab+': last sample at zmax',T.sub(tr(z.elem(T.sub(N,T.IONE))),tr(b)),o.pc+[T.le(T.I(2),N)])
                    ctx.zero(lab+': equally spaced samples',T.sub(tr(z.elem(K)),tr(grid(a,b,S(N)).elem(K))),o.pc+[A.inrange(K,N),T.le(T.I(2),N)])
                    for w,nm_ in(('E','electrostatic'),('M','magnetostatic')): conditions(ctx,lab+': %s table'%nm_,getattr(r,nm_+'_coeffs'),z,lambda q,i:T.fun('free_%s_%d'%(w,q),tr(z.elem(i))),o.pc)
                    A.events(ctx,lab,[o])
            ctx.attempt(lab,body)
            def empty():
                outs=explore(go,pre+[T.le(tr(b),tr(a))])
                for o in outs: ctx.check(lab+': an empty or reversed range is an error',o.kind=='raise')
            ctx.attempt(lab+' (reversed range)',empty)
