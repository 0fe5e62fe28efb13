"""Contracts of scipy's interpolation and integration, used for the path constructors.

CubicSpline is taken at its ideal: the interpolant of samples y(x_i) is the function y itself, its derivative and
antiderivative are exact, and the interpolant of the swapped table of an increasing function is the inverse function.  The
interpolation error is outside this contract (bounded run-time evaluation covers it)."""
import types, numpy as np
from . import term as T, pysym as Y, sarr as A
from .pysym import S, tt, tr, Unsupported
t_=T.var('t!')
class Env:
    def __init__(s): s.rules={}; s.facts=[]; s.n=0; s.anti={}
    def diff(s,t,x): return T.diff(t,x,funrules=s.rules)
class Ideal:
    """an exactly known function of one variable: list of terms in t! (shape None for a scalar)."""
    def __init__(s,env,ts,shape,name=None): s.env=env; s.ts=ts; s.shape=shape
    def _at(s,x):
        r=[T.subst(t,{t_:tr(x)}) for t in s.ts]
        if s.shape is None: return S(r[0])
        o=np.empty(len(r),object)
        for k,v in enumerate(r): o[k]=S(v)
        return o.reshape(s.shape)
    def __call__(s,x,*a,**k):
        if a or k: raise Unsupported('spline derivative argument')
        if isinstance(x,A.SArr): e=x.elem; return A.SArr(x.n,s.shape or (),lambda i:s._at(e(i)),float)
        return s._at(x)
    def derivative(s,nu=1):
        ts=s.ts
        for _ in range(int(nu)): ts=[s.env.diff(t,t_) for t in ts]
        return Ideal(s.env,ts,s.shape)
    def antiderivative(s,nu=1):
        if s.shape is not None or nu!=1: raise Unsupported('antiderivative')
        key=s.ts[0]
        if key not in s.env.anti:
            s.env.n+=1; nm='free_int%d'%s.env.n; body=key; s.env.anti[key]=nm
            s.env.rules[nm]=lambda a,body=body: [T.subst(body,{t_:a})]
            s.env.facts.append(T.eq(T.fun(nm,s.x0),T.ZERO))      # the antiderivative vanishes at the first abscissa
        return Ideal(s.env,[T.fun(s.env.anti[key],t_)],None)
def _dfree(a): raise NotImplementedError
def spline_class(env):
    class CubicSpline(Ideal):
        def __init__(s,x,y,*a,**k):
            if a or k: raise Unsupported('spline options')
            if not isinstance(x,A.SArr): x=A.s_array(x) if not isinstance(x,np.ndarray) else x
            y=A.s_array(y)
            if isinstance(x,np.ndarray):
                # a concrete table: only interpolation at the knots is known
                env.n+=1; nm='free_knot%d'%env.n; y=Y.toarr(y); w=int(np.prod(y.shape[1:])) if y.ndim>1 else 1
                Ideal.__init__(s,env,[T.fun('%s_%d'%(nm,c),t_) for c in range(w)],y.shape[1:] if y.ndim>1 else None)
                for i in range(len(x)):
                    for c,v in enumerate(y[i].ravel() if y.ndim>1 else [y[i]]): env.facts.append(T.eq(T.fun('%s_%d'%(nm,c),tr(x[i])),tr(v)))
                s.x0=tr(x[0]); return
            if not isinstance(y,A.SArr): raise Unsupported('spline table')
            Y.cur.events.append(('same length',T.eq(x.n,y.n),list(Y.cur.pc)))
            xe=tr(x.elem(A.CAN)); ye=y.elem(A.CAN); shape=y.tail or None; ys=[tr(v) for v in np.ravel(A._arr(ye))]
            s.x0=tr(x.elem(T.IZERO))
            ts=[T.subst(v,{xe:t_}) for v in ys]
            if not any(T.occurs(A.CAN,v) for v in ts): Ideal.__init__(s,env,ts,shape); return
            if shape is not None: raise Unsupported('spline table')
            h=T.subst(xe,{ys[0]:t_})
            if T.occurs(A.CAN,h): raise Unsupported('spline table')
            # table of the inverse function: x_i = h(w_i), y_i = w_i
            env.n+=1; nm='free_inv%d'%env.n; inv=T.fun(nm,t_)
            env.rules[nm]=lambda a,nm=nm,h=h: [T.power(T.subst(env.diff(h,t_),{t_:T.fun(nm,a)}),-1)]
            for j in (T.IZERO,T.sub(x.n,T.IONE)):
                w=tr(y.elem(j)); env.facts.append(T.eq(T.fun(nm,T.subst(h,{t_:w})),w))
            Ideal.__init__(s,env,[inv],None)
    return CubicSpline
s_n=[0]
def quad_stub(rec):
    def quad(f,a,b,*r,**k):
        s_n[0]+=1; v=S(T.var('free_quad%d'%s_n[0]))
        x=T.var('q!s'); y=f(S(x))
        rec.append(dict(x=x,f=tr(y) if not isinstance(y,np.ndarray) else tr(y.item()),a=tr(a),b=tr(b),v=v,k=k))
        return v,S(T.ZERO)
    return quad
def install(L,env,rec):
    m=types.ModuleType('scipy.interpolate'); m.CubicSpline=spline_class(env); m.__getattr__=lambda n:(_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Y.OpaqueFn('scipy.interpolate.'+n); L.stubs['scipy.interpolate']=m
    m=types.ModuleType('scipy.integrate'); m.quad=quad_stub(rec); m.__getattr__=lambda n:(_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Y.OpaqueFn('scipy.integrate.'+n); L.stubs['scipy.integrate']=m
