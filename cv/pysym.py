"""Symbolic execution of the real Python functions.

The module sources under /repo/traceon are executed unchanged (compile+exec of the file text, nothing dropped) with
`math`, `numpy` and `scipy` imports resolved to contract objects that also accept symbolic scalars.  Branches on symbolic
conditions fork: `explore` re-runs the function once per feasible path, so a contract is proved for every path.  Floats are
mathematical reals."""
import sys, types, os, builtins, math as _math, itertools
from fractions import Fraction as Fr
import numpy as _np
from . import term as T, prove as P
from .cexec import Unsupported
from .ctx import REPO

class Infeasible(BaseException): pass
class TooManyPaths(Exception): pass
class State:
    def __init__(self,prefix=(),base=()): self.prefix=list(prefix); self.dec=[]; self.pc=list(base); self.pending=[]; self.ctr=0; self.events=[]; self.forks=0
cur=State()
def fresh(name='v',sort='R'):
    cur.ctr+=1
    return S(T.var('free_%s_%d'%(name,cur.ctr),sort))
def assume(b):
    b=tb(b)
    if b is T.FALSE: raise Infeasible()
    if b is not T.TRUE: cur.pc.append(b)
def branch(b):
    if b is T.TRUE: return True
    if b is T.FALSE: return False
    for q in cur.pc:
        if q is b: return True
        if q is T.bnot(b): return False
    k=len(cur.dec)
    if k<len(cur.prefix): v=cur.prefix[k]; forced=v>1
    else:
        ft=P.feasible(cur.pc+[b],1500); ff=P.feasible(cur.pc+[T.bnot(b)],1500)
        if not ft and not ff: raise Infeasible()
        forced=not(ft and ff); v=(3 if ft else 2) if forced else 1
        if not forced: cur.pending.append(cur.dec+[0])
    cur.dec.append(v); v=bool(v&1)
    if not forced: cur.forks+=1; cur.pc.append(b if v else T.bnot(b))
    return v
class Outcome:
    def __init__(self,pc,kind,val,st): self.pc=pc; self.kind=kind; self.val=val; self.events=st.events
RESET=[]     # called before every path
def explore(fn,base=(),maxpaths=400):
    """all paths of fn(); returns list of Outcome(pc,'ok'|'raise',value)."""
    global cur
    base=[tb(b) for b in base]
    todo=[[]]; out=[]; n=0
    while todo:
        pre=todo.pop(); n+=1
        if n>maxpaths: raise Unsupported('more than %d paths'%maxpaths)
        cur=State(pre,base)
        for r in RESET: r()
        try: v=fn(); out.append(Outcome(cur.pc,'ok',v,cur))
        except Infeasible: pass
        except (Unsupported,NotImplementedError,RecursionError): raise
        except Exception as e: out.append(Outcome(cur.pc,'raise',e,cur))
        finally: todo+=cur.pending
    cur=State()
    return out

def tt(x):
    """term of a scalar value."""
    if isinstance(x,S): return x.t
    if isinstance(x,T.T): return x
    if isinstance(x,(bool,_np.bool_)): return T.TRUE if x else T.FALSE
    if isinstance(x,(int,_np.integer)): return T.I(int(x))
    if isinstance(x,(float,_np.floating)):
        if x!=x or x in(_math.inf,-_math.inf): raise Unsupported('non-finite constant')
        return T.R(float(x))
    if isinstance(x,Fr): return T.R(x)
    if isinstance(x,_np.ndarray) and x.ndim==0: return tt(x.item())
    raise Unsupported('scalar expected, got %r'%type(x))
def tr(x):
    t=tt(x)
    if t.sort=='B': t=T.ite(t,T.IONE,T.IZERO)
    return T.lift(t,'R')
def tb(x):
    t=tt(x)
    return t if t.sort=='B' else T.bnot(T.eq(t,T.lift(T.I(0),t.sort)))
def tn(x):
    t=tt(x)
    return T.ite(t,T.IONE,T.IZERO) if t.sort=='B' else t
def isS(x): return isinstance(x,S)
def bad(x): return not(isinstance(x,(S,int,float,_np.number,_np.bool_,Fr)) or (isinstance(x,_np.ndarray) and x.ndim==0))
def bop(f):
    def m(a,b):
        if bad(b): return NotImplemented
        return S(f(tn(a),tn(b)))
    return m
LISTMUL=[None]
_rm=bop(lambda a,b:T.mul(b,a))
def _rmul(a,b):
    if type(b) is list and LISTMUL[0]: return LISTMUL[0](b,a)
    return _rm(a,b)
class S:
    """symbolic scalar (sort R, I or B)."""
    __slots__=('t',)
    __array_priority__=0
    def __init__(self,t): self.t=t
    def __repr__(self): return 'S(%s)'%T.show(self.t,4)
    def __format__(self,spec): return repr(self)
    def __hash__(self): return hash(self.t)
    __add__=bop(T.add); __radd__=bop(lambda a,b:T.add(b,a)); __sub__=bop(T.sub); __rsub__=bop(lambda a,b:T.sub(b,a))
    __mul__=bop(T.mul); __rmul__=_rmul; __truediv__=bop(lambda a,b:_div(a,b)); __rtruediv__=bop(lambda a,b:_div(b,a))
    def __floordiv__(a,b): return bop(_fdiv)(a,b)
    def __rfloordiv__(a,b): return bop(lambda x,y:_fdiv(y,x))(a,b)
    def __mod__(a,b): return bop(_mod)(a,b)
    def __rmod__(a,b): return bop(lambda x,y:_mod(y,x))(a,b)
    def __pow__(a,n):
        if bad(n): return NotImplemented
        n=tn(n)
        if T.isc(n): return S(T.power(tn(a),T.cv(n)))
        return S(T.fun('pow',tr(a),T.lift(n,'R')))
    def __rpow__(a,b):
        t=tn(a); c=tn(b)
        if t.sort=='I' and T.isc(c) and T.cv(c)==2 and c.sort=='I': return S(pow2i(t))
        return S(T.fun('pow',tr(b),tr(a)))
    def __lshift__(a,b): return a*(2**b if isS(b) else 2**int(b))
    def __rlshift__(a,b): return b*(2**a)
    def __rshift__(a,b): return a//(2**b if isS(b) else 2**int(b))
    def __neg__(a): return S(T.neg(tn(a)))
    def __pos__(a): return a
    def __abs__(a):
        t=tn(a)
        return S(T.fun('fabs',t)) if t.sort=='R' else S(T.ite(T.lt(t,T.IZERO),T.neg(t),t))
    def __lt__(a,b): return NotImplemented if bad(b) else S(T.lt(tn(a),tn(b)))
    def __le__(a,b): return NotImplemented if bad(b) else S(T.le(tn(a),tn(b)))
    def __gt__(a,b): return NotImplemented if bad(b) else S(T.gt(tn(a),tn(b)))
    def __ge__(a,b): return NotImplemented if bad(b) else S(T.ge(tn(a),tn(b)))
    def __eq__(a,b): return NotImplemented if bad(b) else S(T.eq(tn(a),tn(b)))
    def __ne__(a,b): return NotImplemented if bad(b) else S(T.bnot(T.eq(tn(a),tn(b))))
    def __and__(a,b): return S(T.band(tb(a),tb(b)))
    __rand__=__and__
    def __or__(a,b): return S(T.bor(tb(a),tb(b)))
    __ror__=__or__
    def __invert__(a):
        if a.t.sort!='B': raise Unsupported('~ on a number')
        return S(T.bnot(a.t))
    def __bool__(a): return branch(tb(a))
    def __float__(a):
        if T.isc(a.t) and a.t.sort!='B': return float(T.cv(a.t))
        raise Unsupported('float() of a symbolic value')
    def __int__(a):
        if T.isc(a.t) and a.t.sort!='B': return int(T.cv(a.t))
        raise Unsupported('int() of a symbolic value')
    def __index__(a):
        if T.isc(a.t) and a.t.sort=='I': return int(T.cv(a.t))
        raise Unsupported('index by a symbolic value')
    def __ceil__(a): return S(T.fun('ceil_i',tr(a)))
    def __floor__(a): return S(T.fun('floor_i',tr(a)))
    # methods numpy calls on object elements
    def sqrt(a): return m_sqrt(a)
    def sin(a): return m_sin(a)
    def cos(a): return m_cos(a)
    def tan(a): return m_sin(a)/m_cos(a)
    def conjugate(a): return a
    def arctan2(a,b): return m_atan2(a,b)
    def hypot(a,b): return m_hypot(a,b)
    def rint(a): return S(T.fun('floor_i',T.add(tr(a),T.R(Fr(1,2)))))
    def floor(a): return S(T.itor(T.fun('floor_i',tr(a))))
    def ceil(a): return S(T.itor(T.fun('ceil_i',tr(a))))
    def isfinite(a): return True
    @property
    def real(a): return a
    @property
    def imag(a): return 0
    @property
    def shape(a): return ()
    @property
    def ndim(a): return 0
    def item(a): return a
def _div(a,b):
    b=T.lift(b,'R'); a=T.lift(a,'R')
    if T.isc(b) and T.cv(b)==0: raise ZeroDivisionError('division by zero')
    if not T.isc(b) and cur.events is not None: cur.events.append(('div',b,list(cur.pc)))
    return T.div(a,b)
def _fdiv(a,b):
    if a.sort=='I' and b.sort=='I':
        if not T.isc(b) or T.cv(b)<=0: raise Unsupported('integer division by a symbolic value')
        if T.isc(a): return T.I(int(T.cv(a))//int(T.cv(b)))
        return T.fun('floor_i',T.div(T.itor(a),T.itor(b)))
    return T.itor(T.fun('floor_i',_div(a,b)))
def _mod(a,b):
    if a.sort=='I' and b.sort=='I' and T.isc(a) and T.isc(b): return T.I(int(T.cv(a))%int(T.cv(b)))
    q=_fdiv(a,b)
    return T.sub(a,T.mul(b,q))

def pow2i(t):
    """2**t for an integer exponent (the exponents occurring are not negative); 2**(t+c) = 2**c * 2**t."""
    c=0
    if T.isc(t): return T.I(2**int(T.cv(t)))
    if t.op=='add':
        k=[a for a in t.args if T.isc(a)]
        if k: c=int(T.cv(k[0])); t=T.sub(t,T.I(c))
    p=T.mk('f',('pow2i',t),'I')
    if c<0: p=T.mk('f',('pow2i',T.add(t,T.I(c))),'I'); return p
    return T.mul(T.I(2**c),p)
# ------------------------------------------------------------------ math contracts
def lift1(name,f,cf):
    def g(x,*r):
        if isS(x): return f(x)
        if isinstance(x,_np.ndarray) and x.dtype==object:
            out=_np.empty(x.shape,object)
            for i in _np.ndindex(x.shape): out[i]=g(x[i])
            return out
        return cf(x,*r)
    g.__name__=name
    return g
PI=S(T.PI)
def _ang(t):
    """split an angle into addends."""
    return list(t.args) if t.op=='add' else [t]
def _trig(t):
    """(cos,sin) of an angle; atan2 and multiples of pi/2 are resolved by their contracts."""
    if t.op=='add':
        c,s=T.ONE,T.ZERO; rest=[]
        special=[u for u in t.args if u.op=='f' and u.args[0]=='atan2' or _neg_of(u,'atan2') or _pimul(u) is not None]
        if special:
            rest=[u for u in t.args if u not in special]
            parts=[_trig(u) for u in special]+([_trig(T.add(*rest))] if rest else [])
            c,s=parts[0]
            for c2,s2 in parts[1:]: c,s=T.sub(T.mul(c,c2),T.mul(s,s2)),T.add(T.mul(s,c2),T.mul(c,s2))
            return c,s
    if t.op=='f' and t.args[0]=='atan2':
        y,x=t.args[1:]; r=T.sqrt(T.add(T.mul(x,x),T.mul(y,y)))
        return T.div(x,r),T.div(y,r)
    if _neg_of(t,'atan2'): c,s=_trig(T.neg(t)); return c,T.neg(s)
    k=_pimul(t)
    if k is not None and (2*k).denominator==1:
        n=int(2*k)%4
        return [(T.ONE,T.ZERO),(T.ZERO,T.ONE),(T.R(-1),T.ZERO),(T.ZERO,T.R(-1))][n]
    if t.op=='mul' and T.isc(t.args[0]) and T.cv(t.args[0])<0: c,s=T.cos(T.neg(t)),T.neg(T.sin(T.neg(t))); return c,s
    return T.cos(t),T.sin(t)
def _neg_of(u,n): return u.op=='mul' and len(u.args)==2 and T.isc(u.args[0]) and T.cv(u.args[0])==-1 and u.args[1].op=='f' and u.args[1].args[0]==n
def _pimul(u):
    if u.op=='pi': return Fr(1)
    if u.op=='mul' and len(u.args)==2 and T.isc(u.args[0]) and u.args[1].op=='pi': return T.cv(u.args[0])
    return None
def simp_angle(t):
    """distribute products over sums so that addends are visible (u/r*(..) stays as it is)."""
    return t
def _m_sqrt(x):
    t=tr(x)
    cur.events.append(('sqrt',t,list(cur.pc)))
    return S(T.sqrt(t))
m_sqrt=lift1('sqrt',_m_sqrt,_np.sqrt); m_cos=lift1('cos',lambda x:S(_trig(tr(x))[0]),_np.cos); m_sin=lift1('sin',lambda x:S(_trig(tr(x))[1]),_np.sin)
def _f1(n): return lift1(n,lambda x:S(T.fun(n,tr(x))),getattr(_np,{'acos':'arccos','asin':'arcsin','atan':'arctan'}.get(n,n)))
def m_atan2(y,x):
    if isS(y) or isS(x): return S(T.fun('atan2',tr(y),tr(x)))
    return _np.arctan2(y,x) if isinstance(y,_np.ndarray) or isinstance(x,_np.ndarray) else _math.atan2(y,x)
def m_hypot(*a):
    if any(isS(x) for x in a): return S(T.sqrt(T.add(*[T.mul(tr(x),tr(x)) for x in a])))
    return _math.hypot(*a)
def m_isclose(a,b,rel_tol=1e-9,abs_tol=0.0):
    if not(isS(a) or isS(b)): return _math.isclose(a,b,rel_tol=rel_tol,abs_tol=abs_tol)
    a,b=tr(a),tr(b); fa,fb=T.fun('fabs',a),T.fun('fabs',b); mx=T.ite(T.lt(fa,fb),fb,fa); lim=T.mul(T.R(rel_tol),mx)
    return S(T.bor(T.le(T.fun('fabs',T.sub(a,b)),lim),T.le(T.fun('fabs',T.sub(a,b)),T.R(abs_tol))))
def m_ceil(x): return S(T.fun('ceil_i',tr(x))) if isS(x) else _math.ceil(x)
def m_floor(x): return S(T.fun('floor_i',tr(x))) if isS(x) else _math.floor(x)
def _sc(x): return x.item() if isinstance(x,_np.ndarray) and x.ndim==0 and x.dtype==object else x
def scal(f,cf): return lambda x,*r: f(_sc(x)) if isS(_sc(x)) else cf(_sc(x),*r)
class MathProxy(types.ModuleType):
    pi=PI
    sqrt=staticmethod(scal(_m_sqrt,_math.sqrt)); cos=staticmethod(scal(lambda x:m_cos(x),_math.cos)); sin=staticmethod(scal(lambda x:m_sin(x),_math.sin))
    tan=staticmethod(scal(lambda x:m_sin(x)/m_cos(x),_math.tan)); atan2=staticmethod(m_atan2); hypot=staticmethod(m_hypot)
    ceil=staticmethod(m_ceil); floor=staticmethod(m_floor); isclose=staticmethod(m_isclose); fabs=staticmethod(lambda x:abs(x))
    def __getattr__(self,n):
        v=getattr(_math,n)
        if callable(v):
            def g(*a):
                if any(isS(x) for x in a): raise Unsupported('math.'+n)
                return v(*a)
            return g
        return v
# ------------------------------------------------------------------ numpy contracts
def has(x):
    if isS(x): return True
    if isinstance(x,_np.ndarray): return x.dtype==object
    if isinstance(x,(list,tuple)): return any(has(y) for y in x)
    return hasattr(x,'__sarr__')
def toarr(x,dtype=None):
    if isinstance(x,_np.ndarray): return x.copy()
    if isinstance(x,(list,tuple)):
        parts=[toarr(y) if isinstance(y,(list,tuple,_np.ndarray)) else y for y in x]
        if any(isinstance(p,_np.ndarray) and p.ndim for p in parts):
            sh=parts[0].shape
            if any(not isinstance(p,_np.ndarray) or p.shape!=sh for p in parts): raise ValueError('inhomogeneous shape')
            out=_np.empty((len(parts),)+sh,object)
            for i,p in enumerate(parts): out[i]=p
            return out
        out=_np.empty(len(parts),object)
        for i,p in enumerate(parts): out[i]=p.item() if isinstance(p,_np.ndarray) else p
        return out
    out=_np.empty((),object); out[()]=x
    return out
def n_array(x,dtype=None,copy=True,order=None,**k):
    if hasattr(x,'__sarr__'): return x.copy()
    if has(x):
        a=toarr(x)
        if dtype is not None:
            k_=_np.dtype(dtype).kind
            if k_=='f':
                out=_np.empty(a.shape,object)
                for i in _np.ndindex(a.shape): out[i]=S(tr(a[i]))
                return out
            if k_ in 'iu':
                for i in _np.ndindex(a.shape):
                    if tn(a[i]).sort!='I': raise Unsupported('real to integer conversion')
        return a
    a=_np.array(x,dtype=dtype)
    return toobj(a) if a.dtype.kind=='f' and a.ndim and a.size<=64 else a
def toobj(a):
    """float arrays become object arrays so that symbolic values can be stored in them."""
    out=_np.empty(a.shape,object)
    for i in _np.ndindex(a.shape): out[i]=float(a[i])
    return out
def n_zeros(shape,dtype=float,**k):
    if isinstance(shape,S): shape=int(shape)
    if isinstance(shape,tuple): shape=tuple(int(s) for s in shape)
    a=_np.zeros(shape,dtype)
    return toobj(a) if a.dtype.kind=='f' else a
def n_empty(shape,dtype=float,**k): 
    a=_np.zeros(shape,dtype)
    return toobj(a) if a.dtype.kind=='f' else a
def n_full(shape,v,dtype=None,**k):
    if has(v):
        a=_np.empty(shape,object)
        for i in _np.ndindex(a.shape): a[i]=v
        return a
    a=_np.full(shape,v,dtype)
    return toobj(a) if a.dtype.kind=='f' else a
def n_like(f):
    def g(a,dtype=None,**k): return f(a.shape,dtype if dtype is not None else (float if a.dtype==object else a.dtype))
    return g
def el2(f,cf):
    def g(a,b,*r,**k):
        if not(has(a) or has(b)): return cf(a,b,*r,**k)
        A,B=_np.broadcast_arrays(toarr(a),toarr(b)); out=_np.empty(A.shape,object)
        for i in _np.ndindex(A.shape): out[i]=f(A[i],B[i])
        return out if out.ndim else out[()]
    return g
def n_isclose(a,b,rtol=1e-5,atol=1e-8,equal_nan=False):
    def f(x,y):
        x,y=tr(x),tr(y)
        return S(T.le(T.fun('fabs',T.sub(x,y)),T.add(tr(atol),T.mul(tr(rtol),T.fun('fabs',y)))))
    if isinstance(atol,S) or has(a) or has(b): return el2(f,None)(toarr(a) if not has(a) else a,b) if has(a) or has(b) else el2(f,None)(S(tr(a)),b)
    return _np.isclose(a,b,rtol,atol,equal_nan)
def n_all(a,axis=None,**k):
    if not has(a): return _np.all(a,axis,**k)
    if axis is not None: raise Unsupported('all(axis)')
    return S(T.band(*[tb(x) for x in toarr(a).ravel()]))
def n_any(a,axis=None,**k):
    if not has(a): return _np.any(a,axis,**k)
    if axis is not None: raise Unsupported('any(axis)')
    return S(T.bor(*[tb(x) for x in toarr(a).ravel()]))
def n_allclose(a,b,rtol=1e-5,atol=1e-8,equal_nan=False): return n_all(n_isclose(a,b,rtol,atol))
def n_norm(x,ord=None,axis=None,keepdims=False):
    if not has(x): return _np.linalg.norm(x,ord,axis,keepdims)
    if ord is not None: raise Unsupported('norm ord')
    a=toarr(x)
    if axis is None: return S(T.sqrt(T.add(*[T.mul(tr(v),tr(v)) for v in a.ravel()])))
    sq=_np.sum(a*a,axis=axis,keepdims=keepdims)
    return m_sqrt(sq)
def n_cross(a,b,axis=-1,**k):
    if not(has(a) or has(b)): return _np.cross(a,b)
    a,b=_np.broadcast_arrays(toarr(a),toarr(b))
    if a.shape[-1]!=3: raise Unsupported('cross')
    out=_np.empty(a.shape,object)
    out[...,0]=a[...,1]*b[...,2]-a[...,2]*b[...,1]; out[...,1]=a[...,2]*b[...,0]-a[...,0]*b[...,2]; out[...,2]=a[...,0]*b[...,1]-a[...,1]*b[...,0]
    return out
def n_linspace(a,b,N=50,endpoint=True,**k):
    if not(has(a) or has(b) or isS(N)): return _np.linspace(a,b,N,endpoint=endpoint,**k)
    N=int(N); d=(N-1) if endpoint else N
    out=_np.empty(N,object)
    for i in range(N): out[i]=S(T.add(tr(a),T.mul(T.div(T.R(i),T.R(max(d,1))),T.sub(tr(b),tr(a)))))
    return out
def n_mean(a,axis=None,**k):
    if not has(a): return _np.mean(a,axis=axis,**k)
    a=toarr(a); n=a.size if axis is None else a.shape[axis]
    return _np.sum(a,axis=axis)/S(T.R(n))
def n_array_equal(a,b,**k):
    if not(has(a) or has(b)): return _np.array_equal(a,b)
    a,b=toarr(a),toarr(b)
    if a.shape!=b.shape: return False
    return bool(S(T.band(*[T.eq(tn(x),tn(y)) for x,y in zip(a.ravel(),b.ravel())])))
def n_where(c,*r):
    if not has(c) and not any(has(x) for x in r): return _np.where(c,*r)
    if len(r)!=2: raise Unsupported('where')
    C,A,B=_np.broadcast_arrays(toarr(c),toarr(r[0]),toarr(r[1])); out=_np.empty(C.shape,object)
    for i in _np.ndindex(C.shape): out[i]=S(T.ite(tb(C[i]),tn(A[i]),tn(B[i])))
    return out
def n_copy(a,**k): return toarr(a) if has(a) else _np.copy(a)
def n_isfinite(a):
    if has(a):
        A=toarr(a)
        return _np.full(A.shape,True) if A.ndim else True
    return _np.isfinite(a)
def n_mm(py,f):
    def g(a,axis=None,**k):
        if not has(a): return getattr(_np,f)(a,axis=axis,**k)
        if axis is not None: raise Unsupported(f)
        return sym_minmax(py)(*list(toarr(a).ravel()))
    return g
class Linalg:
    norm=staticmethod(n_norm)
    def __getattr__(self,n):
        v=getattr(_np.linalg,n)
        def g(*a,**k):
            if any(has(x) for x in a): raise Unsupported('numpy.linalg.'+n)
            return v(*a,**k)
        return g
class NpProxy(types.ModuleType):
    array=staticmethod(n_array); asarray=staticmethod(lambda x,dtype=None,**k: x if isinstance(x,_np.ndarray) and x.dtype==object or hasattr(x,'__sarr__') else n_array(x,dtype)); ascontiguousarray=asarray; zeros=staticmethod(n_zeros); empty=staticmethod(n_empty); ones=staticmethod(lambda s,dtype=float,**k: n_full(s,1.0 if dtype is float else _np.dtype(dtype).type(1)))
    full=staticmethod(n_full); zeros_like=staticmethod(n_like(n_zeros)); empty_like=staticmethod(n_like(n_empty)); ones_like=staticmethod(n_like(lambda s,d:n_full(s,1.0)))
    eye=staticmethod(lambda n,**k: toobj(_np.eye(n))); identity=eye
    sqrt=staticmethod(m_sqrt); cos=staticmethod(m_cos); sin=staticmethod(m_sin); arctan2=staticmethod(el2(m_atan2,_np.arctan2)); hypot=staticmethod(el2(m_hypot,_np.hypot))
    abs=staticmethod(lambda x: abs(x)); absolute=abs; fabs=abs; square=staticmethod(lambda x:x*x)
    isclose=staticmethod(n_isclose); allclose=staticmethod(n_allclose); all=staticmethod(n_all); any=staticmethod(n_any); cross=staticmethod(n_cross); linspace=staticmethod(n_linspace)
    mean=staticmethod(n_mean); average=mean; array_equal=staticmethod(n_array_equal); where=staticmethod(n_where); copy=staticmethod(n_copy); isfinite=staticmethod(n_isfinite); linalg=Linalg(); pi=PI
    radians=staticmethod(lambda x:x*PI/180); deg2rad=radians
    def __init__(self,n): types.ModuleType.__init__(self,n); self.extra={}
    def __getattribute__(self,n):
        e=types.ModuleType.__getattribute__(self,'__dict__').get('extra')
        if e and n in e: return e[n]
        return types.ModuleType.__getattribute__(self,n)
    def __getattr__(self,n):
        if n.startswith('__'): raise AttributeError(n)
        return getattr(_np,n)
NpProxy.min=NpProxy.amin=staticmethod(n_mm('min','min')); NpProxy.max=NpProxy.amax=staticmethod(n_mm('max','max'))
NpProxy.minimum=staticmethod(el2(lambda a,b:S(T.ite(T.le(tn(a),tn(b)),tn(a),tn(b))),_np.minimum)); NpProxy.maximum=staticmethod(el2(lambda a,b:S(T.ite(T.ge(tn(a),tn(b)),tn(a),tn(b))),_np.maximum))
# ------------------------------------------------------------------ builtins
def sym_minmax(which):
    bi=getattr(builtins,which)
    def g(*a,**k):
        xs=list(a[0]) if len(a)==1 else list(a)
        if 'key' in k or not any(isS(x) for x in xs): return bi(*a,**k)
        r=tn(xs[0])
        for x in xs[1:]:
            x=tn(x); r=T.ite((T.le if which=='min' else T.ge)(r,x),r,x)
        return S(r)
    return g
def sym_isinstance(x,c):
    cs=c if isinstance(c,tuple) else (c,)
    if isS(x):
        k={'R':float,'I':int,'B':bool}[x.t.sort]
        return any(d is k or d is object or d is S or (d is int and k is bool) for d in cs)
    if hasattr(x,'__sarr__') and any(d is _np.ndarray for d in cs): return True
    return builtins.isinstance(x,c)
def sym_float(x=0.0):
    if isS(x): return S(tr(x))
    if isinstance(x,_np.ndarray) and x.dtype==object: return S(tr(x.item()))
    return builtins.float(x)
class FloatMeta(type):
    def __instancecheck__(c,x): return isinstance(x,builtins.float)
def sym_int(x=0,*r):
    if isS(x):
        t=tn(x)
        return x if t.sort=='I' else S(T.fun('trunc',t))
    return builtins.int(x,*r)
def sym_sum(xs,start=0):
    r=start
    for x in xs: r=r+x
    return r
def sym_round(x,*n):
    if isS(x): raise Unsupported('round')
    return builtins.round(x,*n)
# ------------------------------------------------------------------ loading the real sources
class Loader:
    def __init__(self,repo=None,stubs=None):
        self.repo=repo or REPO; self.mods={}; self.np=NpProxy('numpy'); self.math=MathProxy('math')
        self.stubs=stubs or {}; self.files=[]; self.extra_builtins={}; self.displays=()
    def stub(self,name,**attrs):
        m=types.ModuleType(name)
        for k,v in attrs.items(): setattr(m,k,v)
        self.stubs[name]=m
        return m
    def imp(self,name,g=None,l=None,fromlist=(),level=0):
        if level:
            pk=g.get('__package__') or 'traceon'
            for _ in range(level-1): pk=pk.rsplit('.',1)[0]
            full=pk+('.'+name if name else '')
            if not name:
                ns=types.SimpleNamespace()
                for f in fromlist: setattr(ns,f,self.get(pk+'.'+f))
                return ns
            return self.get(full)
        root=name.split('.')[0]
        if name in self.stubs: return self.stubs[name] if fromlist else self.stubs.get(root,self.stubs[name])
        if root=='math': return self.math
        if root=='numpy':
            if name=='numpy': return self.np
            if name=='numpy.linalg': return self.np.linalg if fromlist else self.np
        if root in('scipy','meshio','vedo','matplotlib'): return Opaque(name)
        if root=='traceon': return self.get(name) if fromlist else self.get('traceon')
        return builtins.__import__(name,g,l,fromlist,level)
    def get(self,full):
        if full in self.stubs: return self.stubs[full]
        if full in self.mods: return self.mods[full]
        p=os.path.join(self.repo,*full.split('.')); f=p+'.py'; pkg=False
        if os.path.isdir(p): f=os.path.join(p,'__init__.py'); pkg=True
        if full=='traceon':
            m=types.ModuleType(full); m.__path__=[]; self.mods[full]=m
            return m
        m=types.ModuleType(full); m.__file__=f; m.__package__=full if pkg else full.rsplit('.',1)[0]
        b=dict(vars(builtins)); b.update(__import__=self.imp,isinstance=sym_isinstance,min=sym_minmax('min'),max=sym_minmax('max'),sum=sym_sum,float=SymFloat,int=SymInt,round=sym_round,len=sym_len,print=lambda *a,**k:None)
        b.update(self.extra_builtins); m.__dict__['__builtins__']=b
        self.mods[full]=m; self.files.append(f)
        src=open(f).read()
        if self.displays:     # lists and dictionaries displayed in these functions become contract objects (same behaviour until a loop is cut)
            import ast
            class Tr(ast.NodeTransformer):
                def __init__(s): s.on=False; s.num=set()
                def visit_FunctionDef(s,n):
                    o=s.on,s.num; s.on=o[0] or n.name in self.displays
                    # integer counters (x=0 ... x+=1) become cells, read through __vp_val__
                    s.num={x.target.id for x in ast.walk(n) if isinstance(x,ast.AugAssign) and isinstance(x.target,ast.Name)}&{x.targets[0].id for x in ast.walk(n) if isinstance(x,ast.Assign) and len(x.targets)==1 and isinstance(x.targets[0],ast.Name) and isinstance(x.value,ast.Constant) and type(x.value.value) is int} if s.on and '__vp_num__' in self.extra_builtins else set()
                    n.body=[s.visit(x) for x in n.body]; s.on,s.num=o
                    return n
                def visit_Name(s,n):
                    if n.id in s.num and isinstance(n.ctx,ast.Load): return ast.copy_location(ast.Call(ast.Name('__vp_val__',ast.Load()),[n],[]),n)
                    return n
                def visit_Assign(s,n):
                    s.generic_visit(n)
                    if len(n.targets)==1 and isinstance(n.targets[0],ast.Name) and n.targets[0].id in s.num: n.value=ast.copy_location(ast.Call(ast.Name('__vp_num__',ast.Load()),[n.value],[]),n.value)
                    return n
                def wrap(s,n,w):
                    s.generic_visit(n)
                    if s.on and isinstance(getattr(n,'ctx',ast.Load()),ast.Load): return ast.copy_location(ast.Call(ast.Name(w,ast.Load()),[n],[]),n)
                    return n
                def visit_List(s,n): return s.wrap(n,'__vp_list__')
                def visit_Dict(s,n): return s.wrap(n,'__vp_dict__')
                def visit_AnnAssign(s,n):
                    if n.value is not None: n.value=s.visit(n.value)
                    return n
            src=ast.fix_missing_locations(Tr().visit(ast.parse(src)))
        if '__vp_ifexp__' in self.extra_builtins:
            import ast
            src=ast.fix_missing_locations(IfExps().visit(ast.parse(src) if isinstance(src,str) else src))
        exec(compile(src,f,'exec'),m.__dict__)
        return m
import ast as _ast
class IfExps(_ast.NodeTransformer):
    """`a if c else b` as the element of a comprehension: the two alternatives become functions, so that they can be merged when c depends on the position."""
    def comp(s,n):
        s.generic_visit(n); e=n.elt
        if isinstance(e,_ast.IfExp) and not any(isinstance(x,(_ast.Yield,_ast.YieldFrom,_ast.Await,_ast.NamedExpr)) for x in _ast.walk(e)):
            lam=lambda b:_ast.Lambda(_ast.arguments(posonlyargs=[],args=[],kwonlyargs=[],kw_defaults=[],defaults=[]),b)
            n.elt=_ast.copy_location(_ast.Call(_ast.Name('__vp_ifexp__',_ast.Load()),[e.test,lam(e.body),lam(e.orelse)],[]),e)
        return n
    visit_ListComp=comp; visit_GeneratorExp=comp
def sym_len(x):
    if hasattr(x,'__sarr__'): return x.__slen__()
    f=getattr(type(x),'__len__',None)
    return f(x) if isinstance(f,types.FunctionType) else builtins.len(x)
class _FM(type):
    def __call__(c,*a): return sym_float(*a)
    def __instancecheck__(c,x): return sym_isinstance(x,builtins.float)
    def __eq__(c,o): return o is c or o is builtins.float
    def __hash__(c): return hash(builtins.float)
class _IM(type):
    def __call__(c,*a): return sym_int(*a)
    def __instancecheck__(c,x): return sym_isinstance(x,builtins.int)
    def __hash__(c): return hash(builtins.int)
class SymFloat(builtins.float,metaclass=_FM): pass
class SymInt(builtins.int,metaclass=_IM): pass
_isi=sym_isinstance
def sym_isinstance(x,c):
    cs=c if builtins.isinstance(c,tuple) else (c,)
    cs=tuple(builtins.float if d is SymFloat else builtins.int if d is SymInt else d for d in cs)
    return _isi(x,cs)
class Opaque(types.ModuleType):
    """a dependency without a contract: importing it is fine, using it is not."""
    def __getattr__(self,n):
        if n.startswith('__'): raise AttributeError(n)
        return OpaqueFn(self.__name__+'.'+n)
class OpaqueFn:
    def __init__(self,n): self.n=n
    def __call__(self,*a,**k): raise Unsupported('call of '+self.n+' (no contract)')
    def __getattr__(self,n):
        if n.startswith('__'): raise AttributeError(n)
        return OpaqueFn(self.n+'.'+n)
# ------------------------------------------------------------------ contracts
def V(name,n=3): 
    a=_np.empty(n,object)
    for i in range(n): a[i]=S(T.var('%s%d'%(name,i)))
    return a
def X(name,sort='R'): return S(T.var(name,sort))
def FN(name,dim=3,nargs=1):
    """an arbitrary function R^nargs -> R^dim."""
    def f(*u):
        out=_np.empty(dim,object)
        for i in range(dim): out[i]=S(T.fun('free_%s%d'%(name,i),*[tr(x) for x in u]))
        return out
    return f
def vec(x): return [tr(v) for v in _np.asarray(x,object).ravel()]
def same(ctx,name,got,want,pc,env=None):
    g,w=vec(got),vec(want)
    if not ctx.check(name+': shape',len(g)==len(w),'%d values instead of %d'%(len(g),len(w))) : return False
    ctx.obs.pop()
    return all([ctx.zero('%s[%d]'%(name,i) if len(g)>1 else name,T.sub(a,b),pc,env=env) for i,(a,b) in enumerate(zip(g,w))])
