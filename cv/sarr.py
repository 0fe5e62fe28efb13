"""Arrays of arbitrary (symbolic) length for the Python front end: an array is its length and the function from index to
element; numpy operations on it follow their contracts (gather, slice, mask selection, scatter, concatenate, cumsum,
arange, lexsort, unique ...).  Mask selections introduce the ghost functions rank/nth with their defining axioms, which are
instantiated on the terms of each obligation."""
import numpy as _np, builtins, weakref, sys, types
from fractions import Fraction as Fr
from . import term as T, pysym as Y, prove as P
from .pysym import S, tt, tr, tb, tn, Unsupported

SKIP=[None]
GEN={}       # generic index variable -> length term
MASKS={}     # name -> (n, elem function term->bool term)
PERMS={}     # name -> n
AXIOMS=[]    # callables (terms set)->list of axioms
_ids={}
def ident(kind,key):
    k=(kind,key)
    if k not in _ids: _ids[k]='%s%d'%(kind,len(_ids))
    return _ids[k]
CAN=T.var('can!','I')
def ti(x):
    t=tt(x)
    if t.sort!='I': raise Unsupported('integer expected')
    return t
def mapv(f,*vs):
    """elementwise on scalars / object arrays."""
    if all(not isinstance(v,_np.ndarray) for v in vs): return f(*vs)
    A=_np.broadcast_arrays(*[v if isinstance(v,_np.ndarray) else Y.toarr(v) for v in vs]); out=_np.empty(A[0].shape,object)
    for i in _np.ndindex(out.shape): out[i]=f(*[a[i] for a in A])
    return out
def conv(kind):
    return {'R':lambda v:S(tr(v)),'I':lambda v:S(tn(v)),'B':lambda v:S(tb(v))}[kind]
DT={'R':_np.dtype(_np.float64),'I':_np.dtype(_np.int64),'B':_np.dtype(bool)}
def kind_of(dt):
    k=_np.dtype(dt).kind
    return {'f':'R','i':'I','u':'I','b':'B'}[k]
def vkind(v):
    v=v.ravel()[0] if isinstance(v,_np.ndarray) else v
    return tt(v).sort
def inrange(i,n): return T.band(T.le(T.IZERO,i),T.lt(i,n))
class SArr:
    __sarr__=True
    __array_ufunc__=None
    def __init__(self,n,tail,elem,dt,parts=None):
        self.n=tt(n); self.tail=tuple(tail); self._elem=elem; self._view=None; self.rowrefs=None; self.dt=_np.dtype(dt); self.parts=parts; self.pend=[]
    @property
    def elem(self):
        """the current contents; a view computes them from its base at the time of reading."""
        return self._elem if self._view is None else self._view[1](self._view[0].elem)
    @elem.setter
    def elem(self,f):
        if self._view is None: self._elem=f
        else:
            b,_,back=self._view
            if back is None: raise Unsupported('store through a view')
            b.parts=None; b.elem=back(f,b.elem)
        self.refresh()
    def refresh(self):
        """row views that are alive show the new contents."""
        if not self.rowrefs: return
        self.rowrefs=[q for q in self.rowrefs if q[0]() is not None]
        for r,own,i in self.rowrefs:
            r=r(); x=own.elem(i); r.flags.writeable=True; r[...]=x; r.flags.writeable=False
    def viewof(self,base,fwd,back):
        """this array shares the storage of base."""
        self._view=(base,fwd,back); return self
    @property
    def kind(self): return kind_of(self.dt)
    def at(self,i):
        return self.elem(i)
    # --- shape
    def __slen__(self): return S(self.n)
    def __len__(self): 
        if T.isc(self.n): return int(T.cv(self.n))
        raise NoLen('len() of a symbolic array outside the analysed module')
    @property
    def shape(self): return (S(self.n),)+self.tail
    @property
    def ndim(self): return 1+len(self.tail)
    @property
    def size(self): 
        k=1
        for x in self.tail: k*=x
        return S(self.n)*k
    @property
    def dtype(self): return self.dt
    @property
    def nbytes(self): return self.size*8
    @property
    def ctypes(self): raise Unsupported('ctypes view')
    def copy(self,*a,**k): return SArr(self.n,self.tail,self.elem,self.dt,self.parts)
    def astype(self,dt,**k):
        dt=_np.dtype(dt); kd=kind_of(dt); e=self.elem
        if self.kind=='R' and kd!='R': raise Unsupported('real to integer conversion')
        return SArr(self.n,self.tail,lambda i:mapv(conv(kd),e(i)),dt)
    def view(self,dt):
        if self.kind=='R' and _np.dtype(dt).kind=='u': return BitView(self)
        raise Unsupported('view')
    @property
    def T(self):
        if len(self.tail)==0: return self
        if len(self.tail)!=1: raise Unsupported('.T of a 3-dimensional array')
        return Cols([self.col(c) for c in range(self.tail[0])],self.dt)
    def transpose(self,*a): 
        if a: raise Unsupported('transpose')
        return self.T
    def col(self,c): return SArr(self.n,self.tail[1:],None,self.dt).viewof(self,lambda e:lambda i:e(i)[c],_colback(c))
    def __iter__(self):
        for i in gen_range(S(self.n)): yield _tagged(self[i],i.t) if not T.isc(i.t) else self[i]
    def any(self,axis=None): return s_any(self,axis)
    def all(self,axis=None): return s_all(self,axis)
    def sum(self,axis=None): return s_sum(self,axis)
    def mean(self,axis=None): return s_mean(self,axis)
    def tolist(self): return self
    def reshape(self,*a): raise Unsupported('reshape')
    # --- indexing
    def __getitem__(self,k):
        if isinstance(k,tuple):
            base=self[k[0]]; rest=k[1:]
            if isinstance(base,SArr) and (isinstance(k[0],slice) or k[0] is Ellipsis):
                if any(hasattr(r,'__sarr__') for r in rest): raise Unsupported('fancy column index')
                if rest==(None,):
                    if base.tail: raise Unsupported('new axis')
                    return SArr(base.n,(1,),None,base.dt).viewof(base,lambda e:lambda i:_np.array([e(i)],object),lambda f,e:lambda i:f(i)[0])
                rest=tuple(int(r) if isinstance(r,S) else r for r in rest)
                probe=base.elem(CAN)[rest]
                tail=probe.shape if isinstance(probe,_np.ndarray) else ()
                return SArr(base.n,tail,None,self.dt).viewof(base,lambda e:lambda i:e(i)[rest],_colback(rest) if all(isinstance(r,(int,slice)) for r in rest) else None)
            if isinstance(base,SArr): raise Unsupported('index '+repr(k))
            return base[rest] if len(rest)>1 else base[rest[0]]
        if isinstance(k,slice): return self.slice(k)
        if hasattr(k,'__sarr__'):
            if isinstance(k,SArr) and k.kind=='B': return self.select(k)
            return self.gather(k)
        if isinstance(k,(list,_np.ndarray)):
            r=[self[x] for x in k]; return Y.toarr(r)
        i=ti(k)
        if T.isc(i) and T.cv(i)<0: i=T.add(self.n,i)
        elif not T.isc(i) and not _nonneg(i) and Y.branch(T.lt(i,T.IZERO)): i=T.add(self.n,i)
        Y.cur.events.append(('index',inrange(i,self.n),list(Y.cur.pc)))
        r=self.at(i)
        if isinstance(r,_np.ndarray):
            r=r.copy(); r.flags.writeable=False; b=self
            while b._view is not None: b=b._view[0]
            b.rowrefs=(b.rowrefs or [])+[(weakref.ref(r),self,i)]
        return r
    def slice(self,k):
        st=1 if k.step is None else k.step
        st=int(st)
        if st==-1 and k.start is None and k.stop is None:
            n=self.n; rv=lambda e:lambda i:e(T.sub(T.sub(n,T.IONE),i))
            return SArr(n,self.tail,None,self.dt).viewof(self,rv,lambda f,e:rv(f))
        if st<=0: raise Unsupported('slice step')
        def clampv(v):
            t=ti(v)
            if T.isc(t):
                if T.cv(t)>=0: return T.ite(T.lt(self.n,t),self.n,t) if T.cv(t) else t
                m=T.add(self.n,t); return T.ite(T.lt(m,T.IZERO),T.IZERO,m)
            if Y.branch(T.lt(t,T.IZERO)): m=T.add(self.n,t); return T.ite(T.lt(m,T.IZERO),T.IZERO,m)
            return T.ite(T.lt(self.n,t),self.n,t)
        a=T.IZERO if k.start is None else clampv(k.start); b=self.n if k.stop is None else clampv(k.stop)
        a,b=decide(a),decide(b)
        d=T.sub(b,a)
        m=d if st==1 else T.fun('floor_i',T.div(T.itor(T.add(d,T.I(st-1))),T.R(st)))
        m=decide(T.ite(T.lt(m,T.IZERO),T.IZERO,m))
        def back(f,e):
            def g(i):
                d=T.sub(i,a); q=d if st==1 else T.fun('floor_i',T.div(T.itor(d),T.R(st))); c=T.band(T.le(T.IZERO,d),T.lt(q,m),T.eq(T.mul(T.I(st),q),d))
                return mapv(lambda x,y:S(T.ite(c,tt(x),tt(y))),f(q),e(i))
            return g
        r=SArr(m,self.tail,None,self.dt).viewof(self,lambda e:lambda i:e(T.add(a,T.mul(T.I(st),i))),back)
        r.base=(self,a,st)
        return r
    def gather(self,k):
        if isinstance(k,Cols): k=k.T
        if k.kind!='I': raise Unsupported('index array of reals')
        e,ke,n=self.elem,k.elem,self.n
        Y.cur.events.append(('gather',(k,n),list(Y.cur.pc)))
        if not k.tail: return SArr(k.n,self.tail,lambda i:e(tn(ke(i))),self.dt)
        def f(i):
            ix=ke(i); out=_np.empty(k.tail+self.tail,object)
            for c in _np.ndindex(k.tail): out[c]=e(tn(ix[c]))
            return out
        return SArr(k.n,k.tail+self.tail,f,self.dt)
    def select(self,m):
        Y.cur.events.append(('same length',T.eq(m.n,self.n),list(Y.cur.pc)))
        nm=mask_id(m); e=self.elem
        return SArr(T.fun_i('rank_'+nm,m.n),self.tail,lambda i:e(T.fun_i('nth_'+nm,i)),self.dt)
    def __setitem__(self,k,v):
        if isinstance(k,tuple) and len(k)==1: k=k[0]
        e=self.elem; cv=conv(self.kind); self.parts=None
        if isinstance(v,_np.ndarray) and v is not SKIP[0]:
            SKIP[0]=v      # the stored value itself: already read when the store happens
            try: return self.__setitem__(k,v)
            finally: SKIP[0]=None
        if isinstance(v,_np.ndarray): v=v.copy()
        elif isinstance(v,list): v=list(v)
        if k is Ellipsis: k=slice(None)
        if isinstance(k,tuple):
            rest=k[1:]
            if isinstance(k[0],slice) and k[0]==slice(None):
                ve=v.elem if isinstance(v,SArr) else (lambda i:v)
                def f(i):
                    o=e(i).copy(); x=ve(i); o[rest]=mapv(cv,x if not isinstance(x,list) else Y.toarr(x)) if not isinstance(x,(int,float)) else cv(x)
                    return o
                self.elem=f; return
            if isinstance(k[0],(int,S,_np.integer)):
                i0=ti(k[0]); rest=tuple(int(r) if isinstance(r,S) else r for r in rest)
                def f(i):
                    o=e(i).copy(); old=o[rest]; new=v
                    o[rest]=mapv(lambda a,b:S(T.ite(T.eq(i,i0),tt(cv(b)),tt(a))),old,new if not isinstance(new,(list,tuple)) else Y.toarr(new))
                    return o
                self.setgen(i0,f,e); return
            raise Unsupported('assignment')
        if isinstance(k,slice):
            if k==slice(None):
                ve=v.elem if isinstance(v,SArr) else (lambda i:v)
                tail=self.tail
                self.elem=lambda i:_bc(mapv(cv,ve(i)),tail); return
            sl=self.slice(k); _,a,st=sl.base; m=sl.n
            ve=v.elem if isinstance(v,SArr) else (lambda i:v)
            def f(i):
                d=T.sub(i,a); q=d if st==1 else T.fun('floor_i',T.div(T.itor(d),T.R(st))); c=T.band(T.le(T.IZERO,d),T.lt(q,m),T.eq(T.mul(T.I(st),q),d))
                return mapv(lambda x,y:S(T.ite(c,tt(cv(x)),tt(y))),_bc(ve(q),self.tail),e(i))
            self.elem=f; return
        if hasattr(k,'__sarr__'):
            if isinstance(v,(list,tuple)): v=s_array(v)
            if isinstance(v,_np.ndarray) and v.ndim and len(v)==0 and k.kind!='B':
                Y.cur.events.append(('size',T.eq(k.n,T.IZERO),list(Y.cur.pc))); return
            if k.kind=='B':
                if isinstance(v,SArr):
                    nm=mask_id(k); ve,ke=v.elem,k.elem
                    self.elem=lambda i:mapv(lambda x,y:S(T.ite(tb(ke(i)),tt(cv(x)),tt(y))),ve(T.fun_i('rank_'+nm,i)),e(i)); return
                ke=k.elem
                self.elem=lambda i:mapv(lambda y:S(T.ite(tb(ke(i)),tt(cv(v)),tt(y))),e(i)); return
            if isinstance(k,Cols): k=k.T
            Y.cur.events.append(('gather',(k,self.n),list(Y.cur.pc)))
            inv=getattr(k,'inverse',None)
            if isinstance(v,SArr):
                if inv is None:
                    # scatter through an arbitrary index array: last writer wins; the ghost function `wr` gives a writer
                    nm=scatter_id(k); ve=v.elem
                    self.elem=lambda i:mapv(lambda x,y:S(T.ite(T.predv('hit_'+nm,i),tt(cv(x)),tt(y))),ve(T.fun_i('wr_'+nm,i)),e(i)); return
                ve=v.elem
                self.elem=lambda i:mapv(lambda x:cv(x),ve(inv(i))); return
            if isinstance(v,_np.ndarray) and v.ndim>len(self.tail) and len(v)!=1: raise Unsupported('array of fixed length stored through an index of arbitrary length')
            nm=scatter_id(k)
            if inv is not None: self.elem=lambda i:mapv(lambda y:cv(v),e(i)); return
            self.elem=lambda i:mapv(lambda y:S(T.ite(T.predv('hit_'+nm,i),tt(cv(v)),tt(y))),e(i)); return
        i0=ti(k)
        if T.isc(i0) and T.cv(i0)<0: i0=T.add(self.n,i0)
        Y.cur.events.append(('index',inrange(i0,self.n),list(Y.cur.pc)))
        if isinstance(v,(list,tuple)): v=Y.toarr(v)
        if isinstance(v,SArr): raise Unsupported('row assignment')
        val=mapv(cv,_bc(v,self.tail))
        self.setgen(i0,lambda i:mapv(lambda a,b:S(T.ite(T.eq(i,i0),tt(a),tt(b))),val,e(i)),e)
    def setgen(self,i0,f,old):
        """store at index i0; inside a generic loop the store is generalised when the loop ends."""
        self.parts=None
        self.elem=f
        if i0 in GEN and loops and any(l.i is i0 for l in loops):
            L=[l for l in loops if l.i is i0][0]
            if not any(a is self for a,_ in L.writes): L.writes.append((self,old))
        elif loops: 
            raise Unsupported('store at an index other than the loop index')
    # --- arithmetic
    def _bin(self,o,f,dt=None,rev=False):
        if isinstance(o,Cols): o=o.T
        if isinstance(o,SArr):
            Y.cur.events.append(('same length',T.eq(o.n,self.n),list(Y.cur.pc)))
            oe=o.elem
        else:
            if isinstance(o,(list,tuple)): o=Y.toarr(o)
            if isinstance(o,_np.ndarray): o=o.copy()
            oe=lambda i:o
        e=self.elem
        g=(lambda i:mapv(lambda a,b:f(b,a),_x(e(i)),_x(oe(i)))) if rev else (lambda i:mapv(f,_x(e(i)),_x(oe(i))))
        pr=g(CAN); tail=pr.shape if isinstance(pr,_np.ndarray) else ()
        r=SArr(self.n,tail,g,dt if dt is not None else DT[vkind(pr)] if vkind(pr)!=self.kind else self.dt)
        return r
    def __add__(s,o): return s._bin(o,lambda a,b:S(tn(a))+b)
    def __radd__(s,o): return s._bin(o,lambda a,b:S(tn(a))+b,rev=True)
    def __sub__(s,o): return s._bin(o,lambda a,b:S(tn(a))-b)
    def __rsub__(s,o): return s._bin(o,lambda a,b:S(tn(a))-b,rev=True)
    def __mul__(s,o): return s._bin(o,lambda a,b:S(tn(a))*b)
    def __rmul__(s,o): return s._bin(o,lambda a,b:S(tn(a))*b,rev=True)
    def __truediv__(s,o): return s._bin(o,lambda a,b:S(tn(a))/b)
    def __rtruediv__(s,o): return s._bin(o,lambda a,b:S(tn(a))/b,rev=True)
    def __pow__(s,k): return s._bin(k,lambda a,b:S(tn(a))**b)
    def __neg__(s): 
        e=s.elem
        return SArr(s.n,s.tail,lambda i:mapv(lambda a:-S(tn(a)),e(i)),s.dt)
    def __abs__(s): e=s.elem; return SArr(s.n,s.tail,lambda i:mapv(lambda a:abs(S(tt(a))),e(i)),s.dt)
    def __invert__(s):
        if s.kind!='B': raise Unsupported('~')
        e=s.elem
        return SArr(s.n,s.tail,lambda i:mapv(lambda a:S(T.bnot(tb(a))),e(i)),bool)
    def _cmp(s,o,f): return s._bin(o,lambda a,b:S(f(tn(a),tn(b))),bool)
    def __lt__(s,o): return s._cmp(o,T.lt)
    def __le__(s,o): return s._cmp(o,T.le)
    def __gt__(s,o): return s._cmp(o,T.gt)
    def __ge__(s,o): return s._cmp(o,T.ge)
    def __eq__(s,o): return s._cmp(o,T.eq)
    def __ne__(s,o): return s._cmp(o,lambda a,b:T.bnot(T.eq(a,b)))
    __hash__=None
    def __and__(s,o): return s._bin(o,lambda a,b:S(T.band(tb(a),tb(b))),bool)
    __rand__=__and__
    def __or__(s,o): return s._bin(o,lambda a,b:S(T.bor(tb(a),tb(b))),bool)
    __ror__=__or__
    def _ip(s,r): 
        if r.tail!=s.tail: raise Unsupported('in-place broadcast')
        s.elem=r.elem; s.parts=None
        return s
    def __iadd__(s,o): return s._ip(s+o)
    def __isub__(s,o): return s._ip(s-o)
    def __imul__(s,o): return s._ip(s*o)
    def __itruediv__(s,o): return s._ip(s/o)
    def __bool__(s): raise ValueError('The truth value of an array is ambiguous')
def _colback(rest):
    def back(f,e):
        def g(i):
            o=e(i).copy(); o[rest]=f(i); return o
        return g
    return back
def _x(v): return v
def _bc(v,tail):
    if not tail: return v
    a=v if isinstance(v,_np.ndarray) else Y.toarr(v)
    return _np.broadcast_to(a,tail).copy() if a.shape!=tail else a
def decide(t):
    """drop an ite whose condition is decided by the path condition."""
    if t.op!='ite': return t
    c=t.args[0]
    if not P.feasible(Y.cur.pc+[c],1500): return t.args[2]
    if not P.feasible(Y.cur.pc+[T.bnot(c)],1500): return t.args[1]
    return t
class BitView:
    def __init__(self,a): self.a=a
    def __getitem__(self,k):
        if k!=slice(None): raise Unsupported('bit view')
        return self
    def __iand__(self,c):
        c=int(c); low=(~c)&(2**64-1); k=low.bit_length()
        if low!=2**k-1 or k>52: raise Unsupported('bit mask')
        e=self.a.elem; self.a.elem=lambda i:mapv(lambda v:S(T.fun('roundbits%d'%k,tr(v))),e(i))
        return self
    def __setitem__(self,k,v):
        if v is not self: raise Unsupported('bit view store')
def _fi(name,*a): return T.mk('f',(name,)+a,'I')
T.fun_i=_fi
def _pred(name,*a): return T.eq(T.mk('f',('p_'+name,)+a,'I'),T.IONE)
T.predv=_pred
class _Rows:
    """the joint storage of several arrays."""
    _view=None; rowrefs=None; parts=None
    def __init__(s,rs): s.rs=rs
    @property
    def elem(s):
        els=[r.elem for r in s.rs]
        def f(i):
            o=_np.empty(len(els),object)
            for c,e in enumerate(els): o[c]=e(i)
            return o
        return f
    @elem.setter
    def elem(s,f):
        for c,r in enumerate(s.rs): r.parts=None; r.elem=lambda i,c=c:f(i)[c]
class Cols:
    """(m, n) array given by m rows of symbolic length."""
    __sarr__=True
    __array_ufunc__=None
    def __init__(self,rows,dt): self.rows=rows; self.dt=dt
    def __iter__(self): return iter(self.rows)
    def __slen__(self): return len(self.rows)
    def __len__(self): return len(self.rows)
    @property
    def kind(self): return kind_of(self.dt)
    @property
    def dtype(self): return _np.dtype(self.dt)
    @property
    def shape(self): return (len(self.rows),)+self.rows[0].shape
    @property
    def T(self):
        rs=self.rows; tail=rs[0].tail
        if tail: raise Unsupported('.T')
        n=rs[0].n
        r=SArr(n,(len(rs),),None,self.dt).viewof(_Rows(rs),lambda e:e,lambda f,e:f)
        if all(x.parts is not None for x in rs): r.parts=[tuple(p) for p in rs[0].parts] if all([p[0] for p in x.parts]==[p[0] for p in rs[0].parts] for x in rs) else None
        r.colsof=rs
        return r
    def copy(self): return Cols([r.copy() for r in self.rows],self.dt)
    def __getitem__(self,k):
        if isinstance(k,tuple):
            r=self.rows[k[0]] if isinstance(k[0],int) else Cols(self.rows[k[0]],self.dt)
            if isinstance(r,SArr): return r[k[1]] if len(k)==2 else r[k[1:]]
            return Cols([x[k[1]] for x in r.rows],self.dt)
        return self.rows[k] if isinstance(k,(int,_np.integer)) else Cols(self.rows[k],self.dt)
# ------------------------------------------------------------------ generic loops
loops=[]
Y.RESET.append(lambda:(loops.clear(),TWIN.clear(),GEN.clear(),PW.__setitem__(0,set()),SKIP.__setitem__(0,None)))
class NoLen(Unsupported,TypeError): pass      # a missing length hint is not an error for list.extend
def _tagged(v,i):
    """an item of an iteration, recognisable as such even when it does not depend on the position."""
    it=[x for x in (_np.ravel(v) if isinstance(v,_np.ndarray) else [v])]
    if not it or any(isinstance(x,S) and T.occurs(i,x.t) for x in it) or not all(isinstance(x,(S,int,float)) for x in it): return v
    w=lambda x:S(T.mk('ite',(T.le(T.IZERO,i),tt(x),tt(x)),tt(x).sort))
    if not isinstance(v,_np.ndarray): return w(v)
    o=_np.empty(v.shape,object)
    for k,ix in enumerate(_np.ndindex(v.shape)): o[ix]=w(v[ix]) if k==0 else v[ix]
    return o
class Loop:
    def __init__(self,i): self.i=i; self.writes=[]
def _canon(v,g):
    """value of a variable with the loop index abstracted."""
    sub=lambda t:T.subst(t,{g:CAN}) if T.occurs(g,t) else t
    if isinstance(v,S): return sub(v.t)
    if v is None or isinstance(v,(bool,int,float,str,_np.generic)): return v
    if isinstance(v,SArr): return ('sarr',v.n)+tuple(sub(tt(x)) for x in _np.ravel(_arr(v.elem(CAN))))
    if isinstance(v,_np.ndarray): return ('nd',v.shape)+(tuple(sub(tt(x)) if isinstance(x,S) else x for x in v.ravel()) if v.dtype==object else (v.tobytes(),))
    if isinstance(v,tuple): return ('t',)+tuple(_canon(x,g) for x in v)
    if isinstance(v,list): return ('l',id(v))
    if isinstance(v,(dict,set)): return ('d',id(v),len(v))
    return ('o',id(v))
def _snap(fr,g):
    r={}; ls={}
    try: loc=fr.f_locals
    except Exception: return r,ls
    for k,v in list(loc.items()):
        r[k]=_canon(v,g)
        if isinstance(v,list): ls[k]=v
        d=getattr(v,'__dict__',None)
        if isinstance(d,dict) and not isinstance(v,(type,SArr,S,Cols,types.ModuleType)) and not callable(v) and not hasattr(v,'__nosnap__'):
            for q,w in list(d.items()):
                r[k+'.'+q]=_canon(w,g)
                if isinstance(w,list): ls[k+'.'+q]=w
    return r,ls
def _caller():
    f=sys._getframe(2)
    while f is not None and f.f_code.co_filename==__file__: f=f.f_back
    return f
TWIN={}
def gen_range(*a):
    """range with symbolic bounds: the body runs for one arbitrary index; stores at that index hold for every index."""
    if len(a)==1: lo,hi,st=0,a[0],1
    else: lo,hi,st=a[0],a[1],(a[2] if len(a)>2 else 1)
    if all(T.isc(tt(x)) for x in(lo,hi,st)):
        for i in builtins.range(int(lo),int(hi),int(st)): yield i
        return
    if int(st)!=1: raise Unsupported('range step')
    lo,hi=ti(lo),ti(hi)
    if not Y.branch(T.lt(lo,hi)): return
    res=[]; gens=[]; part=[]; fr=_caller(); before,lists=_snap(fr,CAN); lens={k:len(v) for k,v in lists.items()}; state=[]
    for rep in range(2):
        Y.cur.ctr+=1; i=T.var('gen!%d'%Y.cur.ctr,'I'); GEN[i]=(lo,hi); L=Loop(i); npc=len(Y.cur.pc); ndec=Y.cur.forks; gens.append(i)
        Y.cur.pc.append(T.band(T.le(lo,i),T.lt(i,hi)))
        if rep==1 and part: # the indices below this one have been updated, the others not yet
            for arr,old,new,i0 in part: arr.elem=_genl(arr,old,new,i0,lo,i)
        loops.append(L)
        snap=None
        yield S(i)
        loops.remove(L)
        TWIN[gens[0]]=gens[-1]
        state.append(_snap(fr,i)[0])
        for k,v in lists.items():
            new=v[lens[k]:]; lens[k]=len(v)
            for x in new:
                ts=[tt(y) for y in _np.ravel(_arr(x)) if isinstance(y,S)] if not isinstance(x,(list,tuple)) else [tt(y) for y in _np.ravel(Y.toarr(x)) if isinstance(y,S)]
                if not any(T.occurs(i,t) for t in ts): raise Unsupported('a list grows by a constant in a loop over an array of arbitrary length')
        if rep==1 and not (len(res)==1 and len(res[0])==3 and res[0][0]!=frozenset(T.subst(q,{i:CAN}) for q in Y.cur.pc[npc+1:] if T.occurs(i,q))):
            for k in before:
                if k in state[0] and state[0][k]!=state[1].get(k): raise Unsupported('loop-carried state: '+k)
        if Y.cur.forks!=ndec and any(T.occurs(i,q) for q in Y.cur.pc[npc+1:]):
            # the body branches on the element: what it leaves is stated for this arbitrary iteration only
            conds=frozenset(T.subst(q,{i:CAN}) for q in Y.cur.pc[npc+1:] if T.occurs(i,q)); vals=[]; arrs=[]
            for arr,old in L.writes:
                new=arr.elem; v=new(i)
                for u in T.walk([tt(x) for x in _np.ravel(_arr(v))]):
                    if (u.op=='var' and u in PW[0] and u is not i) or (u.op=='f' and str(u.args[0]).startswith('unk!')): raise Unsupported('loop-carried state')
                arr.elem=_pointwise(v,i,old); vals.append(_substv(v,{i:CAN})); arrs.append(arr)
            PW[0].add(i); Y.cur.events.append(('generic',i,list(Y.cur.pc))); Y.cur.events.append(('genloop',(gens[0],lo,hi),list(Y.cur.pc))); res.append((conds,vals,arrs))
            if rep==1 and len(res[0])!=3: raise Unsupported('iterations differ')
            if rep==1 and res[0][0]==res[1][0]:
                (_,v0,a0),(_,v1,a1)=res
                if len(a0)!=len(a1) or any(x is not y for x,y in zip(a0,a1)): raise Unsupported('iterations differ')
                for x,y in zip(v0,v1):
                    for u,v in zip(_np.ravel(_arr(x)),_np.ravel(_arr(y))):
                        if tt(u) is not tt(v) and not T.poly0(T.sub(tr(u),tr(v))): raise Unsupported('loop-carried state')
            continue
        cur=[(arr,old,arr.elem) for arr,old in L.writes]
        if rep==0: part=[(arr,old,arr.elem,i) for arr,old in L.writes]
        if rep==1:
            first={id(a):o for a,o,_,_ in part}
            for arr,old,new in cur: arr.elem=_genl(arr,first.get(id(arr),old),new,i,lo,hi)
        vals=[T.subst_v(new(i),{i:CAN}) for arr,old,new in cur]
        res.append((vals,[arr for arr,_,_ in cur]))
        del Y.cur.pc[npc:npc+1]
        if rep==1:
            a0,a1=res
            if len(a0)!=2: raise Unsupported('iterations differ')
            if len(a0[1])!=len(a1[1]) or any(x is not y for x,y in zip(a0[1],a1[1])): raise Unsupported('iterations differ')
            for x,y in zip(a0[0],a1[0]):
                for u,v in zip(_np.ravel(_arr(x)),_np.ravel(_arr(y))):
                    if tt(u) is not tt(v) and not T.poly0(T.sub(tr(u),tr(v))): raise Unsupported('loop-carried state')
def ifexp(c,a,b):
    """a conditional element of a comprehension; one term with both alternatives when the condition depends on the position."""
    if not(isinstance(c,S) and c.t.sort=='B' and not T.isc(c.t) and loops and any(T.occurs(l.i,c.t) for l in loops)): return a() if c else b()
    pc=Y.cur.pc; n=len(pc)
    def arm(q,f):
        k=Y.cur.forks; pc.append(q)
        try: v=f()
        finally:
            new=pc[n+1:]; del pc[n:]
        if Y.cur.forks!=k or new or not isinstance(v,(S,int,float)) or isinstance(v,bool): raise Unsupported('conditional element of a list')
        return v
    if not P.feasible(pc+[c.t],1500): return b()
    if not P.feasible(pc+[T.bnot(c.t)],1500): return a()
    x,y=arm(c.t,a),arm(T.bnot(c.t),b)
    if tt(x).sort!=tt(y).sort: x,y=S(tr(x)),S(tr(y))
    return S(T.ite(c.t,tt(x),tt(y)))
PW=[set()]     # indices of iterations whose effect is known pointwise only
def _pointwise(v,i,old):
    Y.cur.ctr+=1; nm='unk!%d'%Y.cur.ctr; pw=PW[0]
    def f(j):
        if j is i: return v
        if j in pw: return old(j)
        a=_arr(v); o=_np.empty(a.shape,object)
        for c,ix in enumerate(_np.ndindex(a.shape)): o[ix]=S(T.mk('f',(nm,T.I(c),j),tt(a[ix]).sort))
        return o if isinstance(v,_np.ndarray) else o.item()
    return f
def _arr(x): return x if isinstance(x,_np.ndarray) else Y.toarr(x)
def _substv(v,m): return mapv(lambda a:S(T.subst(tt(a),m)),v)
T.subst_v=_substv
T.poly0=lambda t:P.poly_zero(t)
def _genl(arr,old,new,i,lo,hi):
    def f(j):
        c=T.band(T.le(lo,j),T.lt(j,hi)); v=_substv(new(i),{i:j})
        if j is CAN or c is T.TRUE: pass
        return mapv(lambda a,b:S(T.ite(c,tt(a),tt(b)) if tt(a).sort==tt(b).sort else T.ite(c,tr(a),tr(b))),v,old(j))
    return f
class GenList:
    """a list of arbitrary length whose generic element is make(i)."""
    __sarr__=True
    def __init__(self,n,make): self.n=tt(n); self.make=make
    def __slen__(self): return S(self.n)
    def __len__(self): raise Unsupported('len')
    def __iter__(self):
        Y.cur.ctr+=1; i=T.var('gen!%d'%Y.cur.ctr,'I'); GEN[i]=(T.IZERO,self.n); Y.cur.pc.append(inrange(i,self.n)); nd=Y.cur.forks
        yield self.make(i)
        if Y.cur.forks!=nd: raise Unsupported('branch inside an iteration over a list of arbitrary length')
        if inrange(i,self.n) in Y.cur.pc: Y.cur.pc.remove(inrange(i,self.n))
    def __getitem__(self,k):
        i=ti(k)
        if T.isc(i) and T.cv(i)<0: i=T.add(self.n,i)
        return self.make(i)
def genvar(v):
    for u in T.walk([tt(x) for x in (v.ravel() if isinstance(v,_np.ndarray) else [v]) if not isinstance(x,str)]):
        if u in GEN and not any(l.i is u for l in loops): return u
    return None
# ------------------------------------------------------------------ ghost functions
def mask_id(m):
    key=(tb(m.elem(CAN)),m.n); nm=ident('m',key); MASKS[nm]=(m.n,m.elem)
    return nm
SCAT={}
def scatter_id(k):
    key=(tuple(tt(x) for x in _np.ravel(_arr(k.elem(CAN)))),k.n); nm=ident('s',key); SCAT[nm]=(k.n,k.elem,k.tail)
    return nm
def instantiate(terms,rounds=3,limit=400):
    """defining axioms of the ghost functions on the terms occurring in an obligation."""
    ax=[]; seen=set(); pend=list(terms)
    for r in range(rounds):
        new=[]
        for u in T.walk(pend+ax):
            if u.op!='f' or u in seen: continue
            nm=u.args[0]; 
            if nm.startswith('rank_'):
                seen.add(u); m=nm[5:]; n,el=MASKS[m]; i=u.args[1]
                new.append(T.implies(T.band(T.le(T.IZERO,i),T.le(i,n)),T.band(T.le(T.IZERO,u),T.le(u,i))))
                R=lambda t:_fi(nm,t); N=lambda t:_fi('nth_'+m,t); i1=T.add(i,T.IONE); cnt=R(n)
                b=tb(el(i))
                new.append(T.implies(inrange(i,n),T.band(T.eq(R(i1),T.add(u,T.ite(b,T.IONE,T.IZERO))),T.le(R(i1),cnt))))
                p=T.sub(i,T.IONE); bp=tb(el(p))
                new.append(T.implies(inrange(p,n),T.eq(u,T.add(R(p),T.ite(bp,T.IONE,T.IZERO)))))
                new.append(T.implies(T.band(inrange(i,n),b),T.band(T.eq(N(u),i),T.lt(u,cnt))))
                new.append(T.implies(T.band(inrange(p,n),bp),T.eq(N(R(p)),p)))
                new.append(T.implies(inrange(i,T.add(n,T.IONE)),T.le(u,cnt)))
                new.append(T.eq(R(T.IZERO),T.IZERO))
                # complementary masks
                for m2,(n2,el2) in MASKS.items():
                    if m2!=m and n2 is n and tb(el2(CAN)) is T.bnot(tb(el(CAN))):
                        new.append(T.implies(inrange(i,T.add(n,T.IONE)),T.eq(T.add(u,_fi('rank_'+m2,i)),i)))
            elif nm.startswith('nth_'):
                seen.add(u); m=nm[4:]; n,el=MASKS[m]; k=u.args[1]; cnt=_fi('rank_'+m,n)
                new.append(T.implies(inrange(k,cnt),T.band(inrange(u,n),tb(el(u)),T.eq(_fi('rank_'+m,u),k))))
            elif nm.startswith('perm_'):
                seen.add(u); n=PERMS[nm[5:]]; k=u.args[1]; new.append(T.implies(inrange(k,n),T.band(inrange(u,n),T.eq(_fi('inv_'+nm[5:],u),k))))
            elif nm.startswith('inv_'):
                seen.add(u); n=PERMS[nm[4:]]; k=u.args[1]; new.append(T.implies(inrange(k,n),T.band(inrange(u,n),T.eq(_fi('perm_'+nm[4:],u),k))))
            elif nm.startswith('p_hit_') or nm.startswith('wr_'):
                seen.add(u); s=nm[6:] if nm[0]=='p' else nm[3:]; n,el,tail=SCAT[s]; i=u.args[1]; w=_fi('wr_'+s,i)
                if tail:
                    cs=[tn(x) for x in _np.ravel(el(w))]; new.append(T.implies(_pred('hit_'+s,i),T.band(inrange(w,n),T.bor(*[T.eq(c,i) for c in cs]))))
                else: new.append(T.implies(_pred('hit_'+s,i),T.band(inrange(w,n),T.eq(tn(el(w)),i))))
            for f in AXIOMS:
                x=f(u)
                if x and u not in seen: seen.add(u); new+=x
        # membership: every instance of an index array element is hit
        for s,(n,el,tail) in SCAT.items():
            idx=[u.args[1] for u in T.walk(pend+ax) if u.op=='f' and u.args[0] in('p_hit_'+s,)]
            for g in HITS.get(s,[]):
                for x in _np.ravel(_arr(el(g))):
                    a=T.implies(inrange(g,n),_pred('hit_'+s,tn(x)))
                    if a not in seen: seen.add(a); new.append(a)
        if not new: break
        ax+=[x for x in new if x is not T.TRUE]
        if len(ax)>limit: break
    return ax
def _nonneg(i):
    """an index the facts about its array show to be non-negative."""
    if i.op!='f': return False
    ax=[x for f in AXIOMS for x in (f(i) or [])]
    return bool(ax) and not P.feasible(Y.cur.pc+ax+[T.lt(i,T.IZERO)],1500)
HITS={}   # scatter name -> indices at which membership is instantiated
# ------------------------------------------------------------------ numpy contracts
def gens_of(v):
    if isinstance(v,list) and type(v) is not list: return set()
    v=v if isinstance(v,(_np.ndarray,S)) else Y.toarr(v) if isinstance(v,(list,tuple)) else v
    return {u for u in T.walk([tt(y) for y in (v.ravel() if isinstance(v,_np.ndarray) else [v]) if isinstance(y,S)]) if u in GEN and not any(l.i is u for l in loops)} if isinstance(v,(_np.ndarray,S)) else set()
def segments(xs):
    """a Python list built by generic loops, as consecutive parts: ('one',x) or ('gen',lo,hi,f); None if nothing generic."""
    xs=list(xs); r=[]; k=0; some=False
    while k<len(xs):
        x=xs[k]; gs=gens_of(x) if not hasattr(x,'__sarr__') and not isinstance(x,str) else set()
        if not gs: r.append(('one',x)); k+=1; continue
        some=True
        if len(gs)!=1: raise Unsupported('list of nested generic elements')
        g=gs.pop(); lo,hi=GEN[g]
        if g in PW[0]: raise Unsupported('list built by a loop that branches on its elements')
        v=x if not isinstance(x,(list,tuple)) else Y.toarr(x); k+=1
        if g in TWIN:
            h=TWIN[g]
            if h is not g:
                if k>=len(xs) or gens_of(xs[k])!={h}: raise Unsupported('list built by a generic loop')
                w=xs[k] if not isinstance(xs[k],(list,tuple)) else Y.toarr(xs[k]); k+=1
                if _np.shape(_arr(v))!=_np.shape(_arr(w)) or not all(tt(a) is tt(b) or T.poly0(T.sub(tr(a),tr(b))) for a,b in zip(_np.ravel(_arr(_substv(v,{g:CAN}))),_np.ravel(_arr(_substv(w,{h:CAN}))))): raise Unsupported('loop-carried state')
        r.append(('gen',lo,hi,(lambda i,v=v,g=g,lo=lo:_substv(v,{g:T.add(lo,i)})),v))
    return r if some else None
def s_len(x):
    if type(x) is list and x and not any(hasattr(v,'__sarr__') for v in x):
        g=segments(x)
        if g is not None:
            n=T.IZERO
            for q in g: n=T.add(n,T.IONE if q[0]=='one' else T.sub(q[2],q[1]))
            return S(n)
    return Y.sym_len(x)
def s_bsum(xs,start=0):
    if isinstance(xs,SArr): return s_sum(xs,axis=0)+start
    xs=[x for x in xs]; g=segments(xs)
    if g is None: return Y.sym_sum(xs,start)
    r=start
    for q in g:
        if q[0]=='one': r=r+q[1]
        else:
            v=T.fresh('s','I'); x=q[3](v)
            r=r+mapv(lambda y:S(T.Sum(v,T.IZERO,T.sub(q[2],q[1]),tr(y))),x)
    return r
def guard(name,f):
    def g(*a,**k):
        if len(a)>=1 and (type(a[0]) in (list,tuple,GenIter) or isinstance(a[0],types.GeneratorType)):
            xs=list(a[0])
            if any(not hasattr(x,'__sarr__') and not isinstance(x,str) and gens_of(x) for x in xs): raise Unsupported(name+' of a list of arbitrary length')
            return f(xs,*a[1:],**k)
        return f(*a,**k)
    return g
def s_array(x,dtype=None,**k):
    if hasattr(x,'__avec__'): return x.copy()
    if isinstance(x,SArr):
        return x.copy() if dtype is None else (lambda r:r)(x.astype(dtype)) if kind_of(dtype)!=x.kind else SArr(x.n,x.tail,x.elem,dtype,x.parts)
    if isinstance(x,Cols): return x.copy()
    if isinstance(x,(list,tuple)) and x and all(isinstance(y,SArr) for y in x): return Cols([y.copy() for y in x],x[0].dt)
    if isinstance(x,(list,tuple)) and x and not any(hasattr(v,'__sarr__') or isinstance(v,str) for v in x):
        g=segments(x)
        if g is not None:
            parts=[]; run=[]
            for q in g:
                if q[0]=='one': run.append(q[1]); continue
                if run: parts.append(lift_arr(Y.n_array(run))); run=[]
                v=q[4]; parts.append(SArr(T.sub(q[2],q[1]),v.shape if isinstance(v,_np.ndarray) else (),q[3],DT[vkind(v)]))
            if run: parts.append(lift_arr(Y.n_array(run)))
            return parts[0] if len(parts)==1 else s_concat(parts)
    return Y.n_array(x,dtype,**k)
def symshape(s):
    s=s if isinstance(s,tuple) else (s,)
    return s if s and isinstance(s[0],S) and not T.isc(s[0].t) else None
def s_const(v):
    def g(shape,dtype=float,**k):
        sh=symshape(shape)
        if sh is None: return {0:Y.n_zeros,1:lambda s,d:Y.n_full(s,1,d)}[v](shape,dtype)
        kd=kind_of(dtype); c=conv(kd)(v); tail=tuple(int(t) for t in sh[1:])
        return SArr(sh[0],tail,lambda i:_bc(c,tail),dtype)
    return g
def s_full(shape,v,dtype=None,**k):
    sh=symshape(shape)
    if sh is None: return Y.n_full(shape,v,dtype)
    tail=tuple(int(t) for t in sh[1:]); c=S(tt(v))
    return SArr(sh[0],tail,lambda i:_bc(c,tail),dtype or DT[c.t.sort])
def s_empty(shape,dtype=float,**k):
    sh=symshape(shape)
    if sh is None: return Y.n_empty(shape,dtype)
    tail=tuple(int(t) for t in sh[1:]); kd=kind_of(dtype); Y.cur.ctr+=1; nm='uninit%d'%Y.cur.ctr
    def f(i):
        mk=lambda c:S(T.sel(nm,T.add(T.mul(T.I(1009),i),T.I(c)),kd if kd!='B' else 'I')) if kd!='B' else S(_pred(nm,i))
        if not tail: return mk(0)
        o=_np.empty(tail,object)
        for c,ix in enumerate(_np.ndindex(tail)): o[ix]=mk(c)
        return o
    return SArr(sh[0],tail,f,dtype)
def s_arange(*a,dtype=_np.int64,**k):
    if not any(isinstance(x,S) and not T.isc(x.t) for x in a): return _np.arange(*[int(x) if isinstance(x,S) else x for x in a],dtype=None if dtype is _np.int64 else dtype)
    lo,hi=(0,a[0]) if len(a)==1 else a[:2]
    if len(a)>2: raise Unsupported('arange step')
    lo,hi=ti(lo),ti(hi); n=decide(T.ite(T.lt(hi,lo),T.IZERO,T.sub(hi,lo)))
    return SArr(n,(),lambda i:S(T.add(lo,i)),dtype)
def lift_arr(x):
    """a concrete numpy array / list as SArr."""
    if isinstance(x,Cols): return x.T
    if isinstance(x,SArr): return x
    a=x if isinstance(x,_np.ndarray) else Y.toarr(list(x))
    k=DT[vkind(a)] if a.size else _np.dtype(float)
    if a.dtype!=object: k=a.dtype
    n=len(a)
    def f(i):
        if T.isc(i) and 0<=T.cv(i)<n: return mapv(lambda v:S(tt(v)),a[int(T.cv(i))]) 
        if n==0: return Y.toobj(_np.zeros(a.shape[1:])) if a.ndim>1 else S(T.ZERO)
        r=a[n-1]
        for j in range(n-2,-1,-1): r=mapv(lambda u,v,j=j:S(T.ite(T.eq(i,T.I(j)),tt(u),tt(v))),a[j],r)
        return mapv(lambda v:S(tt(v)),r)
    return SArr(T.I(n),a.shape[1:],f,k)
def s_concat(xs,axis=0,**k):
    xs=list(xs)
    if not any(hasattr(x,'__sarr__') for x in xs):
        if any(Y.has(x) for x in xs): return _np.concatenate([x if isinstance(x,_np.ndarray) and x.dtype==object else Y.toarr(x) for x in xs],axis=axis)
        return _np.concatenate(xs,axis=axis)
    if axis!=0: raise Unsupported('concatenate axis')
    xs=[lift_arr(x) for x in xs]; x0=xs[0]
    xs=[x for x in xs if not(T.isc(x.n) and T.cv(x.n)==0)]
    if not xs: return x0
    parts=[]; off=T.IZERO
    for x in xs:
        parts.append((off,x.n,x)); off=T.add(off,x.n)
    kd=xs[0].kind
    if any(x.tail!=xs[0].tail for x in xs): raise ValueError('all the input array dimensions must match')
    el=[x.elem for x in xs]
    def f(i):
        r=el[-1](T.sub(i,parts[-1][0]))
        for (o,n,x),e in list(zip(parts,el))[-2::-1]:
            c=T.lt(i,T.add(o,n)); v=e(T.sub(i,o)); r=mapv(lambda a,b:S(T.ite(c,tt(a),tt(b))),v,r)
        return r
    return SArr(off,xs[0].tail,f,xs[0].dt,[(o,n,x.copy()) for o,n,x in parts])
def s_cumsum(a,axis=None,**k):
    if not isinstance(a,SArr): return _np.cumsum(a,axis=axis,**k)
    if a.tail: raise Unsupported('cumsum')
    if a.kind=='B':
        nm=mask_id(a)
        return SArr(a.n,(),lambda i:S(_fi('rank_'+nm,T.add(i,T.IONE))),_np.int64)
    raise Unsupported('cumsum of numbers')
def forall(a,name='k'):
    """truth of 'every element of the boolean array'."""
    Y.cur.ctr+=1; k=T.var('all!%d'%Y.cur.ctr,'I'); g=T.band(*[tb(x) for x in _np.ravel(_arr(a.elem(k)))])
    pc=Y.cur.pc+[inrange(k,a.n)]
    ax=instantiate(pc+[g])
    if P.prove_bool(g,pc+ax,8000).status=='proved': return True
    key=T.band(*[tb(x) for x in _np.ravel(_arr(a.elem(CAN)))])
    b=T.predv(ident('forall',(key,a.n)),T.IZERO); FORALL[b]=a
    return S(b)
FORALL={}
def s_all(a,axis=None,**k):
    if not isinstance(a,SArr): 
        if isinstance(a,(list,tuple)) and any(isinstance(x,S) for x in a): return S(T.band(*[tb(x) for x in a]))
        return Y.n_all(a,axis,**k)
    if axis is None: return forall(a)
    if axis in(1,-1) and len(a.tail)==1:
        e=a.elem
        return SArr(a.n,(),lambda i:S(T.band(*[tb(x) for x in e(i)])),bool)
    raise Unsupported('all axis')
def s_any(a,axis=None,**k):
    if not isinstance(a,SArr): return Y.n_any(a,axis,**k)
    if axis is None:
        r=forall(~a) if a.kind=='B' else forall(a==0)
        return (not r) if isinstance(r,bool) else S(T.bnot(tb(r)))
    e=a.elem
    return SArr(a.n,(),lambda i:S(T.bor(*[tb(x) for x in e(i)])),bool)
def s_sum(a,axis=None,**k):
    if not isinstance(a,SArr): return _np.sum(Y.toarr(a) if Y.has(a) and not isinstance(a,_np.ndarray) else a,axis=axis,**k)
    if axis in(1,-1) and a.tail:
        e=a.elem; return SArr(a.n,a.tail[1:],lambda i:_np.sum(e(i),axis=0),a.dt)
    if a.kind=='B': 
        nm=mask_id(a); return S(_fi('rank_'+nm,a.n))
    tot=None
    for o,n,x in (a.parts or [(T.IZERO,a.n,a)]):
        v=T.fresh('i','I'); r=mapv(lambda u:S(T.Sum(v,T.IZERO,n,tn(u))),x.elem(v))
        tot=r if tot is None else tot+r
    if isinstance(tot,_np.ndarray) and axis is None: tot=_np.sum(tot)
    return tot
def s_mean(a,axis=None,**k):
    if not isinstance(a,SArr): return Y.n_mean(a,axis,**k)
    if axis in(None,0) and not a.tail or axis==0: return s_sum(a,axis)/S(a.n)
    if axis in(1,-1): return s_sum(a,axis)/a.tail[0]
    raise Unsupported('mean')
def s_unique(a,**k):
    if not isinstance(a,SArr): return _np.unique(a,**k)
    if a.tail or k: raise Unsupported('unique')
    nm=ident('u',(tt(a.elem(CAN)),a.n)); cnt=_fi('ucount_'+nm,T.IZERO); UNIQ[nm]=(a.n,a.elem,cnt)
    return SArr(cnt,(),lambda i:S(_fi('uval_'+nm,i)),a.dt)
UNIQ={}
def ax_unique(u):
    nm=u.args[0]
    if nm.startswith('ucount_') and nm[7:] in UNIQ:
        n=UNIQ[nm[7:]][0]
        return [T.le(T.IZERO,u),T.implies(T.le(T.IZERO,n),T.le(u,n)),T.implies(T.lt(T.IZERO,n),T.lt(T.IZERO,u))]
    if nm.startswith('uval_'):
        m=nm[5:]; n,el,cnt=UNIQ[m]; i=u.args[1]; w=_fi('uwit_'+m,i)
        return [T.implies(inrange(i,cnt),T.band(inrange(w,n),T.eq(tn(el(w)),u))),T.le(T.IZERO,cnt),
                T.implies(T.band(inrange(i,cnt),inrange(T.add(i,T.IONE),cnt)),T.lt(u,_fi(nm,T.add(i,T.IONE))))]
    if nm.startswith('upos_'):
        m=nm[5:]; n,el,cnt=UNIQ[m]; i=u.args[1]
        return [T.implies(inrange(i,n),T.band(inrange(u,cnt),T.eq(_fi('uval_'+m,u),tn(el(i)))))]
    return None
AXIOMS.append(ax_unique)
def s_lexsort(keys,**k):
    if not isinstance(keys,Cols): return _np.lexsort(keys)
    a=keys.T; nm=ident('lex',(tuple(tt(x) for x in _np.ravel(a.elem(CAN))),a.n)); PERMS[nm]=a.n; LEX[nm]=a
    r=SArr(a.n,(),lambda i:S(_fi('perm_'+nm,i)),_np.int64); r.inverse=lambda i:_fi('inv_'+nm,i)
    return r
LEX={}
def lexle(a,b,strict=False):
    """lexicographic order of rows, last column primary."""
    r=T.FALSE if strict else T.TRUE
    for x,y in zip(a,b): r=T.bor(T.lt(tr(x),tr(y)),T.band(T.eq(tr(x),tr(y)),r))
    return r
def ax_lex(u):
    if u.args[0].startswith('perm_') and u.args[0][5:] in LEX:
        nm=u.args[0][5:]; a=LEX[nm]; i=u.args[1]; p=T.sub(i,T.IONE)
        return [T.implies(T.band(inrange(p,a.n),inrange(i,a.n)),lexle(a.elem(_fi('perm_'+nm,p)),a.elem(u)))]
    return None
AXIOMS.append(ax_lex)
def s_el(f,cf):
    def g(x,*r,**k):
        if isinstance(x,SArr):
            e=x.elem
            if r and isinstance(r[0],SArr): e2=r[0].elem; h=lambda i:mapv(f,e(i),e2(i))
            elif r: h=lambda i:mapv(f,e(i),r[0])
            else: h=lambda i:mapv(f,e(i))
            p=h(CAN)
            return SArr(x.n,p.shape if isinstance(p,_np.ndarray) else (),h,DT[vkind(p)])
        return cf(x,*r,**k)
    return g
def s_norm(x,ord=None,axis=None,**k):
    if hasattr(x,'__avec__'): return Y.m_sqrt(x.dot(x))
    if isinstance(x,SArr):
        if axis not in(1,-1) or len(x.tail)!=1: raise Unsupported('norm')
        e=x.elem
        return SArr(x.n,(),lambda i:S(T.sqrt(T.add(*[T.mul(tr(v),tr(v)) for v in e(i)]))),float)
    return Y.n_norm(x,ord,axis,**k)
def s_cross(a,b,**k):
    if isinstance(a,SArr):
        e,f=a.elem,b.elem
        return SArr(a.n,(3,),lambda i:Y.n_cross(e(i),f(i)),float)
    return Y.n_cross(a,b,**k)
def s_allclose(a,b,rtol=1e-5,atol=1e-8,**k):
    if isinstance(a,SArr) or isinstance(b,SArr):
        a,b=(a if isinstance(a,SArr) else lift_arr(a)),b
        return s_all(s_el(lambda x,y:Y.n_isclose(S(tr(x)),S(tr(y)),rtol,atol),None)(a,b))
    return Y.n_allclose(a,b,rtol,atol)
def s_isclose(a,b,rtol=1e-5,atol=1e-8,**k):
    if isinstance(a,SArr): return s_el(lambda x,y:Y.n_isclose(S(tr(x)),S(tr(y)),rtol,atol),None)(a,b)
    return Y.n_isclose(a,b,rtol,atol)
def s_like(g):
    def f(a,dtype=None,**k):
        if isinstance(a,SArr): return g(a.shape,dtype or a.dt)
        return Y.n_like({'z':Y.n_zeros,'e':Y.n_empty}.get(g.__name__,Y.n_zeros))(a,dtype)
    return f
def s_array_equal(a,b,**k):
    if isinstance(a,SArr) and isinstance(b,SArr):
        if a.tail!=b.tail: return False
        if not Y.branch(T.eq(a.n,b.n)): return False
        return bool(forall(s_all(a==b,axis=1) if a.tail else a==b)) if len(a.tail)<2 else bool(_fa2(a,b))
    if isinstance(a,SArr) or isinstance(b,SArr): raise Unsupported('array_equal')
    return Y.n_array_equal(a,b)
def _fa2(a,b):
    e,f=a.elem,b.elem
    return forall(SArr(a.n,(),lambda i:S(T.band(*[T.eq(tn(x),tn(y)) for x,y in zip(_np.ravel(e(i)),_np.ravel(f(i)))])),bool))
def s_diff(a,**k):
    if isinstance(a,SArr): return a[1:]-a[:-1]
    return _np.diff(a,**k)
def s_linspace(a,b,N=50,endpoint=True,**k):
    if isinstance(N,S) and not T.isc(N.t):
        n=tt(N); d=T.itor(T.sub(n,T.IONE) if endpoint else n); a,b=tr(a),tr(b)
        Y.cur.events.append(('linspace',n,list(Y.cur.pc)))
        return SArr(n,(),lambda i:S(T.add(a,T.mul(T.div(T.itor(i),d),T.sub(b,a)))),float)
    return Y.n_linspace(a,b,N,endpoint,**k)
def s_isfinite(a):
    if isinstance(a,SArr): return SArr(a.n,a.tail,lambda i:_bc(S(T.TRUE),a.tail),bool)
    return Y.n_isfinite(a)
def s_range(*a):
    if any(isinstance(x,S) and not T.isc(x.t) for x in a): return gen_range(*a)
    return builtins.range(*[int(x) if isinstance(x,S) else x for x in a])
class GenIter:
    """iteration over the positions of an array of arbitrary length."""
    def __init__(self,n,item): self.n=n; self.item=item
    def __iter__(self):
        for i in gen_range(S(self.n)): yield self.item(i)
def s_enumerate(x,start=0):
    if isinstance(x,SArr): return GenIter(x.n,lambda i:(i+start,x[i]))
    if isinstance(x,GenIter): return GenIter(x.n,lambda i:(i+start,x.item(i)))
    return builtins.enumerate(x,start)
def s_zip(*xs):
    if any(isinstance(x,SArr) for x in xs):
        n=[x for x in xs if isinstance(x,SArr)][0].n
        for x in xs: Y.cur.events.append(('same length',T.eq(lift_arr(x).n,n),list(Y.cur.pc)))
        return GenIter(n,lambda i:tuple(x[i] for x in xs))
    return builtins.zip(*xs)
def install(L):
    """give a loader the symbolic-length versions of the numpy contracts."""
    z,o,e=s_const(0),s_const(1),s_empty
    L.np.extra.update(array=s_array,asarray=lambda x,dtype=None,**k: x if hasattr(x,'__sarr__') else s_array(x,dtype),zeros=z,ones=o,empty=e,full=s_full,arange=s_arange,concatenate=s_concat,cumsum=s_cumsum,
        all=s_all,any=s_any,sum=s_sum,mean=s_mean,unique=s_unique,lexsort=s_lexsort,cross=s_cross,allclose=s_allclose,isclose=s_isclose,array_equal=s_array_equal,diff=s_diff,linspace=s_linspace,isfinite=s_isfinite,
        copy=lambda a,**k: a.copy() if hasattr(a,'__sarr__') else Y.n_copy(a),logical_not=lambda a: ~a,logical_and=lambda a,b:a&b,logical_or=lambda a,b:a|b,
        zeros_like=lambda a,dtype=None,**k: z(a.shape,dtype or (a.dt if isinstance(a,SArr) else a.dtype)) if isinstance(a,SArr) else Y.n_like(Y.n_zeros)(a,dtype),
        ones_like=lambda a,dtype=None,**k: o(a.shape,dtype or a.dt) if isinstance(a,SArr) else Y.n_like(lambda s,d:Y.n_full(s,1.0))(a,dtype),
        empty_like=lambda a,dtype=None,**k: e(a.shape,dtype or a.dt) if isinstance(a,SArr) else Y.n_like(Y.n_empty)(a,dtype),
        vstack=lambda xs,**k: s_concat(xs),dot=lambda a,b: a.dot(b) if hasattr(a,'__avec__') else a@b if Y.has(a) or Y.has(b) else _np.dot(a,b),inner=lambda a,b: a.dot(b) if hasattr(a,'__avec__') else _np.inner(a,b),ndarray=_NdMeta)
    la=type('LA',(Y.Linalg,),dict(norm=staticmethod(s_norm)))()
    L.np.extra['linalg']=la
    L.extra_builtins=dict(__vp_ifexp__=ifexp,range=s_range,enumerate=s_enumerate,zip=s_zip,len=s_len,sum=s_bsum,min=guard('min',Y.sym_minmax('min')),max=guard('max',Y.sym_minmax('max')),sorted=guard('sorted',builtins.sorted),set=builtins.set)
class _M(type):
    def __instancecheck__(c,x): return builtins.isinstance(x,_np.ndarray) or hasattr(x,'__sarr__')
class _NdMeta(metaclass=_M): pass
# ------------------------------------------------------------------ obligations
def arr(name,n,tail=(),dt=float):
    """an arbitrary array."""
    kd=kind_of(dt); w=1
    for t in tail: w*=t
    def f(i):
        def mk(c): return S(T.mk('f',('free_%s_%d'%(name,c),i),kd)) if kd!='B' else S(_pred('free_'+name,i))
        if not tail: return mk(0)
        o=_np.empty(tail,object)
        for c,ix in enumerate(_np.ndindex(tail)): o[ix]=mk(c)
        return o
    return SArr(n,tail,f,dt)
def prove(ctx,name,goal,pc,hits=(),rounds=3,timeout=20000):
    """obligation over arrays, with the ghost axioms instantiated."""
    for s in SCAT: HITS[s]=list(hits)
    pc=[p for p in pc if p is not T.TRUE]
    ax=instantiate(pc+[goal],rounds)
    return ctx.true(name,goal,pc+ax,timeout)
def prove_eq(ctx,name,a,b,pc,hits=(),rounds=3):
    a,b=_np.ravel(_arr(a)),_np.ravel(_arr(b))
    if len(a)!=len(b): return ctx.check(name+': shape',False,'%d values, expected %d'%(len(a),len(b)))
    return prove(ctx,name,T.band(*[T.eq(tn(x),tn(y)) for x,y in zip(a,b)]),pc,hits,rounds)
def events(ctx,name,outs):
    """index-in-range and same-length obligations collected on the way."""
    done=set()
    for o in outs:
        for ev in o.events:
            k,g,pc=ev
            if k=='gather':
                a,n=g; i=T.var('gi!','I'); g=T.band(*[inrange(tn(x),n) for x in _np.ravel(_arr(a.elem(i)))]); pc=pc+[inrange(i,a.n)]
            elif k=='sqrt': g=T.le(T.ZERO,g)
            elif k=='div': g=T.bnot(T.eq(g,T.lift(T.I(0),g.sort)))
            elif k in('linspace','generic','genloop'): continue
            key=(k,g,tuple(sorted(p.h for p in pc)))
            if key in done or g is T.TRUE: continue
            done.add(key); prove(ctx,'%s: %s obligation %d'%(name,{'gather':'index in range','index':'index in range','div':'division defined','sqrt':'square root defined'}.get(k,k),len(done)),g,pc,hits=[u for u in T.walk(pc) if u.op=='var' and u.sort=='I'])

class AVec:
    """a vector of three-dimensional space known only by its coordinates in an arbitrary orthonormal frame (plus a multiple of
    an arbitrary point): code that looks at single Cartesian components is refused, so the result holds in every frame."""
    __avec__=True
    __array_ufunc__=None
    shape=(3,); ndim=1; dtype=_np.dtype(float)
    def __init__(s,base,co): s.base=T.lift(tt(base),'R'); s.co=[tr(c) for c in co]
    def copy(s): return AVec(s.base,s.co)
    def __slen__(s): return 3
    def __len__(s): return 3
    def astype(s,*a,**k): return s.copy()
    def _l(s,o,k):
        if not hasattr(o,'__avec__'): raise Unsupported('vector plus non-vector')
        return AVec(T.add(s.base,T.mul(k,o.base)),[T.add(a,T.mul(k,b)) for a,b in zip(s.co,o.co)])
    def __add__(s,o): return s._l(o,T.ONE)
    def __sub__(s,o): return s._l(o,T.R(-1))
    def __neg__(s): return s*(-1)
    def __mul__(s,k): k=tr(k); return AVec(T.mul(k,s.base),[T.mul(k,c) for c in s.co])
    __rmul__=__mul__
    def __truediv__(s,k): return s*(S(T.ONE)/S(tr(k)))
    def __iadd__(s,o): r=s+o; s.base,s.co=r.base,r.co; return s
    def __isub__(s,o): r=s-o; s.base,s.co=r.base,r.co; return s
    def __imul__(s,o): r=s*o; s.base,s.co=r.base,r.co; return s
    def __itruediv__(s,o): r=s/o; s.base,s.co=r.base,r.co; return s
    def dot(s,o):
        for v in(s.base,o.base):
            if not(T.isc(v) and T.cv(v)==0): raise Unsupported('inner product with an arbitrary point')
        return S(T.add(*[T.mul(a,b) for a,b in zip(s.co,o.co)]))
    __matmul__=dot
    def __getitem__(s,k): raise Unsupported('single component of an abstract vector')
    def __iter__(s): raise Unsupported('single component of an abstract vector')
