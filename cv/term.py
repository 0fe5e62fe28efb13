"""Hash-consed expression DAG used by the VC generator (C and Python front ends).

Sorts: 'R' (mathematical reals, standing for C doubles / Python floats), 'I'
(mathematical integers), 'B' (booleans).  Nothing here proves anything: see prove.py.
"""
from fractions import Fraction as Fr
import math

class T:
    __slots__=('op','args','sort','h','_z3','__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.h
    def __eq__(self,o): return self is o
    # convenience arithmetic (specs are written with it)
    def __add__(a,b): return add(a,lift(b,a.sort))
    def __radd__(a,b): return add(lift(b,a.sort),a)
    def __sub__(a,b): return sub(a,lift(b,a.sort))
    def __rsub__(a,b): return sub(lift(b,a.sort),a)
    def __mul__(a,b): return mul(a,lift(b,a.sort))
    def __rmul__(a,b): return mul(lift(b,a.sort),a)
    def __truediv__(a,b): return div(a,lift(b,'R'))
    def __rtruediv__(a,b): return div(lift(b,'R'),a)
    def __neg__(a): return neg(a)
    def __pow__(a,n): return power(a,n)

_tab={}
def mk(op,args,sort):
    key=(op,args,sort)
    t=_tab.get(key)
    if t is None:
        t=T.__new__(T); t.op=op; t.args=args; t.sort=sort; t.h=hash(key); t._z3=None
        _tab[key]=t
    return t

def exact(x):
    """exact rational of a Python/C double literal."""
    return Fr(x)

def R(x):
    if isinstance(x,T):
        return itor(x) if x.sort=='I' else x
    if isinstance(x,float):
        if x!=x or x in (math.inf,-math.inf): raise ValueError('non finite constant')
    return mk('c',(Fr(x),),'R')
def I(x):
    if isinstance(x,T): return x
    return mk('c',(Fr(int(x)),),'I')
def lift(x,sort):
    if isinstance(x,T):
        if sort=='R' and x.sort=='I': return itor(x)
        return x
    return R(x) if sort=='R' else I(x)
TRUE=mk('c',(True,),'B'); FALSE=mk('c',(False,),'B')
PI=mk('pi',(),'R')
def var(name,sort='R'): return mk('var',(name,),sort)
def isc(t): return t.op=='c'
def cv(t): return t.args[0]
ZERO=R(0); ONE=R(1); IZERO=I(0); IONE=I(1)

_fresh=[0]
def fresh(prefix,sort='R'):
    _fresh[0]+=1
    return var('%s!%d'%(prefix,_fresh[0]),sort)

def _key(t): return t.h

def itor(t):
    if t.sort=='R': return t
    if isc(t): return R(cv(t))
    return mk('itor',(t,),'R')

def add(*ts):
    sort='R' if any(t.sort=='R' for t in ts) else 'I'
    c=Fr(0); terms={}
    def acc(t,k):
        nonlocal c
        if t.op=='c': c+=k*cv(t)
        elif t.op=='add':
            for u in t.args: acc(u,k)
        elif t.op=='mul' and t.args[0].op=='c':
            rest=t.args[1:]
            r=rest[0] if len(rest)==1 else mk('mul',rest,t.sort)
            if r.op=='add' and sort=='I': acc(r,k*cv(t.args[0]))
            else: terms[r]=terms.get(r,0)+k*cv(t.args[0])
        else: terms[t]=terms.get(t,0)+k
    for t in ts: acc(lift(t,sort),Fr(1))
    out=[]
    for t,k in terms.items():
        if k==0: continue
        out.append(t if k==1 else _scale(k,t,sort))
    if c!=0 or not out: out.append(mk('c',(c,),sort))
    if len(out)==1: return out[0]
    out.sort(key=_key)
    return mk('add',tuple(out),sort)

def _scale(k,t,sort):
    cc=mk('c',(Fr(k),),sort)
    if t.op=='mul':
        return mk('mul',(cc,)+t.args,sort)
    return mk('mul',(cc,t),sort)

def neg(t): return mul(mk('c',(Fr(-1),),t.sort),t)
def sub(a,b):
    if a is b: return mk('c',(Fr(0),),a.sort)
    return add(a,neg(b))

def mul(*ts):
    sort='R' if any(t.sort=='R' for t in ts) else 'I'
    c=Fr(1); fac={}
    def acc(t):
        nonlocal c
        if t.op=='c': c*=cv(t)
        elif t.op=='mul':
            for u in t.args: acc(u)
        elif t.op=='pow': fac[t.args[0]]=fac.get(t.args[0],0)+t.args[1]
        else: fac[t]=fac.get(t,0)+1
    for t in ts: acc(lift(t,sort))
    if c==0: return mk('c',(Fr(0),),sort)
    out=[]
    for t,k in fac.items():
        if k==0: continue
        out.append(t if k==1 else mk('pow',(t,k),sort))
    if not out: return mk('c',(c,),sort)
    if sort=='I' and c!=1 and len(out)==1 and out[0].op=='add':
        return add(*[mul(mk('c',(c,),'I'),u) for u in out[0].args])
    if sort=='I' and len(out)>1 and any(o.op=='add' for o in out):
        # distribute integer products: canonical linear/polynomial form for offsets
        k=next(i for i,o in enumerate(out) if o.op=='add')
        rest=out[:k]+out[k+1:]
        return add(*[mul(mk('c',(c,),'I'),u,*rest) for u in out[k].args])
    out.sort(key=_key)
    if c!=1: out.insert(0,mk('c',(c,),sort))
    if len(out)==1: return out[0]
    return mk('mul',tuple(out),sort)

def power(t,n):
    if isinstance(n,T):
        if not isc(n): return fun('pow',t,n)
        n=cv(n)
    n=Fr(n)
    if n.denominator!=1:
        if n.denominator==2:
            h=n-Fr(1,2)
            return mul(power(t,h),sqrt(t))
        return fun('pow',R(t),R(n))
    n=int(n)
    if n==0: return mk('c',(Fr(1),),t.sort)
    if n==1: return t
    if t.op=='c' and (cv(t)!=0):
        return mk('c',(cv(t)**n,),t.sort)
    if t.op=='c' and n>0: return t
    if t.op=='mul': return mul(*[power(u,n) for u in t.args])
    if t.op=='pow': return power(t.args[0],t.args[1]*n)
    return mk('pow',(t,n),t.sort)

def div(a,b):
    a=lift(a,'R'); b=lift(b,'R')
    if isc(b):
        if cv(b)==0: return fun('divz',a,b)
        return mul(R(1/cv(b)),a)
    return mul(a,power(b,-1))

def fun(name,*args):
    args=tuple(args)
    if all(isinstance(a,T) and a.op=='c' for a in args):
        if name=='sqrt' and cv(args[0])>=0:
            v=cv(args[0]); n,d=math.isqrt(v.numerator),math.isqrt(v.denominator)
            if n*n==v.numerator and d*d==v.denominator: return R(Fr(n,d))
        if name=='fabs': return R(abs(cv(args[0])))
        if name in('sin',) and cv(args[0])==0: return ZERO
        if name in('cos',) and cv(args[0])==0: return ONE
        if name=='log' and cv(args[0])==1: return ZERO
        if name=='trunc': return I(int(cv(args[0])))
    return mk('f',(name,)+args,'I' if name in('trunc','floor_i','ceil_i') else 'R')
def sqrt(a): return fun('sqrt',R(a))
def cos(a): return fun('cos',R(a))
def sin(a):
    return fun('sin',R(a))

def sel(arr,off,sort='R'): return mk('sel',(arr,off),sort)

def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort!=b.sort and 'B' in (a.sort,b.sort):      # C: a truth value is an integer
        if a.sort=='B': a=mk('ite',(a,IONE,IZERO),'I') if a not in (TRUE,FALSE) else (IONE if a is TRUE else IZERO)
        if b.sort=='B': b=mk('ite',(b,IONE,IZERO),'I') if b not in (TRUE,FALSE) else (IONE if b is TRUE else IZERO)
    if a.sort!=b.sort: a,b=lift(a,'R'),lift(b,'R')
    return mk('ite',(c,a,b),a.sort)

def Sum(v,lo,hi,body):
    """sum for v in [lo,hi) of body; v is an integer var term."""
    if isc(body) and cv(body)==0: return ZERO
    if isc(lo) and isc(hi) and cv(hi)<=cv(lo): return ZERO
    return mk('Sum',(v,lo,hi,body),body.sort)

# booleans
def lt(a,b):
    s='R' if 'R' in(a.sort,b.sort) else 'I'
    a,b=lift(a,s),lift(b,s)
    if isc(a) and isc(b): return TRUE if cv(a)<cv(b) else FALSE
    if a is b: return FALSE
    return mk('lt',(a,b),'B')
def le(a,b):
    s='R' if 'R' in(a.sort,b.sort) else 'I'
    a,b=lift(a,s),lift(b,s)
    if isc(a) and isc(b): return TRUE if cv(a)<=cv(b) else FALSE
    if a is b: return TRUE
    return mk('le',(a,b),'B')
def gt(a,b): return lt(b,a)
def ge(a,b): return le(b,a)
def _parity(d):
    """d = c + g*(integer) with g not dividing c: never zero."""
    c=Fr(0); g=0
    for u in (d.args if d.op=='add' else (d,)):
        if u.op=='c': c=cv(u); continue
        k=cv(u.args[0]) if u.op=='mul' and u.args[0].op=='c' else Fr(1)
        if k.denominator!=1: return False
        g=math.gcd(g,abs(int(k)))
    return g>1 and c.denominator==1 and int(c)%g!=0
def eq(a,b):
    if a.sort=='B': return bor(band(a,b),band(bnot(a),bnot(b)))
    s='R' if 'R' in(a.sort,b.sort) else 'I'
    a,b=lift(a,s),lift(b,s)
    if a is b: return TRUE
    if isc(a) and isc(b): return TRUE if cv(a)==cv(b) else FALSE
    if s=='I':
        d=sub(a,b)
        if isc(d): return TRUE if cv(d)==0 else FALSE
        if _parity(d): return FALSE
    if a.h>b.h: a,b=b,a
    return mk('eq',(a,b),'B')
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op=='not': return a.args[0]
    if a.op=='lt': return le(a.args[1],a.args[0])
    if a.op=='le': return lt(a.args[1],a.args[0])
    return mk('not',(a,),'B')
def band(*xs):
    out=[]
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op=='and':
            out+= [y for y in x.args if y not in out]
        elif x not in out: out.append(x)
    if not out: return TRUE
    if len(out)==1: return out[0]
    return mk('and',tuple(out),'B')
def bor(*xs):
    out=[]
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op=='or': out+=[y for y in x.args if y not in out]
        elif x not in out: out.append(x)
    if not out: return FALSE
    if len(out)==1: return out[0]
    return mk('or',tuple(out),'B')
def implies(a,b): return bor(bnot(a),b)

# traversal -----------------------------------------------------------
def children(t):
    if t.op in('c','var','pi'): return ()
    if t.op=='pow': return (t.args[0],)
    if t.op=='f': return t.args[1:]
    if t.op=='sel': return (t.args[1],)
    return t.args

def rebuild(t,ch):
    o=t.op
    if o=='add': return add(*ch)
    if o=='mul': return mul(*ch)
    if o=='pow': return power(ch[0],t.args[1])
    if o=='f':
        r=fun(t.args[0],*ch)
        return r if r.sort==t.sort else mk('f',(t.args[0],)+tuple(ch),t.sort)
    if o=='sel': return sel(t.args[0],ch[0],t.sort)
    if o=='ite': return ite(*ch)
    if o=='Sum': return Sum(*ch)
    if o=='lt': return lt(*ch)
    if o=='le': return le(*ch)
    if o=='eq': return eq(*ch)
    if o=='not': return bnot(ch[0])
    if o=='and': return band(*ch)
    if o=='or': return bor(*ch)
    if o=='itor': return itor(ch[0])
    raise AssertionError(o)

def subst(t,m,memo=None):
    """simultaneous substitution {term: term} (capture is avoided by fresh bound names)."""
    if memo is None: memo={}
    if not m: return t
    def go(t):
        if t in m: return m[t]
        r=memo.get(t)
        if r is not None: return r
        ch=children(t)
        if not ch: r=t
        else:
            n=tuple(go(c) for c in ch)
            r=t if all(x is y for x,y in zip(n,ch)) else rebuild(t,n)
        memo[t]=r
        return r
    return go(t)

def walk(ts):
    seen=set(); st=list(ts)
    while st:
        t=st.pop()
        if t in seen: continue
        seen.add(t); yield t
        st.extend(children(t))
def occurs(x,t):
    return any(u is x for u in walk([t]))
def occurs_any(xs,t):
    xs=set(xs)
    return any(u in xs for u in walk([t]))
def arrays_in(t):
    return {u.args[0] for u in walk([t]) if u.op=='sel'}

def diff(t,x,memo=None,funrules=None):
    """symbolic derivative; ite conditions are treated as locally constant."""
    if memo is None: memo={}
    def D(t):
        if t is x: return ONE
        r=memo.get(t)
        if r is not None: return r
        o=t.op
        if o in('c','var','pi','sel','itor'): r=ZERO
        elif o=='add': r=add(*[D(u) for u in t.args])
        elif o=='mul':
            parts=[]
            for i,u in enumerate(t.args):
                d=D(u)
                if isc(d) and cv(d)==0: continue
                parts.append(mul(*t.args[:i],d,*t.args[i+1:]))
            r=add(*parts) if parts else ZERO
        elif o=='pow':
            b,n=t.args
            d=D(b)
            r=ZERO if (isc(d) and cv(d)==0) else mul(R(n),power(b,n-1),d)
        elif o=='ite': r=ite(t.args[0],D(t.args[1]),D(t.args[2]))
        elif o=='Sum': r=Sum(t.args[0],t.args[1],t.args[2],D(t.args[3]))
        elif o=='f':
            n=t.args[0]; a=t.args[1:]
            da=[D(u) for u in a]
            if all(isc(d) and cv(d)==0 for d in da): r=ZERO
            else: r=add(*[mul(pd,d) for pd,d in zip(partials(n,a,funrules),da) if not(isc(d) and cv(d)==0)])
        else: raise NotImplementedError('diff '+o)
        memo[t]=r
        return r
    return D(t)

def partials(n,a,funrules=None):
    if funrules and n in funrules: return funrules[n](*a)
    u=a[0]
    if n=='sqrt': return [div(R(Fr(1,2)),sqrt(u))]
    if n=='log': return [power(u,-1)]
    if n=='sin': return [cos(u)]
    if n=='cos': return [neg(sin(u))]
    if n=='asinh': return [power(sqrt(u*u+1),-1)]
    if n=='atan2':
        y,x=a; d=power(add(x*x,y*y),-1)
        return [mul(x,d),mul(neg(y),d)]
    if n=='fabs': return [fun('sgn',u)]
    # complete elliptic integrals in the complementary parameter p=1-m
    if n=='ellipkm1': return [div(sub(mul(u,fun('ellipkm1',u)),fun('ellipem1',u)),mul(R(2),u,sub(ONE,u)))]
    if n=='ellipem1': return [div(sub(fun('ellipkm1',u),fun('ellipem1',u)),mul(R(2),sub(ONE,u)))]
    if n=='ellipk': return [div(sub(fun('ellipe',u),mul(sub(ONE,u),fun('ellipk',u))),mul(R(2),u,sub(ONE,u)))]
    if n=='ellipe': return [div(sub(fun('ellipe',u),fun('ellipk',u)),mul(R(2),u))]
    raise NotImplementedError('derivative of '+n)

def show(t,depth=6):
    o=t.op
    if o=='c': return str(t.args[0]) if t.args[0] in(True,False) or t.args[0].denominator<10**6 else repr(float(t.args[0]))
    if o=='var': return t.args[0]
    if o=='pi': return 'pi'
    if depth==0: return '..'
    s=lambda u: show(u,depth-1)
    if o=='add': return '('+' + '.join(s(u) for u in t.args)+')'
    if o=='mul': return '*'.join(s(u) for u in t.args)
    if o=='pow': return s(t.args[0])+'^%d'%t.args[1]
    if o=='f': return t.args[0]+'('+', '.join(s(u) for u in t.args[1:])+')'
    if o=='sel': return '%s[%s]'%(t.args[0],s(t.args[1]))
    if o in('lt','le','eq'): return '(%s %s %s)'%(s(t.args[0]),{'lt':'<','le':'<=','eq':'=='}[o],s(t.args[1]))
    return o+'('+', '.join(s(u) for u in t.args)+')'

def rebuild_real(u):
    """integer add/mul/pow as a real expression over itor(atoms)."""
    if u.op=='c': return R(cv(u))
    if u.op=='add': return add(*[rebuild_real(x) for x in u.args])
    if u.op=='mul': return mul(*[rebuild_real(x) for x in u.args])
    if u.op=='pow': return power(rebuild_real(u.args[0]),u.args[1])
    return itor(u)
