"""Dischargers: exact normal forms (nf.py), z3, cvc5; and numeric refutation."""
import time, math, random, zlib
from fractions import Fraction as Fr
import z3, mpmath
from . import term as T
from .nf import NF, TooBig

STAT={'z3_calls':0,'z3_time':0.0,'nf_calls':0,'nf_time':0.0,'cvc5_calls':0,'cvc5_time':0.0}

# ---------------------------------------------------------------- z3 translation
class Z3:
    def __init__(self):
        self.memo={}; self.side=[]; self.funcs={}
    def f(self,name,sorts):
        k=(name,tuple(str(s) for s in sorts))
        if k not in self.funcs: self.funcs[k]=z3.Function(name,*sorts)
        return self.funcs[k]
    def __call__(self,t):
        r=self.memo.get(t)
        if r is not None: return r
        r=self._c(t); self.memo[t]=r
        return r
    def _c(self,t):
        o=t.op
        if o=='c':
            v=T.cv(t)
            if t.sort=='B': return z3.BoolVal(v)
            return z3.IntVal(int(v)) if t.sort=='I' else z3.RealVal(str(v))
        if o=='var': return z3.Int(t.args[0]) if t.sort=='I' else (z3.Bool(t.args[0]) if t.sort=='B' else z3.Real(t.args[0]))
        if o=='pi':
            p=z3.Real('pi!'); self.side.append(z3.And(p>z3.RealVal('3.14159265358979'),p<z3.RealVal('3.1415926535898'))); return p
        if o=='add': return z3.Sum(*[self(u) for u in t.args])
        if o=='mul':
            r=self(t.args[0])
            for u in t.args[1:]: r=r*self(u)
            return r
        if o=='pow':
            b=self(t.args[0]); n=t.args[1]
            if abs(n)>12: return self.f('pow%d'%n,[b.sort(),b.sort()])(b)
            r=b
            for _ in range(abs(n)-1): r=r*b
            return r if n>0 else 1/r
        if o=='itor': return z3.ToReal(self(t.args[0]))
        if o=='ite': return z3.If(self(t.args[0]),self(t.args[1]),self(t.args[2]))
        if o=='lt': return self(t.args[0])<self(t.args[1])
        if o=='le': return self(t.args[0])<=self(t.args[1])
        if o=='eq': return self(t.args[0])==self(t.args[1])
        if o=='not': return z3.Not(self(t.args[0]))
        if o=='and': return z3.And(*[self(u) for u in t.args])
        if o=='or': return z3.Or(*[self(u) for u in t.args])
        if o=='sel':
            f=self.f('sel_'+str(t.args[0]),[z3.IntSort(),z3.IntSort() if t.sort=='I' else z3.RealSort()])
            return f(self(t.args[1]))
        if o=='f':
            n=t.args[0]; a=[self(u) for u in t.args[1:]]
            if n=='trunc':
                x=a[0]; return z3.If(x>=0,z3.ToInt(x),-z3.ToInt(-x))
            if n=='floor_i': return z3.ToInt(a[0])
            if n=='ceil_i': return -z3.ToInt(-a[0])
            if n=='fabs': return z3.If(a[0]>=0,a[0],-a[0])
            if n=='sgn': return z3.If(a[0]>0,z3.RealVal(1),z3.If(a[0]<0,z3.RealVal(-1),z3.RealVal(0)))
            f=self.f(n,[x.sort() for x in a]+[z3.IntSort() if t.sort=='I' else z3.RealSort()])
            r=f(*a)
            if n=='pow2i': self.side.append(r>=1)
            if n=='sqrt': self.side.append(z3.Implies(a[0]>=0,z3.And(r>=0,r*r==a[0])))
            if n in('sin','cos'):
                other=self.f('cos' if n=='sin' else 'sin',[z3.RealSort(),z3.RealSort()])(a[0])
                self.side.append(r*r+other*other==1)
            return r
        if o=='Sum':
            return (z3.Int if t.sort=='I' else z3.Real)('sum!%d'%(abs(t.h)))
        raise NotImplementedError('z3 '+o)

def z3_check(assums,goal=None,timeout=5000):
    """returns ('unsat'|'sat'|'unknown', model, z3trans). With goal: checks assums and not goal."""
    tr=Z3()
    t0=time.time()
    s=z3.Solver(); s.set('timeout',timeout)
    cs=[tr(a) for a in assums]
    if goal is not None: cs.append(z3.Not(tr(goal)))
    for c in cs+tr.side: s.add(c)
    r=s.check()
    STAT['z3_calls']+=1; STAT['z3_time']+=time.time()-t0
    return str(r),(s.model() if r==z3.sat else None),tr,s

def cvc5_check(solver,timeout=10000):
    """second opinion on the same query through SMT-LIB."""
    import cvc5
    t0=time.time()
    try:
        tm=cvc5.TermManager() if hasattr(cvc5,'TermManager') else None
        slv=cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per',str(timeout)); slv.setLogic('ALL')
        p=cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,solver.to_smt2(),'q')
        sm=p.getSymbolManager(); res='unknown'
        while True:
            c=p.nextCommand()
            if c.isNull(): break
            out=c.invoke(slv,sm)
            if 'unsat' in out: res='unsat'
            elif 'sat' in out and 'unsat' not in out: res='sat'
        return res
    except Exception:
        return 'unknown'
    finally:
        STAT['cvc5_calls']+=1; STAT['cvc5_time']+=time.time()-t0

def feasible(pc,timeout=2000):
    r,_,_,_=z3_check(pc,None,timeout)
    return r!='unsat'

# ---------------------------------------------------------------- numeric evaluation
class NumFail(Exception): pass
class Env:
    """values for variables / arrays; unspecified ones are drawn deterministically."""
    def __init__(self,seed=0,vals=None,funcs=None,scale=1.0):
        self.vals=dict(vals or {}); self.seed=seed; self.funcs=funcs or {}; self.scale=scale; self.arr={}
    def rnd(self,key):
        h=zlib.crc32(repr((self.seed,key)).encode()); rr=random.Random(h)
        return mpmath.mpf(rr.uniform(-2,2))*self.scale
    def var(self,t):
        v=self.vals.get(t.args[0])
        if v is None:
            v=self.rnd(t.args[0])
            if t.sort=='I':
                v=random.Random(zlib.crc32(repr((self.seed,t.args[0])).encode())).randint(0,4)
            self.vals[t.args[0]]=v
        return v
    def sel(self,name,off,sort):
        k=(name,int(off))
        if k not in self.arr:
            self.arr[k]=self.rnd(k) if sort=='R' else int(abs(self.rnd(k))*3)
        return self.arr[k]

def _mp(x):
    return mpmath.mpf(x.numerator)/x.denominator if isinstance(x,Fr) else mpmath.mpf(x)
NUMF={
 'sqrt':lambda x: mpmath.sqrt(x) if x>=0 else _bad('sqrt<0'),
 'log':lambda x: mpmath.log(x) if x>0 else _bad('log<=0'),
 'sin':mpmath.sin,'cos':mpmath.cos,'asinh':mpmath.asinh,'atan2':mpmath.atan2,'fabs':abs,'tan':mpmath.tan,
 'acos':lambda x: mpmath.acos(x) if abs(x)<=1 else _bad('acos'),'asin':lambda x: mpmath.asin(x) if abs(x)<=1 else _bad('asin'),
 'atan':mpmath.atan,'exp':mpmath.exp,
 'sgn':mpmath.sign,'pow':lambda a,b: mpmath.power(a,b) if a>0 else _bad('pow'),
 'ellipkm1':lambda p: mpmath.ellipk(1-p) if p>0 else _bad('ellipkm1'),'ellipem1':lambda p: mpmath.ellipe(1-p) if p>=0 else _bad('e'),
 'ellipk':lambda m: mpmath.ellipk(m) if m<1 else _bad('k'),'ellipe':lambda m: mpmath.ellipe(m) if m<=1 else _bad('e'),
 'trunc':lambda x:int(mpmath.floor(x)) if x>=0 else -int(mpmath.floor(-x)),
 'pow2i':lambda x: 2**int(x) if 0<=x<60 else _bad('pow2'),
 'floor_i':lambda x:int(mpmath.floor(x)),'ceil_i':lambda x:int(mpmath.ceil(x)),
}
def _bad(m): raise NumFail(m)
def evalf(t,env,memo=None,bound=None):
    memo={} if memo is None else memo
    def go(t):
        r=memo.get(t)
        if r is not None: return r
        o=t.op
        if o=='c': r=T.cv(t) if t.sort=='B' else (int(T.cv(t)) if t.sort=='I' else _mp(T.cv(t)))
        elif o=='pi': r=mpmath.pi+0
        elif o=='var': r=env.var(t)
        elif o=='add': 
            r=0
            for u in t.args: r=r+go(u)
        elif o=='mul':
            r=1
            for u in t.args: r=r*go(u)
        elif o=='pow':
            b=go(t.args[0])
            if b==0 and t.args[1]<0: raise NumFail('div0')
            r=b**t.args[1]
        elif o=='itor': r=mpmath.mpf(go(t.args[0]))
        elif o=='ite': r=go(t.args[1]) if go(t.args[0]) else go(t.args[2])
        elif o=='lt': r=go(t.args[0])<go(t.args[1])
        elif o=='le': r=go(t.args[0])<=go(t.args[1])
        elif o=='eq': r=go(t.args[0])==go(t.args[1])
        elif o=='not': r=not go(t.args[0])
        elif o=='and': r=all(go(u) for u in t.args)
        elif o=='or': r=any(go(u) for u in t.args)
        elif o=='sel': r=env.sel(t.args[0],go(t.args[1]),t.sort)
        elif o=='Sum':
            v,lo,hi,b=t.args
            lo,hi=go(lo),go(hi); r=0
            for i in range(int(lo),int(hi)):
                r=r+evalf(b,env.bind(v.args[0],i),None)
        elif o=='f':
            n=t.args[0]; a=[go(u) for u in t.args[1:]]
            if n in env.funcs: r=env.funcs[n](*a)
            elif n in NUMF: r=NUMF[n](*a)
            else:
                # unknown function: arbitrary but functionally consistent value
                r=env.rnd((n,)+tuple(mpmath.nstr(mpmath.mpf(x),12) for x in a))
                if t.sort=='I': r=int(abs(r)*3)
        else: raise NotImplementedError(o)
        if t.op!='Sum' or True: memo[t]=r
        return r
    return go(t)
def _bind(self,name,val):
    e=Env(self.seed,dict(self.vals),self.funcs,self.scale); e.arr=self.arr; e.vals[name]=val
    return e
Env.bind=_bind

# ---------------------------------------------------------------- proving
_deadline=[0.0]
def find_ites(t):
    out=[]
    for u in T.walk([t]):
        if u.op=='ite' and u.args[0] not in out: out.append(u.args[0])
    return out
def find_sums(t):
    """outermost Sum nodes."""
    out=[]; seen=set(); st=[t]
    while st:
        u=st.pop()
        if u in seen: continue
        seen.add(u)
        if u.op=='Sum': out.append(u); continue
        st.extend(T.children(u))
    return out

class Result:
    def __init__(self,status,method='',detail='',model=None): self.status=status; self.method=method; self.detail=detail; self.model=model
    def __repr__(self): return '<%s %s %s>'%(self.status,self.method,self.detail)

def poly_zero(t,limit=6000):
    """t == 0 as a polynomial over its maximal non-polynomial subterms (sound, incomplete)."""
    memo={}
    class Big(Exception): pass
    def mulp(a,b):
        if len(a)*len(b)>limit: raise Big
        out={}
        for ma,ca in a.items():
            for mb,cb in b.items():
                if not ma: m=mb
                elif not mb: m=ma
                else:
                    d=dict(ma)
                    for x,e in mb: 
                        e2=d.get(x,0)+e
                        if e2: d[x]=e2
                        else: d.pop(x)
                    m=frozenset(d.items())
                c=out.get(m,0)+ca*cb
                if c: out[m]=c
                else: out.pop(m,None)
        return out
    E=frozenset()
    def go(t):
        r=memo.get(t)
        if r is not None: return r
        o=t.op
        if o=='c': r={E:T.cv(t)} if T.cv(t) else {}
        elif o=='add':
            r={}
            for u in t.args:
                for m,c in go(u).items():
                    c2=r.get(m,0)+c
                    if c2: r[m]=c2
                    else: r.pop(m,None)
                if len(r)>limit: raise Big
        elif o=='mul':
            r={E:Fr(1)}
            for u in t.args: r=mulp(r,go(u))
        elif o=='pow' and t.args[0].op!='add': r={frozenset([(t.args[0],t.args[1])]):Fr(1)} if t.args[0].op!='itor' else {frozenset([(t,1)]):Fr(1)}
        elif o=='pow' and 0<t.args[1]<5:
            b=go(t.args[0]); r=b
            for _ in range(t.args[1]-1): r=mulp(r,b)
        else: r={frozenset([(t,1)]):Fr(1)}
        memo[t]=r
        return r
    try: return not go(t)
    except Big: return False

def linear_in(t,atoms):
    """decompose t = rest + sum coeff_i*atom_i; None when not linear in the atoms."""
    from .term import R
    coefs={}; 
    zero={a:T.ZERO for a in atoms}
    rest=T.subst(t,zero)
    dummies={a:T.fresh('lin') for a in atoms}
    d=T.subst(t,dummies)
    for a in atoms:
        c=T.diff(d,dummies[a])
        if any(T.occurs(dummies[b],c) for b in atoms): return None
        coefs[a]=c
    return rest,coefs

def prove_zero(t,pc=(),depth=0,limit=40.0,nfobj=None):
    """prove t==0 under pc (list of boolean terms)."""
    t0=time.time()
    pc=list(pc)
    if T.isc(t): return Result('proved' if T.cv(t)==0 else 'failed','const')
    if depth==0: _deadline[0]=time.time()+limit
    elif time.time()>_deadline[0]: return Result('unknown','time')
    if poly_zero(t): return Result('proved','poly')
    # 1. sums (before ites, whose conditions may mention bound variables)
    sums=find_sums(t)
    if sums:
        lin=linear_in(t,sums)
        if lin is None: return Result('unknown','sum','nonlinear in sums')
        rest,coefs=lin
        groups={}
        for s in sums:
            v,lo,hi,b=s.args
            groups.setdefault((lo,hi),[]).append((coefs[s],v,b))
        r=prove_zero(rest,pc,depth+1,limit)
        if r.status!='proved': return r
        for (lo,hi),items in groups.items():
            nv=T.fresh('i','I')
            body=T.add(*[T.mul(c,T.subst(b,{v:nv})) for c,v,b in items])
            r=prove_zero(body,pc+[T.le(lo,nv),T.lt(nv,hi)],depth+1,limit)
            if r.status!='proved': return r
        return Result('proved','induction+'+r.method)
    ites=find_ites(t)
    if ites:
        # choose a condition without nested ite
        c=next((c for c in ites if not find_ites(c)),ites[0])
        for val,cond in ((T.TRUE,c),(T.FALSE,T.bnot(c))):
            if not feasible(pc+[cond],1500): continue
            def kill(u): return u
            m={}
            for u in T.walk([t]):
                if u.op=='ite' and u.args[0] is c: m[u]=None
            tt=_assume_cond(t,c,val is T.TRUE)
            r=prove_zero(tt,pc+[cond],depth+1,limit)
            if r.status!='proved': return r
        return Result('proved','cases+nf')
    # 2. polynomial identity over opaque atoms, then the rational normal form
    STAT['nf_calls']+=1
    try:
        nf=nfobj or NF(known_pos=lambda u: pos_query(u,pc))
        z=nf.is_zero(t)
        STAT['nf_time']+=time.time()-t0
        if z: return Result('proved','nf')
    except TooBig: STAT['nf_time']+=time.time()-t0
    except (ZeroDivisionError,NotImplementedError) as e:
        STAT['nf_time']+=time.time()-t0
    # 3. z3
    r,m,tr,s=z3_check(pc,T.eq(t,T.ZERO),5000)
    if r=='unsat': return Result('proved','z3')
    return Result('failed','nf/z3:'+r,model=(m,tr,T.eq(t,T.ZERO),pc) if m is not None else None)

_pos={}
def pos_query(u,pc):
    k=(u,tuple(pc))
    if k not in _pos:
        _pos[k]= z3_check(pc,T.lt(T.ZERO,u),2000)[0]=='unsat'
    return _pos[k]

def _assume_cond(t,c,val,memo=None):
    memo={} if memo is None else memo
    cn=T.bnot(c)
    def go(u):
        r=memo.get(u)
        if r is not None: return r
        if u.op=='ite' and u.args[0] is c: r=go(u.args[1] if val else u.args[2])
        elif u.op=='ite' and u.args[0] is cn: r=go(u.args[2] if val else u.args[1])
        else:
            ch=T.children(u)
            n=tuple(go(x) for x in ch)
            r=u if all(x is y for x,y in zip(n,ch)) else T.rebuild(u,n)
        memo[u]=r
        return r
    return go(t)

def prove_bool(goal,pc=(),timeout=8000):
    pc=list(pc)
    if goal is T.TRUE: return Result('proved','const')
    r,m,tr,s=z3_check(pc,goal,timeout)
    if r=='unsat': return Result('proved','z3')
    if r=='unknown':
        c=cvc5_check(s,timeout)
        if c=='unsat': return Result('proved','cvc5')
    return Result('failed','z3:'+r,model=(m,tr,goal,pc) if m is not None else None)

FREE=('FF_','field_radial_','field_3d_','current_field_','free_')
KNOWN={'trunc','floor_i','ceil_i','fabs','sgn','sqrt'}
def free(n): return any(n.startswith(f) for f in FREE)
def model_is_real(model):
    """a z3 model is a definite counterexample when every function it interprets may be anything (or is fully
    specified to z3) and no division by zero is involved."""
    if model is None: return False
    m,tr,goal,pc=model
    for u in T.walk([goal]+list(pc)):
        if u.op=='f' and u.args[0] not in KNOWN and not free(u.args[0]): return False
        if u.op in('Sum','pi'): return False
        if u.op=='pow' and abs(u.args[1])>12: return False
        if u.op=='pow' and u.args[1]<0:
            try:
                if z3.is_true(z3.simplify(m.eval(tr(u.args[0])==0,model_completion=True))): return False
            except Exception: return False
    return True

def flatten(pc):
    out=[]
    for p in pc:
        if p.op=='and': out+=flatten(p.args)
        elif p is not T.TRUE: out.append(p)
    return out
def solve_eqs(t,pc):
    """eliminate variables / array elements fixed by equalities."""
    pc=flatten(pc); ch=True; n=0
    while ch and n<60:
        ch=False
        for q in pc:
            if q.op!='eq': continue
            for a,b in((q.args[0],q.args[1]),(q.args[1],q.args[0])):
                if a.op in('var','sel') and a.sort==b.sort and not T.occurs(a,b) and not T.occurs(b,a):
                    pc=[T.subst(x,{a:b}) for x in pc if x is not q]; t=T.subst(t,{a:b}); pc=flatten(pc); ch=True; n+=1; break
            if ch: break
    return t,pc
def _leaves(t,bound=()):
    out=[]
    for u in T.walk([t]):
        if u.op in('var','sel') and u not in out: out.append(u)
    return out
def _close(a,b,tol=mpmath.mpf(10)**-28): return abs(a-b)<=tol*max(1,abs(a),abs(b))
def holds(q,env):
    """value of a path condition, equalities of reals up to rounding."""
    memo={}
    if q.op=='eq' and q.args[0].sort=='R': return _close(evalf(q.args[0],env,memo),evalf(q.args[1],env,memo))
    return evalf(q,env,memo)
def setleaf(u,env,v):
    if u.sort=='I': v=int(v)
    if u.op=='var': env.vals[u.args[0]]=v
    else: env.arr[(u.args[0],int(evalf(u.args[1],env,{})))]=v
def repair(q,env,rr):
    """change one variable or array element so that comparison q holds."""
    if q.op=='or': q=rr.choice(q.args)
    if q.op=='and':
        for x in q.args:
            if not holds(x,env): return repair(x,env,rr)
        return True
    if q.op=='not': 
        if q.args[0].op=='eq': 
            u=rr.choice(_leaves(q)); setleaf(u,env,evalf(u,env,{})+(1 if u.sort=='I' else mpmath.mpf(rr.uniform(.1,1)))); return True
        return False
    if q.op not in('lt','le','eq'): return False
    d=T.sub(q.args[0],q.args[1]); ls=_leaves(d); rr.shuffle(ls)
    for u in ls[:6]:
        try:
            v=evalf(u,env,{}); f0=evalf(d,env,{}); setleaf(u,env,v+1); f1=evalf(d,env,{})
        except (NumFail,ZeroDivisionError,OverflowError): setleaf(u,env,v); continue
        sl=f1-f0
        if sl==0: setleaf(u,env,v); continue
        root=v-mpmath.mpf(f0)/sl
        m=0 if q.op=='eq' else mpmath.mpf(rr.choice([0.02,0.3,1.0]))*(1 if u.sort=='R' else 3)
        new=root-(m if sl>0 else -m)
        if u.sort=='I': new=mpmath.floor(new) if sl>0 else mpmath.ceil(new)
        setleaf(u,env,new)
        try:
            if holds(q,env): return True
        except (NumFail,ZeroDivisionError,OverflowError): pass
        setleaf(u,env,v)
    return False
def witness(pc,env,seed,steps=40):
    rr=random.Random(seed)
    for _ in range(steps):
        bad=None
        for q in pc:
            if not holds(q,env): bad=q; break
        if bad is None: return True
        if not repair(bad,env,rr): return False
    return False

SCALES=[1.0,0.3,3.0,1.0,1e-7,0.3,1e4,1.0]
def refute_zero(t,pc=(),tries=40,seed=1,env_factory=None,tol=1e-25,funcs=None,budget=15.0):
    """numeric search for values satisfying pc with t!=0; returns (env,value) or None."""
    mpmath.mp.dps=40; t1=time.time()
    t,pc=solve_eqs(t,pc)
    for k in range(tries):
        if time.time()-t1>budget: break
        env=env_factory(seed*1000+k) if env_factory else Env(seed*1000+k,funcs=funcs,scale=SCALES[k%8])
        try:
            if not witness(pc,env,seed*1000+k): continue
            memo={}
            v=evalf(t,env,memo)
        except (NumFail,ZeroDivisionError,OverflowError): continue
        # scale: magnitude of the terms
        sc=1
        if t.op=='add':
            try: sc=max([abs(evalf(u,env,memo)) for u in t.args]+[mpmath.mpf(1)*0+1e-30])
            except Exception: sc=1
        if abs(v)>tol*max(sc,mpmath.mpf(10)**-20): return env,v,sc
    return None
def surely_false(g,env,neg=False):
    if g.op=='not': return surely_false(g.args[0],env,not neg)
    if g.op in('and','or'):
        r=[surely_false(x,env,neg) for x in g.args]
        return any(r) if (g.op=='and')!=neg else all(r)
    if g.op in('lt','le','eq'):
        a,b=evalf(g.args[0],env,{}),evalf(g.args[1],env,{})
        if g.args[0].sort=='I' and g.args[1].sort=='I': v=evalf(g,env,{}); return v if neg else not v
        e=mpmath.mpf(10)**-15*max(1,abs(a),abs(b))
        if g.op=='eq': return abs(a-b)<e*mpmath.mpf(10)**-15 if neg else abs(a-b)>e
        return (b-a>e) if neg else (a-b>e)
    if g.op=='c': return bool(T.cv(g)) if neg else not T.cv(g)
    return False
def refute_bool(goal,pc=(),tries=30,seed=1,budget=8.0):
    mpmath.mp.dps=40; t1=time.time()
    goal,pc=solve_eqs(goal,pc)
    for k in range(tries):
        if time.time()-t1>budget: break
        env=Env(seed*1000+k,scale=SCALES[k%8])
        try:
            if not witness(pc,env,seed*1000+k): continue
            if k%2 and not surely_false(goal,env):
                if not repair(T.bnot(goal),env,random.Random(k)) or not all(holds(q,env) for q in pc): continue
            if surely_false(goal,env): return env
        except (NumFail,ZeroDivisionError,OverflowError): continue
    return None
