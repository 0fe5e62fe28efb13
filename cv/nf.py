"""Exact normal form of real-valued terms as rational functions over atoms, modulo the
defining relations of square roots, absolute values and sin/cos.  A zero normal form is a
proof of equality over the reals (wherever both sides are defined); a non-zero one is not a
refutation."""
from fractions import Fraction as Fr
from . import term as T
import math

class TooBig(Exception): pass
MAXTERMS=60000

# polynomials: dict monomial->Fraction, monomial = tuple of (atom id, exponent) sorted by id
def p_const(c): return {():Fr(c)} if c else {}
def p_add(a,b,k=1):
    if len(a)<len(b) and k==1: a,b=b,a
    r=dict(a)
    for m,c in b.items():
        v=r.get(m,0)+k*c
        if v: r[m]=v
        else: r.pop(m,None)
    return r
def m_mul(a,b):
    if not a: return b
    if not b: return a
    out=[]; i=j=0
    while i<len(a) and j<len(b):
        x,y=a[i],b[j]
        if x[0]==y[0]:
            out.append((x[0],x[1]+y[1])); i+=1; j+=1
        elif x[0]<y[0]: out.append(x); i+=1
        else: out.append(y); j+=1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)
def p_scale(a,c): return {m:v*c for m,v in a.items()} if c else {}

class NF:
    """frac = (num poly, den: dict polykey->exp) ; polykey is an index in self.factors."""
    def __init__(self, positive=(), known_pos=None):
        self.atoms=[]        # id -> description
        self.atom_by_key={}
        self.sq={}           # id -> frac: rule atom^2 = frac (polynomial den only)
        self.fn_atoms={}     # name -> list of (id, args fracs)
        self.factors=[]; self.factor_ix={}
        self.memo={}
        self.known_pos_cb=known_pos   # callback term-> bool
        self.pos_memo={}
        self.atom_term={}
        self.used_positivity=[]
    # --- atoms
    def atom(self,key,term=None):
        i=self.atom_by_key.get(key)
        if i is None:
            i=len(self.atoms); self.atoms.append(key); self.atom_by_key[key]=i
            if term is not None: self.atom_term[i]=term
        return i
    def a_poly(self,i): return {((i,1),):Fr(1)}
    # --- polys with sqrt reduction
    def p_mul(self,a,b):
        if len(a)*len(b)>4000000: raise TooBig()
        r={}
        red=False
        for m1,c1 in a.items():
            for m2,c2 in b.items():
                m=m_mul(m1,m2); v=r.get(m,0)+c1*c2
                if v: r[m]=v
                else: r.pop(m,None)
        if len(r)>MAXTERMS: raise TooBig()
        return self.p_reduce(r)
    def p_reduce(self,p):
        """apply atom^2 -> poly rules (rules have constant denominators)."""
        sq=self.sq
        if not sq: return p
        todo=[(m,c) for m,c in p.items() if any(e>=2 and i in sq for i,e in m)]
        if not todo: return p
        r={m:c for m,c in p.items()}
        for m,c in todo: del r[m]
        for m,c in todo:
            base=[]; extra=p_const(1)
            for i,e in m:
                if e>=2 and i in sq:
                    q=p_const(1)
                    for _ in range(e//2): q=self.p_mul(q,sq[i])
                    extra=self.p_mul(extra,q)
                    if e%2: base.append((i,1))
                else: base.append((i,e))
            t=self.p_mul({tuple(base):c},extra)
            r=p_add(r,t)
        return r
    def p_pow(self,a,n):
        r=p_const(1); b=a
        while n:
            if n&1: r=self.p_mul(r,b)
            n>>=1
            if n: b=self.p_mul(b,b)
        return r
    # --- factors (denominators)
    def factor(self,p):
        """returns (const, factor index) with p = const * factor; monic wrt canonical order."""
        lead=max(p,key=lambda m:(sum(e for _,e in m),m))
        c=p[lead]
        q=frozenset((m,v/c) for m,v in p.items())
        i=self.factor_ix.get(q)
        if i is None:
            i=len(self.factors); self.factors.append(dict(q)); self.factor_ix[q]=i
        return c,i
    def split_den(self,p):
        """p as const * product of factors; monomial content is split off."""
        out={}
        const=Fr(1)
        if len(p)==1:
            (m,c),=p.items(); const=c
            for i,e in m:
                _,f=self.factor(self.a_poly(i)); out[f]=out.get(f,0)+e
            return const,out
        common=None
        for m in p:
            d=dict(m)
            common=d if common is None else {i:min(e,d[i]) for i,e in common.items() if i in d}
            if not common: break
        if common:
            q={}
            for m,c in p.items():
                q[tuple((i,e-common.get(i,0)) for i,e in m if e-common.get(i,0))]=c
            for i,e in common.items():
                _,f=self.factor(self.a_poly(i)); out[f]=out.get(f,0)+e
            p=q
        c,f=self.factor(p); const*=c; out[f]=out.get(f,0)+1
        return const,out
    # --- fractions
    def f_const(self,c): return (p_const(c),{})
    def f_mul(self,a,b):
        n=self.p_mul(a[0],b[0]); d=dict(a[1])
        for f,e in b[1].items(): d[f]=d.get(f,0)+e
        return self.f_simp(n,d)
    def f_simp(self,n,d):
        if not n: return ({},{})
        d=dict(d)
        # cancel monomial factors and exact factor matches
        for f in list(d):
            fp=self.factors[f]
            if len(fp)==1:
                (m,_),=fp.items(); i=m[0][0]
                if i in self.sq: continue
                k=min((dict(mm).get(i,0) for mm in n),default=0)
                k=min(k,d[f])
                if k:
                    n={tuple((j,e-(k if j==i else 0)) for j,e in mm if j!=i or e-k):c for mm,c in n.items()}
                    d[f]-=k
                    if not d[f]: del d[f]
            elif len(n)<=400 and len(fp)<=60:
                while d.get(f,0)>0:
                    q=self.p_divexact(n,fp)
                    if q is None: break
                    n=q; d[f]-=1
                    if not d[f]: del d[f]
        return (n,d)
    def p_divexact(self,n,f):
        """exact polynomial division attempt (lex order); None when not divisible."""
        if any(i in self.sq for m in f for i,_ in m): return None
        ids={i for m in f for i,_ in m}
        nids=[{i for i,_ in m} for m in n]
        allids=set().union(*nids) if nids else set()
        if not ids<=allids: return None
        order=sorted(allids)
        def key(m):
            d=dict(m); return tuple(d.get(i,0) for i in order)
        lf=max(f,key=key); lc=f[lf]; ld=dict(lf)
        r=dict(n); q={}
        steps=0
        while r:
            steps+=1
            if steps>600: return None
            m=max(r,key=key); d=dict(m)
            t={}
            for i,e in ld.items():
                if d.get(i,0)<e: return None
            t=tuple((i,e-ld.get(i,0)) for i,e in m if e-ld.get(i,0))
            c=r[m]/lc
            q[t]=q.get(t,0)+c
            for fm,fc in f.items():
                mm=m_mul(t,fm); v=r.get(mm,0)-c*fc
                if v: r[mm]=v
                else: r.pop(mm,None)
        return q
    def f_add(self,a,b,k=1):
        if not a[0]: return (p_scale(b[0],Fr(k)),b[1])
        if not b[0]: return a
        if a[1]==b[1]: return self.f_simp(p_add(a[0],b[0],k),a[1])
        l=dict(a[1])
        for f,e in b[1].items(): l[f]=max(l.get(f,0),e)
        def up(n,d):
            for f,e in l.items():
                x=e-d.get(f,0)
                if x: n=self.p_mul(n,self.p_pow(self.factors[f],x))
            return n
        return self.f_simp(p_add(up(*a),up(*b),k),l)
    def f_inv(self,a):
        if not a[0]: raise ZeroDivisionError('division by a term that is identically zero')
        n=p_const(1)
        for f,e in a[1].items(): n=self.p_mul(n,self.p_pow(self.factors[f],e))
        num=a[0]
        # rationalise single sqrt atoms in the denominator: 1/(c*R*m) -> R/(c*m*R^2)
        if len(num)==1:
            (m,c),=num.items()
            mm=[]; 
            for i,e in m:
                if i in self.sq:
                    n=self.p_mul(n,self.a_poly(i))
                    cst,fs=self.split_den(self.sq[i])
                    r=self.f_inv_parts(cst,fs)
                    return self.f_mul(self.f_mul((n,{}),r),self.f_inv(({tuple((j,x) for j,x in m if j!=i):c},{})))
        c,fs=self.split_den(num)
        return self.f_simp(p_scale(n,1/c),fs)
    def f_inv_parts(self,c,fs): return (p_const(1/c),dict(fs))
    def f_pow(self,a,n):
        if n<0: return self.f_pow(self.f_inv(a),-n)
        r=(self.p_pow(a[0],n),{f:e*n for f,e in a[1].items()})
        return self.f_simp(*r)
    def f_eq(self,a,b):
        if a[1]==b[1]: return a[0]==b[0]
        return not self.f_add(a,b,-1)[0]
    # --- positivity
    def frac_term(self,p):
        """polynomial back to a term (for positivity queries)."""
        ts=[]
        for m,c in p.items():
            fs=[T.R(c)]
            for i,e in m:
                t=self.atom_term.get(i)
                if t is None: return None
                fs.append(T.power(t,e))
            ts.append(T.mul(*fs))
        return T.add(*ts) if ts else T.ZERO
    def is_pos(self,p):
        key=frozenset(p.items())
        r=self.pos_memo.get(key)
        if r is None:
            r=False
            if len(p)==1 and not next(iter(p)): r=next(iter(p.values()))>0
            elif self.known_pos_cb:
                t=self.frac_term(p)
                if t is not None: r=bool(self.known_pos_cb(t))
            self.pos_memo[key]=r
        return r
    # --- square roots
    def f_sqrt(self,a,term):
        n,d=a
        if not n: return ({},{})
        out=(p_const(1),{})
        # move known-positive denominators out; the rest goes to the radicand as 1/f -> f/f^2
        nd={}
        for f,e in d.items():
            fp=self.factors[f]
            pos=self.is_pos(fp)
            if pos or e%2==0:
                h=(e+1)//2
                if not pos:
                    # even power: sqrt(1/f^2k)=1/|f|^k
                    ab=self.abs_frac((fp,{}))
                    out=self.f_mul(out,self.f_pow(self.f_inv(ab),e//2))
                    continue
                if e%2: n=self.p_mul(n,fp)
                out=self.f_mul(out,(p_const(1),{f:h}))
            else:
                # sqrt(n/f) with sign of f unknown: since n/f>=0, n/f = n*f/f^2, sqrt = sqrt(n f)/|f|
                h=(e+1)//2
                n=self.p_mul(n,fp)
                out=self.f_mul(out,self.f_pow(self.f_inv(self.abs_frac((fp,{}))),h))
        # monomial content: even powers of atoms
        if n:
            common=None
            for m in n:
                dd=dict(m)
                common=dd if common is None else {i:min(e,dd[i]) for i,e in common.items() if i in dd}
                if not common: break
            for i,e in (common or {}).items():
                if i in self.sq: continue
                k=e//2
                if k:
                    n={tuple((j,x-(2*k if j==i else 0)) for j,x in m if not(j==i and x-2*k==0)):c for m,c in n.items()}
                    ap=self.a_poly(i)
                    ab=(ap,{}) if self.is_pos(ap) else self.abs_frac((ap,{}))
                    out=self.f_mul(out,self.f_pow(ab,k))
        # perfect square polynomial?
        s=self.p_sqrt(n)
        if s is not None:
            if self.is_pos(s) : return self.f_mul(out,(s,{}))
            return self.f_mul(out,self.abs_frac((s,{})))
        # positive constant content
        lead=max(n,key=lambda m:(sum(e for _,e in m),m))
        c=abs(n[lead])
        n={m:v/c for m,v in n.items()}
        out=self.f_mul(out,self.const_sqrt(c))
        if n==p_const(1): return out
        key=('sqrt',frozenset(n.items()))
        new=key not in self.atom_by_key
        i=self.atom(key,T.sqrt(self.frac_term(n)) if self.frac_term(n) is not None else None)
        if new: self.sq[i]=n
        return self.f_mul(out,(self.a_poly(i),{}))
    def const_sqrt(self,c):
        x=c.numerator*c.denominator; k=1; rest=1; p=2
        y=x
        while p*p<=y and p<2000:
            e=0
            while y%p==0: y//=p; e+=1
            k*=p**(e//2)
            if e%2: rest*=p
            p+=1
        r=math.isqrt(y)
        if r*r==y: k*=r
        else: rest*=y
        out=self.f_const(Fr(k,c.denominator))
        if rest!=1:
            key=('sqrt',frozenset(p_const(rest).items()))
            new=key not in self.atom_by_key
            i=self.atom(key,T.sqrt(T.R(rest)))
            if new: self.sq[i]=p_const(rest)
            out=self.f_mul(out,(self.a_poly(i),{}))
        return out
    def p_sqrt(self,n):
        """square root of a polynomial that is a perfect square, else None."""
        if not n or len(n)>300: return None
        if any(i in self.sq for m in n for i,_ in m): return None
        ids=sorted({i for m in n for i,_ in m})
        if not ids:
            c=n[()]
            if c<0: return None
            a,b=math.isqrt(c.numerator),math.isqrt(c.denominator)
            return p_const(Fr(a,b)) if a*a==c.numerator and b*b==c.denominator else None
        def key(m):
            d=dict(m); return tuple(d.get(i,0) for i in ids)
        r=dict(n); s={}
        lm=max(r,key=key); c=r[lm]
        if c<0 or any(e%2 for _,e in lm): return None
        a,b=math.isqrt(c.numerator),math.isqrt(c.denominator)
        if a*a!=c.numerator or b*b!=c.denominator: return None
        lead=tuple((i,e//2) for i,e in lm); lc=Fr(a,b)
        s={lead:lc}
        r=p_add(r,self.p_mul(s,s),-1)
        ld=dict(lead); steps=0
        while r:
            steps+=1
            if steps>60: return None
            m=max(r,key=key); d=dict(m)
            if any(d.get(i,0)<e for i,e in ld.items()): return None
            t=tuple((i,e-ld.get(i,0)) for i,e in m if e-ld.get(i,0))
            if key(t)>=key(lead): return None
            tc=r[m]/(2*lc)
            tp={t:tc}
            r=p_add(r,p_scale(self.p_mul(s,tp),2),-1)
            r=p_add(r,self.p_mul(tp,tp),-1)
            s=p_add(s,tp)
        return s
    def abs_frac(self,a):
        n,d=a
        if not n: return a
        if not d and self.is_pos(n): return a
        lead=max(n,key=lambda m:(sum(e for _,e in m),m)); c=n[lead]
        n2={m:v/c for m,v in n.items()}
        out=self.f_const(abs(c))
        if n2!=p_const(1):
            if self.is_pos(n2): out=self.f_mul(out,(n2,{}))
            elif len(n2)==1 and all(e%2==0 or (i in self.sq) for i,e in next(iter(n2))):
                out=self.f_mul(out,(n2,{}))
            else:
                key=('abs',frozenset(n2.items()))
                new=key not in self.atom_by_key
                ft=self.frac_term(n2)
                i=self.atom(key,T.fun('fabs',ft) if ft is not None else None)
                if new: self.sq[i]=self.p_mul(n2,n2)
                out=self.f_mul(out,(self.a_poly(i),{}))
        for f,e in d.items():
            fp=self.factors[f]
            if e%2==0 or self.is_pos(fp): out=self.f_mul(out,(p_const(1),{f:e}))
            else: out=self.f_mul(out,self.f_inv(self.f_pow(self.abs_frac((fp,{})),e)))
        return out
    # --- trigonometry
    def trig(self,which,t):
        """cos/sin of a term; integer multiples and sums are expanded; atan2 is eliminated."""
        c,s=self.cossin(t)
        return c if which=='cos' else s
    def cossin(self,t):
        one=self.f_const(1); zero=({},{})
        if t.op=='add':
            c,s=one,zero
            for u in t.args:
                c2,s2=self.cossin(u)
                c,s=self.f_add(self.f_mul(c,c2),self.f_mul(s,s2),-1),self.f_add(self.f_mul(s,c2),self.f_mul(c,s2))
            return c,s
        k=Fr(1); base=t
        if t.op=='mul' and t.args[0].op=='c':
            k=T.cv(t.args[0]); base=T.mul(*t.args[1:]) if len(t.args)>2 else t.args[1]
        elif t.op=='c':
            if T.cv(t)==0: return one,zero
            base=T.ONE; k=T.cv(t)
        if base is T.PI and (2*k).denominator==1:
            q=int(2*k)%4
            return [(one,zero),(zero,one),(self.f_const(-1),zero),(zero,self.f_const(-1))][q]
        if base is T.PI and (4*k).denominator==1:
            r=self.f_mul(self.const_sqrt(Fr(2)),self.f_const(Fr(1,2)))
            q=int(4*k)%8
            sg={1:(1,1),3:(-1,1),5:(-1,-1),7:(1,-1)}[q]
            return self.f_mul(r,self.f_const(sg[0])),self.f_mul(r,self.f_const(sg[1]))
        n=k.numerator; den=k.denominator
        if base.op=='f' and base.args[0]=='atan2' and den==1:
            y,x=self.conv(base.args[1]),self.conv(base.args[2])
            r=self.conv(T.sqrt(T.add(T.power(base.args[1],2),T.power(base.args[2],2))))
            ir=self.f_inv(r)
            c,s=self.f_mul(x,ir),self.f_mul(y,ir)
        else:
            if den!=1: base=T.mul(T.R(Fr(1,den)),base)
            arg=self.conv(base)
            ic=self.fn_atom('cos',(arg,),T.fun('cos',base)); is_=self.fn_atom('sin',(arg,),T.fun('sin',base))
            c,s=(self.a_poly(ic),{}),(self.a_poly(is_),{})
            if is_ not in self.sq: self.sq[is_]=p_add(p_const(1),{((ic,2),):Fr(1)},-1)
        neg=n<0; n=abs(n)
        C,S=one,zero
        for _ in range(n):
            C,S=self.f_add(self.f_mul(C,c),self.f_mul(S,s),-1),self.f_add(self.f_mul(S,c),self.f_mul(C,s))
        if neg: S=self.f_mul(S,self.f_const(-1))
        return C,S
    def fn_atom(self,name,fracs,term):
        lst=self.fn_atoms.setdefault(name,[])
        for i,fr in lst:
            if len(fr)==len(fracs) and all(self.f_eq(a,b) if isinstance(a,tuple) else a==b for a,b in zip(fr,fracs)): return i
        i=self.atom(('fn',name,len(lst)),term)
        lst.append((i,fracs))
        return i
    # --- conversion
    def conv(self,t):
        r=self.memo.get(t)
        if r is not None: return r
        o=t.op
        if o=='c': r=self.f_const(T.cv(t))
        elif o=='add':
            # group equal denominators first
            r=({},{})
            parts=[self.conv(u) for u in t.args]
            groups={}
            for n,d in parts:
                k=frozenset(d.items())
                groups[k]=(p_add(groups[k][0],n),d) if k in groups else (n,d)
            for k,(n,d) in groups.items(): r=self.f_add(r,self.f_simp(n,d))
        elif o=='mul':
            r=self.f_const(1)
            for u in t.args: r=self.f_mul(r,self.conv(u))
        elif o=='pow': r=self.f_pow(self.conv(t.args[0]),t.args[1])
        elif o=='f' and t.args[0]=='sqrt': r=self.f_sqrt(self.conv(t.args[1]),t)
        elif o=='f' and t.args[0]=='fabs': r=self.abs_frac(self.conv(t.args[1]))
        elif o=='f' and t.args[0] in('sin','cos'): r=self.trig(t.args[0],t.args[1])
        elif o=='f':
            fr=tuple(self.conv(T.R(u)) for u in t.args[1:])
            r=(self.a_poly(self.fn_atom(t.args[0],fr,t)),{})
        elif o=='sel':
            off=self.conv(T.itor(t.args[1]))
            r=(self.a_poly(self.fn_atom('sel:'+str(t.args[0]),(off,),t)),{})
        elif o in('var','pi'): r=(self.a_poly(self.atom(t,t)),{})
        elif o=='itor':
            u=t.args[0]
            if u.op in('add','mul','pow'):
                r=self.conv(T.rebuild_real(u))
            else: r=(self.a_poly(self.atom(u,t)),{})
        elif o in('ite','Sum'): r=(self.a_poly(self.atom(t,t)),{})
        else: raise NotImplementedError('nf '+o)
        self.memo[t]=r
        return r
    def is_zero(self,t): return not self.conv(t)[0]
