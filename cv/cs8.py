"""Complete elliptic integrals (C25): the code's approximations against the defining series."""
from fractions import Fraction as Fr
import math
from .cs import *
from .cs import Run, _once, ELL
from . import term as T
from .nf import NF
import mpmath
BITS=220; ULP=Fr(1,2**BITS); GOAL=Fr(1,10**8); ALARM=Fr(2,10**8)
def rd(x): return Fr(math.floor(x*2**BITS+Fr(1,2)),2**BITS)
def const(f):
    with mpmath.workdps(90): x=f(); return rd(Fr(int(mpmath.floor(x*mpmath.mpf(2)**280)),2**280))
LN2=const(lambda:mpmath.log(2)); PI=const(lambda:+mpmath.pi)
def mono(*a): return [Fr(x) for x in a]
def padd(a,b,k=1):
    n=max(len(a),len(b)); return [(a[i] if i<len(a) else 0)+k*(b[i] if i<len(b) else 0) for i in range(n)]
def pmul(a,b):
    r=[Fr(0)]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        if x:
            for j,y in enumerate(b): r[i+j]+=x*y
    return [rd(x) for x in r]
def shift(p,c):
    """coefficients of p(c+t)"""
    q=list(p); n=len(q)
    for i in range(n-1):
        for j in range(n-2,i-1,-1): q[j]+=c*q[j+1]
    return q
def bound(p,lo,hi,pieces):
    """upper bound of |p| on [lo,hi]; the arguments are exact rationals"""
    w=(hi-lo)/pieces; best=Fr(0)
    for k in range(pieces):
        h=w/2; q=shift(p,lo+w*k+h); s=Fr(0); z=Fr(1)
        for x in q: s+=abs(x)*z; z*=h
        best=max(best,s)
    return best
N=90
def series():
    a=Fr(1); d=2*LN2; A=[]; DD=[]
    for n in range(N): A.append(a); DD.append(d); a=a*Fr(2*n+1,2*n+2); d=d-Fr(2,(2*n+1)*(2*n+2))
    K=[rd(x*x) for x in A]; Kd=[rd(x*x*y) for x,y in zip(A,DD)]   # K = sum K_n p^n (L/2) + Kd_n p^n,  L=ln(1/p)   (DLMF 19.12.1)
    e=Fr(1,2); E=[Fr(0)]; Ed=[Fr(1)]                                # E = 1 + 1/2 sum (1/2)_n(3/2)_n/((2)_n n!) p^(n+1) (L/2 + d(n) - 1/((2n+1)(2n+2)))  (DLMF 19.12.2)
    for n in range(N-1): E.append(rd(e)); Ed.append(rd(e*(DD[n]-Fr(1,(2*n+1)*(2*n+2))))); e=e*(Fr(1,2)+n)*(Fr(3,2)+n)/((2+n)*(1+n))
    M=[rd(PI/2*x*x) for x in A]                                     # K = pi/2 sum a_n^2 m^n,  E = pi/2 sum a_n^2 m^n/(1-2n)   (DLMF 19.5.1, 19.5.2)
    return {'K':(K,Kd,M),'E':(E,Ed,[rd(x/(1-2*n)) for n,x in enumerate(M)])}
def extract(ret,p):
    """ret as polynomials (P,Q) with ret = P(p) + L Q(p), L = ln(1/p)"""
    L=T.var('L'); sub={}
    for u in T.walk([ret]):
        if u.op=='f' and u.args[0]=='log':
            v=u.args[1]; n,d=NF().conv(T.sub(T.mul(v,p),T.R(1)))
            if not n: sub[u]=L
            elif v is p: sub[u]=T.neg(L)
            elif T.isc(v) and T.cv(v)>0 and Fr(T.cv(v)).denominator==1 and (int(T.cv(v))&(int(T.cv(v))-1))==0: sub[u]=T.mul(T.R(int(T.cv(v)).bit_length()-1),T.var('LN2'))
            elif T.isc(v) and T.cv(v)>0: sub[u]=T.R(const(lambda:mpmath.log(mpmath.mpf(Fr(T.cv(v)).numerator)/Fr(T.cv(v)).denominator)))
            else: raise Unsupported('logarithm of '+T.show(v,4))
    t=T.subst(T.subst(ret,sub),{T.var('LN2'):T.R(LN2),T.PI:T.R(PI)}); nf=NF(); n,d=nf.conv(t)
    if d: raise Unsupported('not a polynomial in p and log(1/p)')
    ip,il=nf.atom(p,p),nf.atom(L,L); P,Q={},{}
    for m,c in n.items():
        e=dict(m)
        if set(e)-{ip,il} or e.get(il,0)>1: raise Unsupported('not of the form P(p) + log(1/p) Q(p)')
        (Q if e.get(il,0) else P)[e.get(ip,0)]=c
    lst=lambda x:[x.get(i,Fr(0)) for i in range(max(x,default=0)+1)]
    return lst(P),lst(Q)
SLACK=Fr(1,10**22)   # truncated series (all |coefficients| <= 2, p<=1/2, 90 terms) and rounding of coefficients to 2^-220
def err_small(P,Q,S,Sd,p0):
    """|P+LQ - exact| on (0,p0], with L p <= L0 p0 there (p0 <= 1/e) and L <= nothing at p=0 unless the p^0 coefficients agree"""
    al=padd(P,Sd,-1); be=padd(Q,[x/2 for x in S],-1)
    if be and abs(be[0])>SLACK: return None
    L0=Fr(math.ceil(math.log(1/p0)*2**20),2**20)*1+Fr(1,2**18)
    b=Fr(0); z=Fr(1)
    for i,x in enumerate(al): b+=abs(x)*p0**i
    for i,x in enumerate(be[1:]): b+=abs(x)*p0**(i+1)*L0
    return b
def err_octave(P,Q,S,Sd,k,pieces):
    """on p in [2^-(k+1),2^-k]: p=c(1+u), |u|<=1/3, ln(1/p) = -ln c - ln(1+u)"""
    c=Fr(3,2**(k+2)); lnc=const(lambda:mpmath.log(mpmath.mpf(c.numerator)/c.denominator))
    L=[-lnc]+[rd(Fr((-1)**n,n)) for n in range(1,61)]
    al=padd(P,Sd,-1); be=padd(Q,[x/2 for x in S],-1)
    sc=lambda f:[x*c**i for i,x in enumerate(f)]
    # polynomials in v=1+u of degree N; rewritten in u by an exact shift
    fu=padd(shift(sc(al),Fr(1)),pmul(shift(sc(be),Fr(1)),L))
    return bound([rd(x) for x in fu],-Fr(1,3),Fr(1,3),pieces)
def err_upper(P,Q,M,pieces):
    """on p in [1/2,1]: m=1-p, ln(1/p) = sum m^n/n"""
    L=[Fr(0)]+[rd(Fr(1,n)) for n in range(1,N)]
    r=lambda f:[x*(-1)**i for i,x in enumerate(shift(f,Fr(1)))]
    return bound(padd(padd(r(P),pmul(r(Q),L)),M,-1),Fr(0),Fr(1,2),pieces)
def num(P,Q,p):
    with mpmath.workdps(40):
        x=mpmath.mpf(p.numerator)/p.denominator; f=lambda c:sum((mpmath.mpf(a.numerator)/a.denominator)*x**i for i,a in enumerate(c)); return f(P)-mpmath.log(x)*f(Q)
def v_km1(ctx):
    S=series()
    ctx.trust('series of K and E about m=0 and m=1 (DLMF 19.5.1, 19.5.2, 19.12.1, 19.12.2), K >= pi/2, E >= 1')
    for f,which,low in(('ellipkm1','K',PI/2),('ellipem1','E',Fr(1))):
        def go():
            R=Run(ctx); R.eng.contracts.pop(f,None); p=T.var('p'); pre=[T.lt(T.ZERO,p),T.le(p,T.R(1))]; R.assume(*pre); ctx.vacuity(f,pre)
            ps=list(R.run(f,p))
            if len(ps)!=1: raise Unsupported('more than one path')
            for x in ps:
                ctx.vcs(f,R.eng); P,Q=extract(T.R(x.ret),p); s,sd,M=S[which]
                regions=[('0 < p <= 2^-6',lambda:err_small(P,Q,s,sd,Fr(1,64)))]+[('2^-%d <= p <= 2^-%d'%(k+1,k),(lambda k=k:err_octave(P,Q,s,sd,k,24))) for k in range(5,0,-1)]+[('1/2 <= p <= 1',lambda:err_upper(P,Q,M,24))]
                for name,g in regions:
                    import time; t=time.time(); b=g(); nm='%s: relative error below 1e-8 for %s'%(f,name)
                    if b is not None and (b+SLACK)/low<=GOAL: ctx.rec(nm,'proved','exact rational Taylor bounds','bound %.2e'%float((b+SLACK)/low),time.time()-t); continue
                    if any(k in name for k in('2^-6',)): pts=[Fr(1,2**i) for i in range(6,200)]
                    elif name.startswith('1/2'): pts=[Fr(1,2)+Fr(i,400) for i in range(201)]
                    else: k=int(name.split('2^-')[2]); pts=[Fr(1,2**(k+1))*(1+Fr(i,100)) for i in range(101)]
                    w=None
                    for q in pts:
                        with mpmath.workdps(40):
                            pp=mpmath.mpf(q.numerator)/q.denominator; ex=mpmath.ellipk(1-pp) if which=='K' else mpmath.ellipe(1-pp); er=abs(num(P,Q,q)/ex-1)
                        if er>float(ALARM) and (w is None or er>w[1]): w=(q,er)
                    ctx.rec(nm,'refuted' if w else 'unknown','numeric witness' if w else 'exact rational Taylor bounds','p=%s relative error %s'%(float(w[0]),mpmath.nstr(w[1],5)) if w else 'bound %s'%(None if b is None else float(b/low)),time.time()-t)
        ctx.attempt(f,go)
def v_k(ctx):
    """ellipk(k), ellipe(k) for every k<1 call the complementary forms inside (0,1] and apply the imaginary-modulus transformation"""
    ctx.trust('imaginary-modulus transformation K(-n) = K(n/(1+n))/sqrt(1+n), E(-n) = sqrt(1+n) E(n/(1+n)) (DLMF 19.7.2)')
    for f,g,h in(('ellipk','ellipkm1',K1),('ellipe','ellipem1',E1)):
        def go():
            k=T.var('k')
            for case,pre in(('0 <= k < 1',[T.le(T.ZERO,k),T.lt(k,T.R(1))]),('k < 0',[T.lt(k,T.ZERO)])):
                def c(e,st,a,gg):
                    p=T.R(a[0]); e.vc(st,'argument of %s in (0,1]'%gg,T.band(T.lt(T.ZERO,p),T.le(p,T.R(1))),case); return (K1 if gg=='ellipkm1' else E1)(p)
                R=Run(ctx,own={n:(lambda e,st,a,n=n:c(e,st,a,n)) for n in('ellipkm1','ellipem1')}); R.eng.contracts.pop(f,None); R.assume(*pre); ctx.vacuity('%s %s'%(f,case),pre); one=T.sub(T.R(1),k); n=0
                for x in R.run(f,k):
                    n+=1; ctx.vcs('%s, %s'%(f,case),R.eng)
                    want=h(one) if case[0]=='0' else (T.div(h(T.power(one,-1)),T.sqrt(one)) if f=='ellipk' else T.mul(h(T.power(one,-1)),T.sqrt(one)))
                    ctx.zero('%s: %s'%(f,'complementary parameter 1-k' if case[0]=='0' else 'imaginary-modulus transformation for k<0'),T.sub(T.R(x.ret),want),x.pc)
                ctx.check('%s returns for %s'%(f,case),n>0,'no path')
        ctx.attempt(f,go)
