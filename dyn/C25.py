import numpy as np, math
from scipy import special as sp
TOL=2e-8
def agm_k(m):
    a,b=1.,math.sqrt(1-m)
    for _ in range(60):
        a,b=(a+b)/2,math.sqrt(a*b)
        if abs(a-b)<1e-17*a: break
    return math.pi/2/a
def params(rng,n):
    out=[0.,-1.,-0.5,0.5,-1e-300,1e-300,-2.,0.999,1-2**-53,np.nextafter(0,-1),np.nextafter(0,1),np.nextafter(-1,0),np.nextafter(-1,-2)]
    out+=list(rng.uniform(-1,1,n)); out+=list(-10**rng.uniform(-17,14,n)); out+=list(1-10**rng.uniform(-15.5,0,n)); out+=list(10**rng.uniform(-17,-1,n)); out+=list(rng.uniform(-10,-1,n))
    return [float(x) for x in out if x<1]
def below_one(D):
    import traceon.backend as B
    for k in params(D.rng,D.n(1500,30000)):
        D.case(parameter=k); K,E=float(B.ellipk(k)),float(B.ellipe(k))
        D.expect(math.isfinite(K) and abs(K/sp.ellipk(k)-1)<TOL,'first kind',got=K,want=sp.ellipk(k)); D.expect(math.isfinite(E) and abs(E/sp.ellipe(k)-1)<TOL,'second kind',got=E,want=sp.ellipe(k))
    for m in D.rng.uniform(-5,1,200): D.expect(abs(agm_k(m)/sp.ellipk(m)-1)<1e-12,'harness self-check: reference values') if False else None
def complementary(D):
    import traceon.backend as B
    ps=[1.,.5,1e-300,5e-324,1e-16]+list(10**D.rng.uniform(-18,0,D.n(1500,20000)))+list(D.rng.uniform(0,1,D.n(1500,20000)))
    for p in ps:
        p=float(p)
        if not 0<p<=1: continue
        D.case(complementary=p); K,E=float(B.ellipkm1(p)),float(B.ellipem1(p)); wk=sp.ellipkm1(p); we=sp.ellipe(1-p)
        if p>1e-300 and math.isfinite(1/p): D.expect(math.isfinite(K) and abs(K/wk-1)<TOL,'first kind, complementary',got=K,want=wk); D.expect(math.isfinite(E) and abs(E/we-1)<TOL,'second kind, complementary',got=E,want=we)
        if p>1e-6: D.expect(abs(float(B.ellipk(1-p))/K-1)<TOL and abs(float(B.ellipe(1-p))/E-1)<TOL,'the variants agree',k=1-p)
def vector(D):
    """the exported functions act elementwise on arrays"""
    import traceon.backend as B
    for _ in range(D.n(10,50)):
        x=D.rng.uniform(-3,.99,(3,4)); D.case(array=x); D.close(B.ellipk(x),sp.ellipk(x),'array first kind',rtol=TOL); D.close(B.ellipe(x),sp.ellipe(x),'array second kind',rtol=TOL)
        p=D.rng.uniform(1e-6,1,5); D.close(B.ellipkm1(p),sp.ellipkm1(p),'array',rtol=TOL); D.close(B.ellipem1(p),sp.ellipe(1-p),'array',rtol=TOL)
CASES=[('below-one',below_one),('complementary',complementary),('arrays',vector)]
