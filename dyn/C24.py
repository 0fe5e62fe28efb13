import numpy as np, math
# Gauss 7 / Kronrod 15 rule (QUADPACK), nodes in [0,1] half
KX=[0.,0.20778495500789846760,0.40584515137739716691,0.58608723546769113029,0.74153118559939443986,0.86486442335976907279,0.94910791234275852453,0.99145537112081263921]
KW=[0.20948214108472782801,0.20443294007529889241,0.19035057806478540991,0.16900472663926790283,0.14065325971552591875,0.10479001032225018384,0.06309209262997855329,0.02293532201052922496]
GX=[0.,0.40584515137739716691,0.74153118559939443986,0.94910791234275852453]
GW=[0.41795918367346938776,0.38183005050511894495,0.27970539148927666790,0.12948496616886969327]
def ref(f,a,b,at,rt,maxp=2000):
    """panels over [a,b]; each accepted only within tolerance, otherwise halved. Returns value, panels and whether every acceptance decision was clear-cut."""
    res=0.;s=a;e=b;pan=[];clear=True;mag=0.
    for _ in range(maxp*4):
        if not s<b: break
        c=(s+e)/2;h=(e-s)/2
        fk=[f(c)]+[f(c-h*x)+f(c+h*x) for x in KX[1:]]; k=h*sum(w*v for w,v in zip(KW,fk)); fg=[f(c)]+[f(c-h*x)+f(c+h*x) for x in GX[1:]]; g=h*sum(w*v for w,v in zip(GW,fg))
        err=abs(k-g); lim=max(at,rt*abs(k)); m=h*sum(w*abs(v) for w,v in zip(KW,fk))
        if abs(err-lim)<=1e-6*lim+1e-12*m: clear=False
        if err<=lim: res+=k;mag+=m;pan.append((s,e));s=e;e=b
        else: e=c
    else: return None
    return res,mag,pan,clear
def funcs(rng):
    w=rng.normal(size=4); x0=rng.uniform(-1,1); s=10**rng.uniform(-3,0); A=10**rng.uniform(-8,8)
    L=[lambda x:A*math.exp(w[0]*x),lambda x:A*math.sin(10*w[0]*x+w[1]),lambda x:A*s/((x-x0)**2+s*s),lambda x:A*abs(x-x0),lambda x:A*math.exp(-((x-x0)/s)**2)+A*w[0],lambda x:A*math.log(1+w[1]**2+x*x),lambda x:A*(1. if x>x0 else -1.)*(x-x0)**2,lambda x:A*math.sqrt(abs(x-x0)+1e-3)]
    i=int(rng.integers(len(L))); return i,L[i],(list(map(float,w)),float(x0),float(s),float(A))
def general(D):
    import traceon.backend as B
    rng=D.rng; done=0
    for _ in range(D.n(1500,20000)):
        i,f,par=funcs(rng); a=rng.uniform(-2,2); b=a+10**rng.uniform(-3,1); tol=[(1e-9,1e-9),(1.49e-8,1.49e-8),(1e-300,1e-7),(1e-6*par[3],0.),(0.,1e-6),(1e-4*par[3],1e-4)][int(rng.integers(6))]
        R=ref(f,a,b,*tol,maxp=400)
        if R is None: continue
        D.case(function=i,parameters=par,a=a,b=b,tolerances=tol); want,mag,pan,clear=R; calls=[]
        def g(x): calls.append(x); return f(x)
        got=B.kronrod_adaptive(g,a,b,*tol); done+=1
        D.expect(min(calls)>=a-1e-12 and max(calls)<=b+1e-12*(1+abs(b)),'function is evaluated only inside the interval')
        # consecutive panels tile [a,b]: the value is the sum of their estimates
        if clear: D.expect(abs(got-want)<=1e-12*(mag+abs(want)),'value is the sum of the accepted panel estimates',got=got,want=want,panels=len(pan))
        else: D.expect(abs(got-want)<=4*len(pan)*(tol[0]+tol[1]*mag)+1e-12*mag,'value is within tolerance of the panel sum',got=got,want=want)
    D.expect(done>50,'enough integrals evaluated')
def default_tol(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(100,1000)):
        a=rng.uniform(-1,1); b=a+rng.uniform(.1,3); k=rng.uniform(.5,8); D.case(f='sin',k=k,a=a,b=b)
        D.expect(abs(B.kronrod_adaptive(lambda x: math.sin(k*x),a,b)-(math.cos(k*a)-math.cos(k*b))/k)<1e-6,'integral of sin')
    for a in(-1.,0.,2.5): D.case(a=a,b=a); D.expect(B.kronrod_adaptive(lambda x:1.+x,a,a)==0.,'an empty interval gives zero')
def poly(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(1500,20000)):
        d=int(rng.integers(0,14)); c=rng.normal(size=d+1); a=rng.uniform(-1.2,1.2); b=a+rng.uniform(.01,2); D.case(coefficients=c,a=a,b=b); calls=[]
        def f(x): calls.append(x); return float(np.polyval(c,x))
        got=B.kronrod_adaptive(f,a,b,1e-9,1e-9); P=np.polyint(c); w=np.polyval(P,b)-np.polyval(P,a); s=np.polyval(np.abs(P),max(abs(a),abs(b)))
        D.expect(abs(got-w)<=2e-13*s,'exact for polynomials up to degree 13',got=got,want=w); D.expect(len({round(x,12) for x in calls})==15,'one panel suffices',points=len(set(calls)))
    for _ in range(D.n(200,2000)):   # the Kronrod estimate itself is exact to degree 22
        d=int(rng.integers(14,23)); c=rng.normal(size=d+1); a=rng.uniform(-1,0); b=a+rng.uniform(.1,1.5); D.case(coefficients=c,a=a,b=b)
        P=np.polyint(c); w=np.polyval(P,b)-np.polyval(P,a); s=np.polyval(np.abs(P),max(abs(a),abs(b)))
        D.expect(abs(B.kronrod_adaptive(lambda x: float(np.polyval(c,x)),a,b,1e-9,1e-9)-w)<=1e-12*s,'polynomials up to degree 22',want=w)
CASES=[('panels',general),('default-tolerance',default_tol),('polynomials',poly)]
