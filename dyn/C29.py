import numpy as np, math
from . import lib as L
def dist_tri(t,p):
    n=L.tri_normal(t); d=np.dot(p-t[0],n); q=p-d*n
    if all(np.dot(np.cross(t[(i+1)%3]-t[i],q-t[i]),n)>=0 for i in range(3)): return abs(d)
    return min(np.linalg.norm(p-t[i]-min(1,max(0,np.dot(p-t[i],t[(i+1)%3]-t[i])/np.dot(t[(i+1)%3]-t[i],t[(i+1)%3]-t[i])))*(t[(i+1)%3]-t[i])) for i in range(3))
def target(rng,t,s):
    k=int(rng.integers(8)); n=L.tri_normal(t); c=t.mean(0)
    if k==0: return c+n*s*rng.choice([-1,1])*10**rng.uniform(-2,1)
    if k==1: a=rng.uniform(-3,3,2); return t[0]+a[0]*(t[1]-t[0])+a[1]*(t[2]-t[0])                    # in the plane
    if k==2: i=int(rng.integers(3)); return t[i]+rng.choice([-1,1])*rng.uniform(1.2,4)*(t[(i+1)%3]-t[i])  # on the line through an edge
    if k==3: i=int(rng.integers(3)); return t[i]+rng.uniform(-2,3)*(t[(i+1)%3]-t[i])+n*s*rng.uniform(-1,1)
    if k==4: return c+rng.normal(size=3)*s*30
    if k==5: i=int(rng.integers(3)); return t[i]+n*s*rng.uniform(.05,2)*rng.choice([-1,1])
    return c+rng.normal(size=3)*s*10**rng.uniform(-1,.7)
def setup(rng,D):
    s=float(rng.choice([1.,1.,1.,10**rng.uniform(-2,2)])); t=L.rand_tri(rng,s,minq=.08)
    if rng.random()<.2: t=np.round(t*4/s)*s/4
    if rng.random()<.15: t[:,int(rng.integers(3))]=s*rng.normal()
    if L.tri_area(t)<.02*s*s: return None
    p=target(rng,t,s); d=dist_tri(t,p)
    return (s,t,p,d) if d>.01*s else None
def pot(D):
    import traceon.backend as B
    rng=D.rng; n=0
    while n<D.n(2500,40000):
        q=setup(rng,D)
        if q is None: continue
        n+=1; s,t,p,d=q; D.case(triangle=t,target=p); w=L.tri_pot(t,p); g=B.potential_triangle(t[0],t[1],t[2],p); tol=1e-6*w+3e-8
        D.expect(abs(g-w)<=tol,'potential of the triangle',got=g,want=w)
        o=rng.permutation(3); D.expect(abs(B.potential_triangle(t[o[0]],t[o[1]],t[o[2]],p)-w)<=tol,'invariant under relabelling the vertices',order=o)
        R=L.rand_rot(rng); sh=s*rng.normal(size=3); u=t@R.T+sh; D.expect(abs(B.potential_triangle(u[0].copy(),u[1].copy(),u[2].copy(),R@p+sh)-w)<=tol,'invariant under rigid motions')
def flux(D):
    import traceon.backend as B
    rng=D.rng; n=0
    while n<D.n(2500,40000):
        q=setup(rng,D)
        if q is None: continue
        n+=1; s,t,p,d=q; nn=rng.normal(size=3); nn/=np.linalg.norm(nn)
        if rng.random()<.2: nn=np.eye(3)[rng.integers(3)]
        D.case(triangle=t,target=p,normal=nn); E=L.tri_field(t,p); w=float(E@nn); tol=1e-6*np.linalg.norm(E)+3e-8; g=B.flux_triangle(t[0],t[1],t[2],p,nn)
        D.expect(abs(g-w)<=tol,'flux of the triangle',got=g,want=w)
        o=rng.permutation(3); D.expect(abs(B.flux_triangle(t[o[0]],t[o[1]],t[o[2]],p,nn)-w)<=tol,'invariant under relabelling the vertices',order=o)
        R=L.rand_rot(rng); sh=s*rng.normal(size=3); u=t@R.T+sh; D.expect(abs(B.flux_triangle(u[0].copy(),u[1].copy(),u[2].copy(),R@p+sh,R@nn)-w)<=tol,'invariant under rigid motions')
def on_triangle(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(600,8000)):
        s=10**rng.uniform(-2,2); t=L.rand_tri(rng,s,minq=.15)
        a=rng.dirichlet([2,2,2]); k=int(rng.integers(3)); p=a@t if k else t.mean(0)
        D.case(triangle=t,target=p); w=L.tri_pot(t,p)
        if min(a)<.02: continue
        D.expect(abs(B.self_potential_triangle(t[0],t[1],t[2],p)-w)<=1e-6*w,'potential at a point of the triangle itself',got=B.self_potential_triangle(t[0],t[1],t[2],p),want=w)
        D.expect(abs(B.potential_triangle(t[0],t[1],t[2],p)-w)<=3e-4*w,'potential at a point of the triangle itself',got=B.potential_triangle(t[0],t[1],t[2],p),want=w)
CASES=[('potential',pot),('flux',flux),('on-triangle',on_triangle)]
