import numpy as np, math
from . import lib as L
def ref(Y,p0,n):
    """position on the last crossing segment, or None; also the segment"""
    k=(p0-Y[:,:3])@n
    for i in range(len(Y)-2,-1,-1):
        a,b=k[i]>0,k[i+1]>0
        if a!=b:
            f=k[i]/(k[i]-k[i+1]); return i,Y[i]+f*(Y[i+1]-Y[i])
    return None,None
def path(rng,N):
    kind=rng.integers(0,4)
    if kind==0: x=np.cumsum(rng.normal(size=(N,3)),axis=0)              # wanders, many crossings
    elif kind==1: x=np.outer(np.linspace(0,1,N),rng.normal(size=3)*4)+rng.normal(size=3)   # straight
    elif kind==2:                                                           # oscillating
        t=np.linspace(0,rng.uniform(1,20),N); x=np.stack([np.cos(t+rng.uniform(0,6)),np.sin(1.3*t),t-5],1)
    else: x=rng.integers(-3,4,size=(N,3))+rng.uniform(.01,.2)*rng.normal(size=(N,3))
    sc=10.**rng.integers(-3,3) if rng.random()<.3 else 1.
    return np.hstack([x*sc,rng.normal(size=(N,3))*10.**rng.integers(0,7)]),sc
def check(D,Y,p0,n,call,what):
    i,w=ref(Y,p0,n); Y0=Y.copy()
    if i is None:
        D.raises(lambda: call(Y),what+': no consecutive samples on opposite sides must be an error',exc=ValueError); return
    g=np.asarray(call(Y)); D.expect(np.array_equal(Y,Y0),'the trajectory is not modified')
    D.expect(g.shape==(6,) and np.all(np.isfinite(g)),what+': six finite numbers',got=g)
    d=np.abs(Y[i+1]-Y[i]); sc=d.max(); nn=np.linalg.norm(n)
    k=(p0-Y[[i,i+1],:3])@n/nn; dk=abs(k[0]-k[1]); cond=1e-12*(np.abs(Y[[i,i+1],:3]).max()+np.abs(p0).max())/dk
    D.expect(abs((g[:3]-p0)@n)/nn<=1e-9*(np.abs(Y[[i,i+1],:3]).max()+np.abs(p0).max()),what+': on the plane',got=g,plane_distance=(g[:3]-p0)@n/nn)
    D.expect(np.all(np.abs(g-w)<=(1e-9+cond)*(np.abs(w)+d)+1e-300),what+': on the last crossing segment',got=g,want=w,segment=(i,i+1),samples=Y[[i,i+1]])
def general(D):
    import traceon.tracing as T
    rng=D.rng
    for _ in range(D.n(600,8000)):
        N=int(rng.choice([2,2,3,5,20,200])); Y,sc=path(rng,N); p0=rng.normal(size=3)*sc if rng.random()<.7 else Y[rng.integers(0,N),:3]+rng.normal(size=3)*sc*.3
        n=rng.normal(size=3)*10.**rng.integers(-3,4) if rng.random()<.7 else rng.permutation([0.,0.,float(rng.choice([-1,1,2.5]))]); D.case(N=N,p0=p0,normal=n,first=Y[:3],last=Y[-3:])
        check(D,Y,p0,n,lambda y: T.plane_intersection(y,p0,n),'plane_intersection')
def axes(D):
    import traceon.tracing as T
    rng=D.rng
    for _ in range(D.n(300,4000)):
        N=int(rng.choice([2,3,5,20,200])); Y,sc=path(rng,N); a=int(rng.integers(0,3)); c=float(rng.normal()*sc) if rng.random()<.8 else 0.; D.case(N=N,axis='xyz'[a],at=c,first=Y[:3],last=Y[-3:])
        p0=np.zeros(3); p0[a]=c; n=np.zeros(3); n[a]=1.
        check(D,Y,p0,n,lambda y:[T.yz_plane_intersection,T.xz_plane_intersection,T.xy_plane_intersection][a](y,c),'intersection with a coordinate plane')
        p0=np.zeros(3); n=np.array([1.,0,0]); i,w=ref(Y,p0,n)
        if i is None: D.raises(lambda:T.axis_intersection(Y),'axis intersection without crossing',exc=ValueError)
        else: D.close(T.axis_intersection(Y),w[2],'axis intersection',rtol=1e-7,atol=1e-9*np.abs(Y[[i,i+1],:3]).max())
def layout(D):
    """views, Fortran order and integer coordinates"""
    import traceon.tracing as T
    rng=D.rng
    for _ in range(D.n(60,600)):
        N=30; Y,sc=path(rng,N); p0=rng.normal(size=3)*sc; n=rng.normal(size=3); D.case(N=N,p0=p0,normal=n,first=Y[:3],last=Y[-3:])
        for V in(np.asfortranarray(Y),np.repeat(Y,2,axis=0)[::2],Y[3:],Y[:-4],Y[::-1]): check(D,V,p0,n,lambda y:T.plane_intersection(y,p0,n),'view or other memory order')
def long(D):
    """many samples, few crossings anywhere along the trajectory"""
    import traceon.tracing as T
    rng=D.rng
    for _ in range(D.n(6,40)):
        N=int(rng.choice([1000,40000,100001,150000,250000])); a=int(rng.integers(0,3)); at=float(rng.uniform(.001,.6) if rng.random()<.7 else rng.uniform(.9,.9999))
        Y=rng.normal(size=(N,6)); Y[:,a]=np.where(np.arange(N)<at*N,-1.,1.)*rng.uniform(.5,2.,N); i=int(np.ceil(at*N))-1; D.case(N=N,axis='xyz'[a],crossing=i,samples=Y[i:i+2])
        f=Y[i,a]/(Y[i,a]-Y[i+1,a]); w=Y[i]+f*(Y[i+1]-Y[i])
        D.close([T.yz_plane_intersection,T.xz_plane_intersection,T.xy_plane_intersection][a](Y,0.),w,'the only crossing of a long trajectory',rtol=1e-9,atol=1e-9)
        n=np.zeros(3); n[a]=-2.; D.close(T.plane_intersection(Y,np.zeros(3),n),w,'the only crossing of a long trajectory (plane)',rtol=1e-9,atol=1e-9)
        if a==0: D.close(T.axis_intersection(Y),w[2],'axis intersection of a long trajectory',rtol=1e-9,atol=1e-9)
CASES=[('long',long),('general',general),('coordinate-planes',axes),('layout',layout)]
