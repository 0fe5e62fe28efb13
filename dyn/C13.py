import numpy as np, math
from . import lib as L, tr as R
def run(D):
    import traceon.solver as S
    rng=D.rng
    for k in range(D.n(80,800)):
        kind=('radial','3d')[k%2]; f,F,data=R.make(rng,kind,scale=1.); m=k//2%5
        fb=np.array([[-rng.uniform(.02,.1),rng.uniform(.02,.1)] for _ in range(3)])
        ax=int(rng.integers(0,3))
        if m==1: fb[:]=[-5.,5.]; fb[ax]=[rng.uniform(-.05,0),rng.uniform(.02,.1)]           # only one direction restricts
        if m==2: fb=np.array([[-1,1],[-1,1],[-1,1]]); fb[ax]=[0,1] if rng.random()<.5 else [-1,0]   # integers
        if m==3: fb[:]=[-5.,5.]; fb[ax]=[-5.,rng.uniform(-.05,.05)]
        if m==4: fb=[[float(q) for q in r] for r in fb]; 
        arg=fb if not isinstance(fb,np.ndarray) or rng.random()<.5 else fb.tolist()
        if m==2 and rng.random()<.5: arg=np.asfortranarray(fb)
        if m!=2 and rng.random()<.3: arg=np.array(fb,dtype=np.float64,order='F')
        f.set_bounds(arg); fb=np.array(fb,float); p=np.array([rng.uniform(-.08,.08) for _ in range(3)]); _,v=R.start(rng,kind,data)
        if rng.random()<.3: p[:2]*=.01
        if m==2 and rng.random()<.5: p[ax]=0.
        D.case(kind=kind,field_bounds=fb,given_as=type(arg).__name__+' '+str(getattr(arg,'dtype','')),position=p,velocity=v)
        def G(q):
            if all(fb[i][0]<q[i]<fb[i][1] for i in range(3)): return F(q)
            return np.zeros(3),np.zeros(3)
        b=np.array([[-.16,.16]]*2+[[-.2,.2]]); atol=1e-3 if m==4 else 1e-8; q=R.trace(D,f,G,b,p,v,atol=atol)
        if q is None: continue
        t,y=q
        ins=np.all((fb[:,0]<y[:,:3])&(y[:,:3]<fb[:,1]),axis=1); ids=[i for i in range(len(t)-1) if True]
        pick=sorted(set([0,len(t)-2]+[i for i in range(len(t)-1) if ins[i]!=ins[i+1]]+list(map(int,rng.integers(0,len(t)-1,size=5)))))
        for i in pick[:14]:
            i=int(i)
            # stage points close to a bound can fall on either side in rounding: skip those
            h=t[i+1]-t[i]; st=[]; ks=[]; yy=y[i]
            for s in range(6):
                q=yy+sum((c*w for c,w in zip(R.B_[s],ks)),np.zeros(6)); st.append(q[:3]); ks.append(h*np.concatenate([q[3:],R.accel(G,q)]))
            st=np.array(st); d=np.abs(st[:,:,None]-fb[None]).min()
            if d<1e-12 and not (m==2 and np.any(st[0]==0)): continue
            if d<1e-12 and np.abs(st[1:,:,None]-fb[None]).min()<1e-12: continue
            R.check_step(D,G,y[i],y[i+1],h,t[i],atol,'bounded field')
            if not any(all(fb[j][0]<q[j]<fb[j][1] for j in range(3)) for q in st): D.expect(np.array_equal(y[i,3:],y[i+1,3:]),'exactly zero field outside the bounds',step=i,got=y[i+1,3:],want=y[i,3:])
def same(D):
    """bounds containing the whole trajectory change nothing; f without bounds is unrestricted"""
    rng=D.rng
    for k in range(D.n(20,200)):
        kind=('radial','3d')[k%2]; f,F,data=R.make(rng,kind); p,v=R.start(rng,kind,data); b=np.array([[-.16,.16]]*2+[[-.2,.2]]); D.case(kind=kind,position=p,velocity=v); q=R.trace(D,f,F,b,p,v)
        if q is None: continue
        t,y=q
        f.set_bounds(np.array([[-1,1],[-2,2],[-1,1]]) if k%4<2 else [[-1.,1.]]*3); q=R.trace(D,f,F,b,p,v); D.expect(q is not None,'tracing ends'); t2,y2=q; D.expect(np.array_equal(t,t2) and np.array_equal(y,y2),'bounds around the whole trajectory leave it unchanged')
        f.set_bounds([[1.,2.],[1.,2.],[1.,2.]]); t3,y3=R.trace(D,f,lambda q:(np.zeros(3),np.zeros(3)),b,p,v); D.expect(np.all(y3[:,3:]==y3[0,3:]),'no force when the trajectory lies outside the bounds')
CASES=[('bounded-trajectories',run),('containing-bounds',same)]
