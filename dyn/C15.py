import numpy as np, math
def mk(rng,n,common=None,jit=0.):
    out=[]; lo=10.**(rng.uniform(-7,1) if common is not None else rng.choice([0,0,1])); s=10.**rng.integers(-3,2); z0=rng.normal()*s
    for _ in range(n):
        k=int(rng.integers(1,6)); sl=rng.normal(size=2)*10.**rng.uniform(-3,0)*lo; vz=rng.choice([-1,1])*rng.uniform(.2,2)*10.**rng.integers(0,7)
        if common is not None: dz=rng.uniform(-3,3)*s; p=np.array([common[0]+sl[0]*dz,common[1]+sl[1]*dz,common[2]+dz])+jit*rng.normal(size=3)
        else: p=rng.normal(size=3)*s
        last=np.concatenate([p,vz*np.array([sl[0],sl[1],1.])]); out.append(np.vstack([rng.normal(size=(k-1,6)),last[None]]))
    return out
def normal_eq(D,P,g,what):
    a=np.array([p[-1] for p in P]); sx,sy=a[:,3]/a[:,5],a[:,4]/a[:,5]
    rx=a[:,0]+sx*(g[2]-a[:,2])-g[0]; ry=a[:,1]+sy*(g[2]-a[:,2])-g[1]
    # exact minimiser in closed form
    cx,cy=a[:,0]-sx*a[:,2],a[:,1]-sy*a[:,2]
    vx,vy=sx-sx.mean(),sy-sy.mean(); den=np.sum(vx**2)+np.sum(vy**2)
    if den<1e-12*(np.sum(sx**2)+np.sum(sy**2)+1e-300): return
    z=-(np.sum(vx*(cx-cx.mean()))+np.sum(vy*(cy-cy.mean())))/den; w=np.array([cx.mean()+sx.mean()*z,cy.mean()+sy.mean()*z,z])
    amp=np.sqrt((np.sum(sx**2)+np.sum(sy**2)+len(a))/den); sc=(np.abs(a[:,:3]).max()+np.abs(w).max())*max(1,amp)
    D.close(g,w,what,rtol=1e-7,atol=1e-10*sc*max(1,amp))
    S=np.abs(cx).max()+np.abs(cy).max()+np.abs(w).max()
    D.expect(abs(np.mean(rx))<=1e-8*S and abs(np.mean(ry))<=1e-8*S,what+': x and y are the mean ray positions at z',got=g,means=(rx.mean(),ry.mean()))
    D.expect(abs(np.mean(rx*sx+ry*sy))<=1e-8*S*(np.abs(sx).max()+np.abs(sy).max()),what+': residuals average to zero against the slopes',got=g)
def lsq(D):
    import traceon.focus as F
    rng=D.rng
    for _ in range(D.n(400,4000)):
        P=mk(rng,int(rng.choice([2,3,5,12]))); D.case(last=[p[-1].tolist() for p in P],lengths=[len(p) for p in P]); Q=[p.copy() for p in P]
        g=np.asarray(F.focus_position(P)); D.expect(g.shape==(3,),'three numbers'); normal_eq(D,P,g,'focus minimises the mean squared deviation')
        D.expect(all(np.array_equal(a,b) for a,b in zip(P,Q)),'trajectories not modified')
        P2=[P[i] for i in rng.permutation(len(P))]; normal_eq(D,P2,np.asarray(F.focus_position(P2)),'focus does not depend on the order')
def common(D):
    import traceon.focus as F
    rng=D.rng
    for k in range(D.n(300,3000)):
        c=rng.normal(size=3)*10.**rng.integers(-3,2); P=mk(rng,int(rng.choice([2,3,6])),c); D.case(point=c,last=[p[-1].tolist() for p in P])
        a=np.array([p[-1] for p in P]); s=a[:,3:5]/a[:,5:6]; sp=np.sqrt(((s-s.mean(0))**2).sum()); 
        if sp<1e-3*np.sqrt((s**2).sum()): continue
        D.close(F.focus_position(P),c,'rays through a common point meet there',rtol=1e-7,atol=1e-9*(np.abs(a[:,:3]).max()+np.abs(c).max())*max(1,1/sp))
CASES=[('least-squares',lsq),('common-point',common)]
