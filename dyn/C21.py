import numpy as np, math
from . import lib as L
from .C19 import rand_path
def disc(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(500,6000)):
        Ln=rng.uniform(.1,20); bs=sorted(map(float,rng.uniform(0,Ln,size=int(rng.integers(0,5))))); 
        if bs and rng.random()<.3: bs=sorted(bs+[min(Ln,bs[0]+Ln*10.**rng.uniform(-9,-2))])
        if rng.random()<.2: bs=[0.]+bs
        if rng.random()<.2: bs=bs+[Ln]
        nf=int(rng.choice([1,2,3])); ms=float(Ln*10.**rng.uniform(-2.3,.5)) if rng.random()<.7 else None; mf=None if ms is not None else float(rng.choice([rng.uniform(.1,6),2.,3]))
        if ms is not None and rng.random()<.3: ms=Ln/int(rng.integers(1,30))
        D.case(path_length=Ln,breakpoints=bs,mesh_size=ms,mesh_size_factor=mf,N_factor=nf); u=np.asarray(G.discretize_path(Ln,bs,ms,mf,N_factor=nf)); D.expect(u[0]==0. and u[-1]==Ln,'starts at zero, ends at the path length',got=(u[0],u[-1])); D.expect(np.all(np.diff(u)>0),'strictly increasing')
        for b in bs: D.expect(np.sum(np.abs(u-b)<=1e-12*Ln)==1,'every breakpoint exactly once',breakpoint=b)
        e=u[::nf]; D.expect((len(u)-1)%nf==0,'whole elements')
        if ms is not None: D.expect(np.max(np.diff(e))<=ms*(1+1e-9),'no further apart than the mesh size',got=np.max(np.diff(e)))
        for b in bs: D.expect(np.any(np.abs(e-b)<=1e-12*Ln),'breakpoints are element end points',breakpoint=b)
        if nf>1:
            for k in range(1,nf): D.close(u[k::nf],e[:-1]+k/nf*np.diff(e),'inner samples evenly spread',rtol=1e-9,atol=1e-12)
        pts=[0.]+bs+[Ln]
        for a,b in zip(pts,pts[1:]):
            if b-a>1e-9: D.expect(np.sum((e>=a-1e-12*Ln)&(e<b-1e-12*Ln))>=3,'at least three elements per smooth part')
def order(m):
    """element chain from its unique start"""
    return m
def mesh(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(200,2000)):
        p=rand_path(rng,False); ho=bool(rng.random()<.5); ms=float(p.path_length*rng.uniform(.02,.6)) if rng.random()<.7 else None; mf=None if ms is not None else float(rng.choice([.5,1,2.3,4])); nm=str(rng.choice(['a','b'])); how=int(rng.integers(0,3))
        if how==0: p.name=nm
        D.case(path=str(p),mesh_size=ms,mesh_size_factor=mf,higher_order=ho,name=nm,named_by=how); m=p.mesh(mesh_size=ms,mesh_size_factor=mf,higher_order=ho,name=nm if how==1 else None,ensure_outward_normals=False)
        u=np.asarray(G.discretize_path(p.path_length,p.breakpoints,ms,mf,N_factor=3 if ho else 1)); X=np.array([p(x) for x in u]); l=m.points[np.asarray(m.lines).astype(int)]; k=3 if ho else 1; e=X[::k]; tol=dict(rtol=1e-9,atol=1e-9)
        D.expect(l.shape==(len(e)-1,4 if ho else 2,3),'number of elements',got=l.shape); D.close(l[:,0],e[:-1],'elements start at successive samples',**tol); D.close(l[:,1],e[1:],'elements end at the next sample',**tol)
        if ho: D.close(l[:,2],X[1::3],'inner node at one third in arc length',**tol); D.close(l[:,3],X[2::3],'inner node at two thirds in arc length',**tol)
        D.close(l[0,0],p.starting_point(),'first element starts at the start',**tol); D.close(l[-1,1],p.endpoint(),'last element ends at the end',**tol)
        if ms is not None: D.expect(np.linalg.norm(l[:,1]-l[:,0],axis=1).max()<=ms*(1+1e-6),'elements no longer than the mesh size')
        for b in p.breakpoints: D.expect(min(np.linalg.norm(l[:,0]-np.asarray(p(b)),axis=1).min(),np.linalg.norm(l[:,1]-np.asarray(p(b)),axis=1).min())<1e-8,'corners are element end points',at=b)
        D.expect(m.physical_to_lines.keys()==({nm} if how<2 else set()) and (how==2 or sorted(map(int,m.physical_to_lines[nm]))==list(range(len(l)))),'all elements in the named group and no other',got=dict(m.physical_to_lines)); D.expect(len(m.triangles)==0,'no triangles')
        o=p.mesh(mesh_size=ms,mesh_size_factor=mf,higher_order=ho,name='x'); lo=o.points[np.asarray(o.lines).astype(int)]; rv=[1,0,3,2] if ho else [1,0]; D.expect(len(lo)==len(l) and all(np.allclose(a,b,**tol) or np.allclose(a,b[rv],**tol) for a,b in zip(lo,l)),'orientation only reverses elements')
def collection(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(40,400)):
        ps=[G.Path.line(rng.normal(size=3)+9*i,rng.normal(size=3)+9*i+3) for i in range(int(rng.integers(2,4)))]; names=['p%d'%rng.integers(0,2) for _ in ps]
        for p,n in zip(ps,names): p.name=n
        c=ps[0]
        for p in ps[1:]: c=c+p
        ov=rng.integers(0,3)
        if ov==1: c.name='all'
        ho=bool(rng.random()<.5); ms=float(rng.uniform(.2,1.)); D.case(names=names,override=int(ov),higher_order=ho,mesh_size=ms); m=c.mesh(mesh_size=ms,higher_order=ho,name='all' if ov==2 else None); parts=[p.mesh(mesh_size=ms,higher_order=ho) for p in ps]; D.expect(len(m.lines)==sum(len(q.lines) for q in parts),'all elements of all paths'); want={}
        for q,n in zip(parts,names): want[n if ov==0 else 'all']=want.get(n if ov==0 else 'all',0)+len(q.lines)
        D.expect({k:len(v) for k,v in m.physical_to_lines.items()}==want,'elements in their named groups',got={k:len(v) for k,v in m.physical_to_lines.items()},want=want); ln=lambda q:np.linalg.norm(np.diff(q.points[np.asarray(q.lines).astype(int)][:,:2],axis=1),axis=2).sum(); D.close(ln(m),sum(ln(q) for q in parts),'total length',rtol=1e-9)
        for n in want:
            L_=m.points[np.asarray(m.lines).astype(int)[np.asarray(m.physical_to_lines[n],int)]][:,:2]; src=[p for p,x in zip(ps,names) if ov or x==n]; D.expect(all(min(np.linalg.norm(np.cross(x-s(0),s(s.path_length)-s(0)))/s.path_length for s in src)<1e-8 for x in L_.mean(1)),'group elements lie on their own path',group=n)
CASES=[('discretise',disc),('mesh',mesh),('collection',collection)]
