import numpy as np, math
from fractions import Fraction as Fr
from . import lib as L
def chart(rng,curved=True,nb=2):
    """surface z=g(x,y) over the parameter rectangle: the vertex gives its own parameters back"""
    import traceon.geometry as G
    a,b=rng.uniform(.5,3,size=2); k=rng.uniform(-.6,.6,size=3) if curved else np.zeros(3); g=lambda u,v:k[0]*u*u/a+k[1]*v*v/b+k[2]*u*v
    b1=sorted(map(float,rng.uniform(.1,.9,size=int(rng.integers(0,nb+1)))*a)); b2=sorted(map(float,rng.uniform(.1,.9,size=int(rng.integers(0,nb+1)))*b))
    return G.Surface(lambda u,v:np.array([u,v,g(u,v)]),a,b,b1,b2,name='s'),a,b,g,b1,b2
def msize(rng,a,b):
    k=int(rng.integers(0,5)); s=min(a,b)
    if k==0: return s*rng.uniform(.15,.8)
    if k==1: h=s*rng.uniform(.08,.3); x0=rng.uniform(0,a); return lambda x,y,z:h*(1+3*abs(x-x0)/a)
    if k==2: h=s*rng.uniform(.1,.4); y0=rng.uniform(0,b); return lambda x,y,z:h if y<y0 else 3.3*h
    if k==3: h=s*rng.uniform(.07,.2); p=rng.uniform(0,1,size=2)*[a,b]; return lambda x,y,z:h*(1+4*math.hypot(x-p[0],y-p[1])/s)
    return max(a,b)*2
def tiles(D,U,a,b,what,rng):
    """triangles in the parameter plane: areas add up to the rectangle and random parameters lie in exactly one of them"""
    A=.5*np.abs((U[:,1,0]-U[:,0,0])*(U[:,2,1]-U[:,0,1])-(U[:,1,1]-U[:,0,1])*(U[:,2,0]-U[:,0,0])); D.close(A.sum(),a*b,what+': areas add up to the parameter rectangle',rtol=1e-7,atol=1e-9)
    D.expect(U[...,0].min()>-1e-9 and U[...,1].min()>-1e-9 and U[...,0].max()<a+1e-9 and U[...,1].max()<b+1e-9,what+': inside the parameter rectangle')
    T=np.transpose(U,(1,0,2))
    for q in rng.uniform(0,1,size=(60,2))*[a,b]:
        s=[(T[(i+1)%3][:,0]-T[i][:,0])*(q[1]-T[i][:,1])-(T[(i+1)%3][:,1]-T[i][:,1])*(q[0]-T[i][:,0]) for i in range(3)]; eps=1e-12
        n=int(np.sum((np.minimum.reduce(s)>eps)|(np.maximum.reduce(s)<-eps))); m=int(np.sum((np.minimum.reduce(s)>-1e-10)|(np.maximum.reduce(s)<1e-10)))
        D.expect(n<=1 and m>=1,what+': every parameter is covered exactly once',parameter=q,covered=n)
def cover(D):
    rng=D.rng
    for _ in range(D.n(60,600)):
        s,a,b,g,b1,b2=chart(rng,bool(rng.random()<.7)); ms=msize(rng,a,b); D.case(lengths=(a,b),breakpoints1=b1,breakpoints2=b2,mesh_size=ms if not callable(ms) else 'function'); m=s.mesh(mesh_size=ms,ensure_outward_normals=bool(rng.random()<.5)); t=np.asarray(m.triangles).astype(int); P=m.points; D.expect(len(t)>0,'not empty')
        D.expect(np.all(np.abs(P[:,2]-np.array([g(x,y) for x,y in P[:,:2]]))<1e-8),'every vertex is the surface at its parameters'); tiles(D,P[t][:,:,:2],a,b,'mesh of a surface',rng)
        D.expect(set(m.physical_to_triangles)=={'s'} and sorted(map(int,m.physical_to_triangles['s']))==list(range(len(t))),'every triangle belongs to the named group'); D.expect(len(np.unique(t))==len(P),'no stray points')
        for x in b1: D.expect(not np.any((P[t][:,:,0].min(1)<x-1e-9)&(P[t][:,:,0].max(1)>x+1e-9)),'no triangle straddles a breakpoint',u=x)
        for y in b2: D.expect(not np.any((P[t][:,:,1].min(1)<y-1e-9)&(P[t][:,:,1].max(1)>y+1e-9)),'no triangle straddles a breakpoint',v=y)
        for i,x in [(0,x) for x in b1]+[(1,y) for y in b2]:
            # vertices used along the line on both sides
            l=set(t[P[t][:,:,i].max(1)<x+1e-9].ravel()); r=set(t[P[t][:,:,i].min(1)>x-1e-9].ravel()); on=lambda S:{k for k in S if abs(P[k,i]-x)<1e-9}
            D.expect(on(l)&on(r)!=set(),'sections join on shared vertices')
def subdivide(D):
    """any sequence of splits in either direction: exact dyadic tiling"""
    import traceon.mesher as M, traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(80,800)):
        a,b=rng.uniform(.3,8,size=2); S=G.Surface(lambda u,v:np.array([u,v,0.]),a,b); ms=msize(rng,a,b); start=(int(rng.integers(0,3)),); d=start[0]; n=2**d; i,j=int(rng.integers(0,n)),int(rng.integers(0,n)); D.case(lengths=(a,b),start=(d,i,i+1,j,j+1)); ps=M.PointStack(S,points=[]); q=[]; M._subdivide_quads(ps,ms,to_subdivide=[(d,i,i+1,j,j+1)],quads=q); R=[(Fr(int(i0),2**int(dd)),Fr(int(i1),2**int(dd)),Fr(int(j0),2**int(dd)),Fr(int(j1),2**int(dd))) for dd,i0,i1,j0,j1 in q]
        tot=sum((x1-x0)*(y1-y0) for x0,x1,y0,y1 in R); D.expect(tot==Fr(1,n*n),'quads cover the starting quad',area=float(tot)); D.expect(all(Fr(i,n)<=x0<x1<=Fr(i+1,n) and Fr(j,n)<=y0<y1<=Fr(j+1,n) for x0,x1,y0,y1 in R),'quads stay inside the starting quad')
        if len(R)<=400: D.expect(not any(R[p][0]<R[r][1] and R[r][0]<R[p][1] and R[p][2]<R[r][3] and R[r][2]<R[p][3] for p in range(len(R)) for r in range(p)),'quads are disjoint')
        f=ms if callable(ms) else (lambda x,y,z:ms)
        for x0,x1,y0,y1 in R: D.expect(float(x1-x0)*a<=f(float(x0+x1)/2*a,float(y0+y1)/2*b,0)*(1+1e-9) and float(y1-y0)*b<=f(float(x0+x1)/2*a,float(y0+y1)/2*b,0)*(1+1e-9),'sides are within the mesh size')
def sizes(D):
    """curved surfaces, sizes that depend on all coordinates: no side of a finished quad is longer than the size asked at its centre"""
    import traceon.mesher as M, traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(30,300)):
        a,b=rng.uniform(.5,3,size=2); A=rng.normal(size=(3,3)); c=rng.normal(size=3)
        S=G.Surface(lambda u,v:A@np.array([u,v,.5*math.sin(u)+.3*v*v])+c,a,b); g=rng.normal(size=3); k=float(rng.uniform(.15,.6)); ms=(lambda x,y,z:k*(1.2+math.sin(float(g@np.array([x,y,z]))))) if rng.random()<.8 else k; f=ms if callable(ms) else (lambda x,y,z:ms)
        D.case(lengths=(a,b),matrix=A,offset=c,direction=g,size=k,function=callable(ms)); pts=[]; ps=M.PointStack(S,points=pts); q=[]; M._subdivide_quads(ps,ms,to_subdivide=[(1,0,1,0,1),(1,1,2,0,1),(1,0,1,1,2),(1,1,2,1,2)],quads=q); D.expect(len(q)>=4,'the quads are finished')
        for d,i0,i1,j0,j1 in q:
            C=[[S(a*i/2**int(d),b*j/2**int(d)) for j in(int(j0),int(j1))] for i in(int(i0),int(i1))]; h=f(*np.mean([C[0][0],C[0][1],C[1][0],C[1][1]],axis=0))*(1+1e-7)
            D.expect(max(np.linalg.norm(C[0][0]-C[0][1]),np.linalg.norm(C[1][0]-C[1][1]),np.linalg.norm(C[0][0]-C[1][0]),np.linalg.norm(C[0][1]-C[1][1]))<=h,'sides are within the size asked at the centre',quad=(d,i0,i1,j0,j1),size=h,corners=C)
def conforming(D):
    """uniform refinement, and one side refined once more: no vertex may lie inside another triangle's edge"""
    import traceon.geometry as G
    rng=D.rng
    def hanging(P,t):
        E=set()
        for x in t:
            for k in range(3): E.add(tuple(sorted((x[k],x[(k+1)%3]))))
        n=0
        for i,j in E:
            d=P[j]-P[i]; l=d@d; s=(P-P[i])@d/l; r=np.linalg.norm(P-P[i]-s[:,None]*d,axis=1); n+=int(np.sum((s>1e-6)&(s<1-1e-6)&(r<1e-9*math.sqrt(l))))
        return n
    for k in range(D.n(12,80)):
        a=rng.uniform(.5,3); n=2**int(rng.integers(2,4)); h=a/n*1.01; D.case(size=a,mesh_size=h,kind=k%4); S=lambda b1=[],b2=[]:G.Surface(lambda u,v:np.array([u,v,0.]),a,a,b1,b2)
        c=k%4
        if c==0: m=S().mesh(mesh_size=h)
        elif c==1: m=S().mesh(mesh_size=lambda x,y,z:h if (x if k%8<4 else y)<a/2 else h/2)
        elif c==2: m=S([a/2],[]).mesh(mesh_size=h)
        else: m=S([a/2],[a/2]).mesh(mesh_size=lambda x,y,z:h/2 if x<a/2 else h/4)
        t=np.asarray(m.triangles).astype(int); tiles(D,m.points[t][:,:,:2],a,a,'conforming mesh',rng); D.expect(hanging(m.points[:,:2],t)==0,'neighbouring elements share whole edges',hanging=hanging(m.points[:,:2],t))
    # many sections, every second band of them refined once more
    for k in range(D.n(10,60)):
        nx,ny=int(rng.integers(1,6)),int(rng.integers(1,6)); w=rng.uniform(.5,2); ax=int(rng.integers(0,2)); ph=int(rng.integers(0,2)); D.case(sections=(nx,ny),section_size=w,bands_along=ax,first_fine=ph)
        m=G.Surface(lambda u,v:np.array([u,v,0.]),nx*w,ny*w,[w*i for i in range(1,nx)],[w*i for i in range(1,ny)]).mesh(mesh_size=lambda x,y,z:.26*w if int((x,y)[ax]/w)%2==ph else .13*w)
        t=np.asarray(m.triangles).astype(int); tiles(D,m.points[t][:,:,:2],nx*w,ny*w,'mesh of many sections',rng); D.expect(hanging(m.points[:,:2],t)==0,'sections share whole edges',hanging=hanging(m.points[:,:2],t))
def real(D):
    """closed surfaces: no free edge"""
    import traceon.geometry as G
    from collections import Counter
    rng=D.rng
    for k in range(D.n(12,80)):
        c=k%3; ms=None
        if c==0: o=G.Surface.sphere(rng.uniform(.5,2)); ms=dict(mesh_size_factor=float(rng.uniform(.5,6)))
        elif c==1: o=G.Path.circle_xz(4.,0.,rng.uniform(.5,1.5)).revolve_z(); ms=dict(mesh_size_factor=float(rng.uniform(.5,4)))
        else: h=rng.uniform(.5,2); o=G.Path.rectangle_xz(1.,1.+h,0,h).revolve_z(); ms=dict(mesh_size=float(rng.uniform(.4,1.)))
        o.name='x'; D.case(surface=c,args=ms); m=o.mesh(**ms); t=np.asarray(m.triangles).astype(int); P=m.points
        if c==0: D.close(np.linalg.norm(P,axis=1),np.full(len(P),np.linalg.norm(P[0])),'on the sphere',rtol=1e-9)
        e=Counter(tuple(sorted((x[i],x[(i+1)%3]))) for x in t for i in range(3)); free=[q for q,v in e.items() if v!=2]
        # free edges are only possible where an element edge meets two half-length edges (hanging vertices)
        bad=0
        for i,j in free:
            mid=[q for q in free if q!=(i,j)]; d=P[j]-P[i]
            if not any((i in q or j in q) for q in mid): bad+=1
        D.expect(bad==0,'closed surface without holes',free=len(free)); D.expect(all(v<=2 for v in e.values()),'no edge belongs to three triangles')
CASES=[('sizes',sizes),('cover',cover),('subdivide',subdivide),('conforming',conforming),('closed',real)]
