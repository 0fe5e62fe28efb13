import numpy as np, math
from . import lib as L
from .C19 import rand_path
PI=math.pi
def grid(n1,n2,k=5): return [(u,v) for u in np.linspace(0,n1,k) for v in np.linspace(0,n2,k)]
T=dict(rtol=1e-8,atol=1e-8)
def extrude(D):
    rng=D.rng
    for _ in range(D.n(100,1000)):
        p=rand_path(rng); w=rng.normal(size=3)*2; D.case(path=str(p),vector=w); s=p.extrude(list(w) if rng.random()<.5 else w); n=np.linalg.norm(w); D.close((s.path_length1,s.path_length2),(p.path_length,n),'lengths',**T); D.expect(list(s.breakpoints1)==list(p.breakpoints) and list(s.breakpoints2)==[] and s.name==p.name,'breakpoints and name follow')
        for u,v in grid(p.path_length,n): D.close(s(u,v),np.asarray(p(u))+v/n*w,'extrusion displaces the path point along the vector',**T)
        q=rand_path(rng,False); D.case(path=str(p),along=str(q)); s=p.extrude_by_path(q); D.close((s.path_length1,s.path_length2),(p.path_length,q.path_length),'lengths',**T); D.expect(list(s.breakpoints1)==list(p.breakpoints) and list(s.breakpoints2)==list(q.breakpoints) and s.name==p.name,'breakpoints and name follow')
        for u,v in grid(p.path_length,q.path_length): D.close(s(u,v),np.asarray(p(u))+q(v)-q(0.),'extrusion displaces the path point along the second path',**T)
def profile(rng,ax):
    import traceon.geometry as G
    i='xyz'.index(ax); V=rng.normal(size=(int(rng.integers(2,5)),3)); V[:,(i+1)%3]=rng.uniform(.2,3,len(V))*rng.choice([-1,1]); V[:,(i+2)%3]=rng.uniform(.2,1)*rng.choice([-1,1])
    p=G.Path.line(V[0],V[1])
    for v in V[2:]: p=p.line_to(v)
    if rng.random()<.5: p.name='rev'
    return p
def revolve(D):
    rng=D.rng
    for k in range(D.n(120,1200)):
        ax='xyz'[k%3]; p=profile(rng,ax); full=rng.random()<.3; a=2*PI if full else float(rng.uniform(.1,6)); D.case(axis=ax,angle=a,path=[list(map(float,p(u))) for u in np.linspace(0,p.path_length,4)]); f=getattr(p,'revolve_'+ax); s=f() if full else (f(angle=a) if rng.random()<.5 else f(a)); D.close(s.path_length1,p.path_length,'length',**T); D.expect(list(s.breakpoints1)==list(p.breakpoints) and list(s.breakpoints2)==[] and s.name==p.name,'breakpoints and name follow')
        i='xyz'.index(ax); us=(np.arange(2000)+.5)/2000*p.path_length; r=np.mean([math.hypot(*np.delete(np.asarray(p(u)),i)) for u in us]); D.close(s.path_length2,2*PI*r,'second length is the mean circumference',rtol=5e-3)
        for u,v in grid(p.path_length,1.): D.close(s(u,v*s.path_length2),L.rotm(ax,v*a)@np.asarray(p(u)),'revolution rotates the path point anticlockwise by the angle',**T)
def spanned(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(80,800)):
        p,q=rand_path(rng,False),rand_path(rng,False); D.case(path1=str(p),path2=str(q)); s=G.Surface.spanned_by_paths(p,q); n1,n2=s.path_length1,s.path_length2
        if not n2>1e-3: continue
        D.close(n1,max(p.path_length,q.path_length),'first length is the longest path',**T); D.close(n2,(np.linalg.norm(p(0.)-q(0.))+np.linalg.norm(p.endpoint()-q.endpoint()))/2,'second length is the mean of the connecting edges',**T)
        for u,v in grid(1,1): D.close(s(u*n1,v*n2),(1-v)*np.asarray(p(u*p.path_length))+v*np.asarray(q(u*q.path_length)),'straight lines between both paths',**T)
        D.close(s.breakpoints1,sorted([b/p.path_length*n1 for b in p.breakpoints]+[b/q.path_length*n1 for b in q.breakpoints]),'breakpoints of both paths, in order',**T)
def boundary(D):
    import traceon.geometry as G
    rng=D.rng
    def seg(a,b,k):
        if k==0: return G.Path.line(a,b)
        if k==1: return G.Path.line(a,(a+b)/2+rng.normal(size=3)*.5).line_to(b)
        m=(a+b)/2; d=b-a; n=np.cross(d,rng.normal(size=3)); n/=np.linalg.norm(n); h=rng.uniform(.2,2); return G.Path.arc(m+h*n,a,b)
    for _ in range(D.n(80,800)):
        C=np.array([[0,0,0],[2,0,0],[2,2,0],[0,2,0.]])+rng.normal(size=(4,3))*.4; ks=rng.integers(0,3,size=4); p=[seg(C[i],C[(i+1)%4],ks[i]) for i in range(4)]; D.case(corners=C,kinds=ks); s=G.Surface.from_boundary_paths(*p); n1,n2=s.path_length1,s.path_length2; D.close((n1,n2),((p[0].path_length+p[2].path_length)/2,(p[1].path_length+p[3].path_length)/2),'lengths are the averages of opposite edges',**T)
        for t in np.linspace(0,1,9):
            D.close(s(t*n1,0.),p[0](t*p[0].path_length),'first edge',**T); D.close(s(n1,t*n2),p[1](t*p[1].path_length),'second edge',**T); D.close(s((1-t)*n1,n2),p[2](t*p[2].path_length),'third edge',**T); D.close(s(0.,(1-t)*n2),p[3](t*p[3].path_length),'fourth edge',**T)
        P=lambda i,t:np.asarray(p[i](t*p[i].path_length)); 
        if not np.any(ks):
            for u,v in grid(1,1): D.close(s(u*n1,v*n2),(1-u)*(1-v)*C[0]+u*(1-v)*C[1]+u*v*C[2]+(1-u)*v*C[3],'straight edges give the bilinear patch',**T)
        for b,l,i,r in((s.breakpoints1,n1,0,False),(s.breakpoints1,n1,2,True),(s.breakpoints2,n2,1,False),(s.breakpoints2,n2,3,True)):
            for x in p[i].breakpoints: y=x/p[i].path_length; y=(1-y if r else y)*l; D.expect(min([abs(z-y) for z in b]+[9])<1e-8,'corners of the edges are breakpoints')
        D.expect(list(s.breakpoints1)==sorted(s.breakpoints1) and list(s.breakpoints2)==sorted(s.breakpoints2) and len(s.breakpoints1)==len(p[0].breakpoints)+len(p[2].breakpoints) and len(s.breakpoints2)==len(p[1].breakpoints)+len(p[3].breakpoints),'breakpoints sorted, no others')
        b=s.get_boundary_paths(); D.expect(len(b.paths)>=2,'boundary paths'); 
def shapes(D):
    import traceon.geometry as G
    rng=D.rng
    for k in range(D.n(60,600)):
        r=rng.uniform(.2,3); s=G.Surface.sphere(r); D.case(sphere=r); D.close((s.path_length1,s.path_length2),(2*PI*r,PI*r),'sphere lengths',**T)
        for u,v in grid(2*PI,PI): D.close(s(u*r,v*r),r*np.array([math.sin(v)*math.cos(u),math.sin(v)*math.sin(u),math.cos(v)]),'sphere',**T)
        c=k%3; x,y=rng.normal(size=2); D.case(disk=c,center=(x,y),radius=r); s=(G.Surface.disk_xz,G.Surface.disk_yz,G.Surface.disk_xy)[c](x,y,r); i,j=((0,2),(1,2),(0,1))[c]; o=3-i-j; ctr=np.zeros(3); ctr[i]=x; ctr[j]=y
        for u,v in grid(1,1): q=s(u*s.path_length1,v*s.path_length2); D.expect(abs(q[o])<1e-9,'disk lies in its plane'); D.close(np.linalg.norm(q-ctr),u*r,'disk radius',**T)
        A=np.array([[s(u*s.path_length1,v*s.path_length2) for v in np.linspace(0,1,181)] for u in(.5,1.)]); D.close(A[1,0],A[1,-1],'full turn',**T); th=np.unwrap(np.arctan2(A[1,:,j]-y,A[1,:,i]-x)); D.close(abs(th[-1]-th[0]),2*PI,'once around',**T)
        a0,b0=rng.normal(size=2); a1,b1=a0+rng.uniform(.1,3),b0+rng.uniform(.1,3); D.case(rectangle=c,args=(a0,a1,b0,b1)); s=(G.Surface.rectangle_xz,G.Surface.rectangle_yz,G.Surface.rectangle_xy)[c](a0,a1,b0,b1); D.close(s.path_length1*s.path_length2,(a1-a0)*(b1-b0),'rectangle area',**T); cs={tuple(np.round(np.asarray(s(u,v)),9)+0.) for u in(0,s.path_length1) for v in(0,s.path_length2)}; want=set()
        for aa in(a0,a1):
            for bb in(b0,b1): q=np.zeros(3); q[i]=aa; q[j]=bb; want.add(tuple(np.round(q,9)+0.))
        D.expect(cs==want,'rectangle corners',got=cs,want=want); mid=s(s.path_length1/2,s.path_length2/2); q=np.zeros(3); q[i]=(a0+a1)/2; q[j]=(b0+b1)/2; D.close(mid,q,'rectangle centre',**T)
        p0,p1=rng.normal(size=3),rng.normal(size=3)+2.5; D.case(box=(p0,p1)); s=G.Surface.box(p0,p1) if rng.random()<.5 else G.Surface.box(p1,p0); m=s.mesh(mesh_size=float(np.abs(p1-p0).min()),ensure_outward_normals=True,name='b'); lo,hi=np.minimum(p0,p1),np.maximum(p0,p1); d=hi-lo; t=np.asarray(m.triangles).astype(int); V=m.points[t]; ar=.5*np.linalg.norm(np.cross(V[:,1]-V[:,0],V[:,2]-V[:,0]),axis=1); D.close(ar.sum(),2*(d[0]*d[1]+d[1]*d[2]+d[2]*d[0]),'box surface area',rtol=1e-7); D.close((m.points.min(0),m.points.max(0)),(lo,hi),'box corners',**T); D.close(L.signed_volume(m.points,t),d.prod(),'box volume',rtol=1e-6)
        for ax in range(3):
            for w in(lo,hi): sel=np.all(np.abs(V[:,:,ax]-w[ax])<1e-9,axis=1); D.close(ar[sel].sum(),d.prod()/d[ax],'each face of the box once',rtol=1e-7,face=(ax,w[ax]))
        h,rr,e,z=rng.uniform(.1,1),rng.uniform(.1,1),rng.uniform(1.2,3),rng.normal(); s=G.Surface.aperture(h,rr,e,z=z); D.case(aperture=(h,rr,e,z)); q=np.array([s(u,v) for u,v in grid(s.path_length1,s.path_length2,9)]); D.close((np.hypot(q[:,0],q[:,1]).max(),q[:,2].min(),q[:,2].max()),(e,z-h/2,z+h/2),'aperture extent',**T); D.expect(np.hypot(q[:,0],q[:,1]).min()>=rr-1e-9,'aperture hole')
def closed_collection(D,c,what,vol,tol=.02,mesh=None):
    """every boundary curve of every member is matched by another: total normal flux zero and enclosed volume as stated"""
    m=c.mesh(mesh_size=mesh,name='c'); t=np.asarray(m.triangles).astype(int); V=m.points[t]; n=np.cross(V[:,1]-V[:,0],V[:,2]-V[:,0])/2; a=np.linalg.norm(n,axis=1).sum(); D.expect(np.linalg.norm(n.sum(0))<1e-6*a+tol*a,what+': closed (no net normal)',got=n.sum(0)/a); c0=m.points.mean(0); v=np.einsum('ij,ij->i',V.mean(1)-c0,n).sum()/3; D.close(abs(v),vol,what+': encloses the swept volume',rtol=tol)
def enclosing(D):
    import traceon.geometry as G
    rng=D.rng
    for k in range(D.n(24,200)):
        w,h=rng.uniform(.5,2,size=2); base=G.Surface.rectangle_xz(1.,1+w,.5,.5+h); base.name=None; n=np.array([0,1.,0])
        c=k%6; D.case(kind=c,w=w,h=h)
        if c==0:
            v=np.array([rng.normal()*.3,rng.uniform(.5,2),rng.normal()*.3]); col=base.extrude_boundary(v); op=base.extrude_boundary(v,enclose=False); vol=w*h*v[1]; end=lambda p:p+v
        elif c==1:
            e=np.array([rng.normal()*.3,rng.uniform(.5,2),rng.normal()*.3]); o=rng.normal(size=3); path=G.Path.line(o,o+e) if k%12<6 else G.Path.line(o,o+e/2+[.2,0,.1]).line_to(o+e); col=base.extrude_boundary_by_path(path); op=base.extrude_boundary_by_path(path,enclose=False); vol=w*h*e[1]; end=lambda p:p+e
        elif c in(2,3):
            a=rng.uniform(.4,2.5)
            if c==2: col,op=base.revolve_boundary_z(a),base.revolve_boundary_z(a,enclose=False); vol=w*h*(1+w/2)*a; end=lambda p:L.rotm('z',a)@p
            else: col,op=base.revolve_boundary_x(a),base.revolve_boundary_x(a,enclose=False); vol=w*h*(.5+h/2)*a; end=lambda p:L.rotm('x',a)@p
        elif c==4:
            b2=G.Surface.rectangle_xy(1.,1+w,.5,.5+h); a=rng.uniform(.4,2.5); base=b2; col,op=b2.revolve_boundary_y(a),b2.revolve_boundary_y(a,enclose=False); vol=w*h*(1+w/2)*a; end=lambda p:L.rotm('y',a)@p
        else:
            base=G.Surface.disk_xz(3.,0.,min(w,h)/2); v=np.array([0,rng.uniform(.5,2),0.]); col,op=base.extrude_boundary(v),base.extrude_boundary(v,enclose=False); vol=PI*(min(w,h)/2)**2*v[1]; end=lambda p:p+v
        sides=len(col.surfaces)-2; D.expect(sides>=1 and len(op.surfaces)==sides+1,'collection of base, sides and end',members=len(col.surfaces))
        b0,b1=col.surfaces[0],col.surfaces[-1]
        for u,v_ in grid(base.path_length1,base.path_length2,4): D.close(b0(u,v_),base(u,v_),'the surface itself is part',**T); D.close(b1(u,v_),end(np.asarray(base(u,v_))),'the end is the moved copy',**T)
        for a_,b_ in zip(op.surfaces,col.surfaces): D.close(a_(a_.path_length1/3,a_.path_length2/3),b_(b_.path_length1/3,b_.path_length2/3),'without enclosure only the end is missing',**T)
        for s in col.surfaces[1:-1]:
            for u in np.linspace(0,s.path_length1,6)[1:-1]: p=np.asarray(s(u,0.)); D.close(s(u,s.path_length2),end(p),'sides run from the start to the end',**T)
        bs=base.get_boundary_paths().paths; D.expect(len(bs)==sides,'one side per boundary curve')
        for q,s in zip(bs,col.surfaces[1:-1]):
            for u in np.linspace(0,q.path_length,5): D.close(s(u,0.),q(u),'each side starts on a boundary curve of the surface',**T)
        if c<5:
            for q,want in zip(bs,('v0','v1','u0','u1')):
                for t in np.linspace(0,1,5):
                    p=q(t*q.path_length); n1,n2=base.path_length1,base.path_length2; cand=[base(t*n1,0.),base(t*n1,n2),base(0.,t*n2),base(n1,t*n2)]; D.expect(min(np.linalg.norm(p-np.asarray(x)) for x in cand)<1e-9,'boundary curves follow the edges of the surface')
            ed={tuple(np.round(np.asarray(q(q.path_length/2)),7)+0.) for q in bs}; D.expect(len(ed)==4,'four different edges')
        else: D.expect(all(q.is_closed() for q in bs),'only closed boundary curves'); 
        if k%6==0: closed_collection(D,col,'swept rectangle',vol,.03,min(w,h)/5)
        full=G.Surface.rectangle_xz(1.,2.,0,1.).revolve_boundary_z(); D.expect(len(full.surfaces)==5,'a full turn needs no end cap',got=len(full.surfaces))
def names(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(30,300)):
        c=rand_path(rng)+rand_path(rng); 
        if rng.random()<.6: c.name='grp'
        D.case(members=[str(p) for p in c.paths],name=c.name); w=rng.normal(size=3)
        for s in(c.extrude(w),c.extrude_by_path(G.Path.line([0,0,0.],w))): D.expect(len(s.surfaces)==2 and s.name==c.name and all(x.name==p.name and list(x.breakpoints1)==list(p.breakpoints) for x,p in zip(s.surfaces,c.paths)),'collections keep names and breakpoints')
        for p,x in zip(c.paths,c.extrude(w).surfaces): D.close(x(p.path_length/3,np.linalg.norm(w)),np.asarray(p(p.path_length/3))+w,'members are extruded one by one',**T)
        a=c+rand_path(rng); D.expect(len(a.paths)==3 and len(c.paths)==2,'adding a path'); b=rand_path(rng)+c; D.expect(len(b.paths)==3,'adding a collection to a path'); c+=rand_path(rng); D.expect(len(c.paths)==3,'in-place addition')
CASES=[('extrude',extrude),('revolve',revolve),('spanned',spanned),('boundary',boundary),('shapes',shapes),('enclosing',enclosing),('names',names)]
