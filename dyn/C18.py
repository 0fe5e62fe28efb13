import numpy as np, math
from . import lib as L
from .C17 import snapshot, unchanged, multiset, coords
KIND=('tetra','octa','ico','torus','lshape')
def closed(rng,k,scr=True):
    v,t=L.sphere_mesh_arrays(rng,k); v=v*rng.uniform(.4,1.5)@L.rand_rot(rng).T+rng.normal(size=3)*3
    pv=rng.permutation(len(v)); inv=np.argsort(pv); v=v[pv]; t=inv[t]; t=t[rng.permutation(len(t))]
    t=np.array([np.roll(x,int(rng.integers(0,3))) for x in t])
    if scr:
        f=rng.random(len(t))<rng.choice([0,.1,.5,1.]); t[f]=t[f][:,[0,2,1]]
    return v,t
def multi(rng,nmax=3):
    """several closed surfaces; names may contain several components, other groups interleave"""
    import traceon.mesher as M
    P=[];T=[];own=[]; base=0; n=int(rng.integers(1,nmax+1)); comps=[]
    for c in range(n):
        v,t=closed(rng,KIND[rng.integers(0,5)]); v=v-v.mean(0)+np.array([6.*c,rng.normal(),rng.normal()]); P.append(v); T.append(t+base); base+=len(v); own+=[c]*len(t); 
    P=np.vstack(P);T=np.vstack(T);own=np.array(own); pm=rng.permutation(len(T)); T=T[pm];own=own[pm]
    label=rng.integers(0,2,size=n); names={}
    for g in(0,1):
        idx=np.flatnonzero(np.isin(own,np.flatnonzero(label==g)))
        if len(idx): names['g%d'%g]=rng.permutation(idx)
    return M.Mesh(points=P,triangles=T,physical_to_triangles=names,ensure_outward_normals=False),own,label
def rowset(m,name=None):
    t=np.asarray(m.triangles).astype(int); return t if name is None else t[np.asarray(m.physical_to_triangles[name],int)]
def comp_check(D,m,own,comps,sign,what):
    for c in comps:
        t=np.asarray(m.triangles).astype(int)[own==c]; D.expect(L.edges_consistent(t.tolist()),what+': elements agree across shared edges',component=int(c)); D.expect(np.sign(L.signed_volume(m.points-m.points.mean(0),t))==sign,what+': normals point %s'%('outwards' if sign>0 else 'inwards'),component=int(c))
def tri(D):
    import traceon.mesher as M
    rng=D.rng
    for _ in range(D.n(80,800)):
        m,own,label=multi(rng); D.case(triangles=len(m.triangles),components=len(label),label=label,points=m.points,t=m.triangles); base=snapshot(m); g='g%d'%label[0]
        for f,sg in((m.ensure_outward_normals,1),(m.ensure_inward_normals,-1),(m.ensure_outward_normals,1)) if rng.random()<.5 else ((m.ensure_inward_normals,-1),(m.ensure_outward_normals,1)):
            before=snapshot(m); f(g); comp_check(D,m,own,np.flatnonzero(label==label[0]),sg,'ensure normals')
            D.expect(np.array_equal(m.points,before[0]),'no vertex moves'); oth=np.ones(len(m.triangles),bool); oth[np.asarray(m.physical_to_triangles[g],int)]=False; D.expect(np.array_equal(np.asarray(m.triangles)[oth],before[2][oth]),'other groups unchanged')
            D.expect(np.array_equal(np.sort(m.triangles,axis=1),np.sort(before[2],axis=1)),'only the vertex order within elements changes'); D.expect(set(m.physical_to_triangles)==set(before[4]) and all(np.array_equal(m.physical_to_triangles[k],before[4][k]) for k in before[4]),'groups unchanged')
def construct(D):
    """building, adding and transforming meshes orients every named closed group outwards"""
    import traceon.mesher as M
    rng=D.rng
    for _ in range(D.n(50,500)):
        m,own,label=multi(rng); D.case(triangles=len(m.triangles),label=label); a=[np.asarray(x) for x in(m.points,m.triangles)]
        q=M.Mesh(points=a[0],triangles=a[1],physical_to_triangles=m.physical_to_triangles); comp_check(D,q,own,range(len(label)),1,'Mesh(...)')
        for x,what in((q.move(dx=float(rng.normal()),dz=1.),'moved mesh'),(q.rotate(**{rng.choice(['Rx','Ry','Rz']):float(rng.uniform(-3,3))}),'rotated mesh'),(q.mirror_xz(),'mirrored mesh'),(q.mirror_xy(),'mirrored mesh')): comp_check(D,x,own,range(len(label)),1,what)
        e=q.extract_physical_group('g%d'%label[0]); D.expect(L.signed_volume(e.points-e.points.mean(0),np.asarray(e.triangles).astype(int))>0,'extracted mesh outwards')
        r=M.Mesh(points=a[0],triangles=a[1],physical_to_triangles=m.physical_to_triangles,ensure_outward_normals=False); D.expect(np.array_equal(r.points[np.asarray(r.triangles).astype(int)],a[0][a[1].astype(int)]),'ensure_outward_normals=False keeps the given orientation')
def flip(D):
    import traceon.mesher as M
    rng=D.rng
    def normals(m): v=m.points[np.asarray(m.triangles).astype(int)]; n=np.cross(v[:,1]-v[:,0],v[:,2]-v[:,0]); return n/np.linalg.norm(n,axis=1)[:,None]
    for _ in range(D.n(60,600)):
        m,own,label=multi(rng,2); 
        if rng.random()<.5: m.ensure_inward_normals('g%d'%label[0])
        s=snapshot(m); f=m.flip_normals(); D.case(triangles=len(m.triangles)); unchanged(D,m,s,'flip'); D.close(normals(f),-normals(m),'flipping reverses every normal',rtol=1e-9,atol=1e-9); D.expect(np.array_equal(np.sort(f.triangles,axis=1),np.sort(m.triangles,axis=1)) and all(np.array_equal(f.physical_to_triangles[k],m.physical_to_triangles[k]) for k in s[4]),'flip keeps vertices and groups'); g=f.flip_normals(); D.close(normals(g),normals(m),'flipping twice is the identity',rtol=1e-12,atol=1e-12); h=f._to_higher_order_mesh(); D.close(normals(h),normals(f),'conversion to higher order keeps the orientation',rtol=1e-12,atol=1e-12)
def loop2d(rng,ho):
    """closed curve in the xz half plane, randomly directed elements; returns points, lines, anticlockwise flag irrelevant"""
    n=int(rng.integers(3,12)); ph=np.sort(rng.uniform(0,2*math.pi,n)) if rng.random()<.5 else 2*math.pi*np.arange(n)/n
    if np.max(np.diff(np.append(ph,ph[0]+2*math.pi)))>2.5: ph=2*math.pi*np.arange(n)/n
    r=rng.uniform(.5,1.,n); c=np.array([rng.uniform(1.5,6),rng.uniform(-3,3)]); V=c+r[:,None]*np.stack([np.cos(ph),np.sin(ph)],1); V=np.stack([V[:,0],np.zeros(n),V[:,1]],1)
    Ls=[]; P=list(V)
    for i in range(n):
        j=(i+1)%n
        if ho: a,b=V[i],V[j]; P+=[a+(b-a)/3,a+(b-a)*2/3]; Ls.append([i,j,len(P)-2,len(P)-1])
        else: Ls.append([i,j])
    return np.array(P),np.array(Ls),V
def rev(l): return l[[1,0]] if len(l)==2 else l[[1,0,3,2]]
def lines(D):
    import traceon.mesher as M, traceon.backend as B
    rng=D.rng
    for _ in range(D.n(120,1200)):
        ho=bool(rng.random()<.5); P=[];Ls=[];own=[];Vs=[];base=0; n=int(rng.integers(1,4))
        for c in range(n):
            p,l,V=loop2d(rng,ho); p[:,2]+=8*c; V=V.copy(); V[:,2]+=8*c; P.append(p);Ls.append(l+base);base+=len(p);own+=[c]*len(l);Vs.append(V)
        P=np.vstack(P);Ls=np.vstack(Ls);own=np.array(own); fl=rng.random(len(Ls))<rng.choice([0,.2,.5,1]); Ls=np.array([rev(x) if f else x for x,f in zip(Ls,fl)]); pm=rng.permutation(len(Ls)); Ls=Ls[pm];own=own[pm]; label=rng.integers(0,2,size=n)
        names={'g%d'%g:rng.permutation(np.flatnonzero(np.isin(own,np.flatnonzero(label==g)))) for g in(0,1) if (label==g).any()}
        m=M.Mesh(points=P,lines=Ls,physical_to_lines=names,ensure_outward_normals=False); D.case(points=P,lines=Ls,label=label,higher_order=ho); D.expect(np.allclose(m.points[m.lines.astype(int)],P[Ls],rtol=1e-10,atol=0),'ensure_outward_normals=False keeps the given orientation'); g='g%d'%label[0]
        def orient(mm,c):
            """+1: every element of loop c has its normal pointing away from the enclosed area"""
            l=np.asarray(mm.lines).astype(int)[own==c]; out=[]
            for e in l:
                a,b=mm.points[e[0]],mm.points[e[1]]; nn=np.array([(b-a)[2],-(b-a)[0]]); got=B.normal_2d(a[[0,2]],b[[0,2]]); 
                if np.dot(nn/np.linalg.norm(nn),got)<.999: return None
                mid=((a+b)/2)[[0,2]]; q=mid+1e-6*got; V=Vs[c][:,[0,2]]; ins=False
                for i in range(len(V)):
                    p1,p2=V[i],V[(i+1)%len(V)]
                    if (p1[1]>q[1])!=(p2[1]>q[1]) and q[0]<(p2[0]-p1[0])*(q[1]-p1[1])/(p2[1]-p1[1])+p1[0]: ins=not ins
                out.append(-1 if ins else 1)
            return out
        for f,sg in((m.ensure_outward_normals,1),(m.ensure_inward_normals,-1)):
            before=snapshot(m); f(g)
            for c in range(n):
                if label[c]==label[0]: o=orient(m,c); D.expect(o is not None and all(x==sg for x in o),'line normals of a closed curve point %s'%('outwards' if sg>0 else 'inwards'),component=c,got=o)
            D.expect(np.array_equal(m.points,before[0]),'no vertex moves'); oth=np.ones(len(Ls),bool); oth[np.asarray(m.physical_to_lines[g],int)]=False; D.expect(np.array_equal(np.asarray(m.lines)[oth],before[1][oth]),'other groups unchanged')
            D.expect(all(np.array_equal(x,y) or np.array_equal(x,rev(y)) for x,y in zip(np.asarray(m.lines),before[1])),'an element is kept or reversed as a whole (inner nodes too)')
        fm=m.flip_normals(); D.expect(all(np.allclose(fm.points[fm.lines[i].astype(int)],m.points[rev(m.lines[i]).astype(int)],rtol=1e-10,atol=0) for i in range(len(Ls))),'flip reverses every line'); f2=fm.flip_normals(); D.expect(np.allclose(f2.points[f2.lines.astype(int)],m.points[m.lines.astype(int)],rtol=1e-10,atol=0),'flip twice'); h=fm._to_higher_order_mesh(); D.expect(np.allclose(h.points[h.lines[:,:2].astype(int)],fm.points[fm.lines[:,:2].astype(int)],rtol=1e-10,atol=0),'higher order keeps the orientation'); D.expect(all(np.array_equal(h.physical_to_lines[k],fm.physical_to_lines[k]) for k in names),'higher order keeps groups')
        x=h.points[h.lines.astype(int)]; D.close(x[:,2],x[:,0]+(x[:,1]-x[:,0])/3,'inner node at one third',rtol=1e-9,atol=1e-9); D.close(x[:,3],x[:,0]+(x[:,1]-x[:,0])*2/3,'inner node at two thirds',rtol=1e-9,atol=1e-9)
def geometry(D):
    """ensure_outward_normals in the meshing functions"""
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(10,60)):
        b=G.Surface.box(rng.normal(size=3)-3,rng.normal(size=3)+3); s=G.Surface.sphere(rng.uniform(1,2)).move(dx=20.); tor=G.Path.circle_xz(5.,0.,1.5).revolve_z(); 
        for o in(b,s,tor):
            o.name='x'; m=o.mesh(mesh_size_factor=float(rng.uniform(1,4))); D.case(obj=str(o)); t=np.asarray(m.triangles).astype(int); D.expect(L.signed_volume(m.points-m.points.mean(0),t)>0,'closed surface meshed outwards')
            q=o.mesh(mesh_size_factor=2.,ensure_outward_normals=False); r=o.mesh(mesh_size_factor=2.,ensure_outward_normals=False).flip_normals()
            def nrm(m): v=m.points[np.asarray(m.triangles).astype(int)]; return np.cross(v[:,1]-v[:,0],v[:,2]-v[:,0])
            D.close(nrm(r),-nrm(q),'ensure_outward_normals=False is not undone',rtol=1e-6,atol=1e-9)
        p=G.Path.line([1.,0,0],[2.,0,0]).line_to([2.,0,1.]).line_to([1.,0,1]).close()
        for path,want in((p,None),):
            path.name='p'; m1=path.mesh(mesh_size=.3,ensure_outward_normals=False); m2=(path+G.Path.line([5.,0,0],[6.,0,0])).mesh(mesh_size=.3,ensure_outward_normals=False); a=m1.points[m1.lines.astype(int)]; D.case(path='rectangle'); u=np.linspace(0,4,len(a)+1); D.close(np.linalg.norm(a[:,1]-a[:,0],axis=1).sum(),4.,'perimeter'); D.expect(all(np.allclose(a[i,1],a[(i+1)%len(a),0],rtol=1e-9,atol=1e-9) for i in range(len(a))),'line elements follow the direction of the path when ensure_outward_normals=False'); b2=m2.points[m2.lines.astype(int)]; D.close(b2[:len(a)],a,'collections keep it too',rtol=1e-9,atol=1e-9)
CASES=[('triangles',tri),('construction',construct),('flip',flip),('lines',lines),('meshing',geometry)]
