import numpy as np, math
from . import lib as L
def rand_transform(rng):
    """(name, apply(object), reference map on points)"""
    k=int(rng.integers(0,8))
    if k<2:
        d=rng.normal(size=3)*10.**rng.integers(-2,3); d=[float(x) for x in d]; which=rng.random(3)<.6; kw={n:(int(round(x)) if rng.random()<.2 else x) for n,x,w in zip(('dx','dy','dz'),d,which) if w}; dd=np.array([kw.get(n,0.) for n in('dx','dy','dz')],float)
        return 'move(%r)'%kw,lambda o:o.move(**kw),lambda p:p+dd
    if k<5:
        ax='xyz'[rng.integers(0,3)]; a=float(rng.choice([0.,rng.uniform(-7,7),math.pi/2,-math.pi,1e-3])); o=[float(x) for x in rng.normal(size=3)*3] if rng.random()<.7 else None
        if o is not None and rng.random()<.2: o=[int(round(x)) for x in o]
        kw={'R'+ax:a}
        if o is not None: kw['origin']=o
        R=L.rotm(ax,a); oo=np.zeros(3) if o is None else np.array(o,float)
        return 'rotate(%r)'%kw,lambda ob:ob.rotate(**kw),lambda p:oo+R@(p-oo)
    ax=int(rng.integers(0,3)); s=np.ones(3); s[ax]=-1; nm=('mirror_yz','mirror_xz','mirror_xy')[ax]
    return nm,lambda o:getattr(o,nm)(),lambda p:p*s
def rand_path(rng,name=True):
    import traceon.geometry as G
    k=int(rng.integers(0,6)); P=lambda:rng.normal(size=3)*2
    if k==0: p=G.Path.line(P(),P())
    elif k==1: p=G.Path.line(P(),P()).line_to(P()).line_to(P())
    elif k==2: p=G.Path.circle_xz(rng.normal(),rng.normal(),rng.uniform(.5,2),rng.uniform(.5,6))
    elif k==3: p=G.Path.line([0,0,0.],[1,0,0.]).arc_to([1,0,1.],[2,0,1.])
    elif k==4: p=G.Path.rectangle_xz(1,2,3,4.)
    else: p=G.Path.from_irregular_function(lambda u:np.array([u,u*u,math.sin(u)]))
    if name and rng.random()<.7: p.name='n%d'%rng.integers(0,9)
    return p
def rand_surface(rng):
    import traceon.geometry as G
    k=int(rng.integers(0,5))
    if k==0: s=rand_path(rng,False).extrude(rng.normal(size=3)*2)
    elif k==1: s=G.Path.line([1.,0,0],[2,0,1]).line_to([2.,0,3]).revolve_z(rng.uniform(.5,6))
    elif k==2: s=G.Surface.sphere(rng.uniform(.5,2))
    elif k==3: s=rand_path(rng,False).extrude_by_path(rand_path(rng,False))
    else: s=G.Surface.spanned_by_paths(rand_path(rng,False),rand_path(rng,False))
    if not np.all(np.isfinite(s(s.path_length1/3,s.path_length2/3))): return rand_surface(rng)
    if rng.random()<.7: s.name='s%d'%rng.integers(0,9)
    return s
def eq(D,a,b,what,scale=1.): D.close(a,b,what,rtol=1e-9,atol=1e-9*max(1.,float(np.abs(b).max())))
def cmp_path(D,q,p,ref,what):
    D.expect(q.path_length==p.path_length and list(q.breakpoints)==list(p.breakpoints) and q.name==p.name,what+': path length, breakpoints and name unchanged',got=(q.path_length,q.breakpoints,q.name),want=(p.path_length,p.breakpoints,p.name))
    for u in np.concatenate([np.linspace(0,p.path_length,7),p.breakpoints]): eq(D,q(u),ref(np.asarray(p(u),float)),what+': every point is mapped')
def cmp_surf(D,q,p,ref,what):
    D.expect((q.path_length1,q.path_length2,list(q.breakpoints1),list(q.breakpoints2),q.name)==(p.path_length1,p.path_length2,list(p.breakpoints1),list(p.breakpoints2),p.name),what+': lengths, breakpoints and name unchanged')
    for u in np.linspace(0,p.path_length1,4):
        for v in np.linspace(0,p.path_length2,4): eq(D,q(u,v),ref(np.asarray(p(u,v),float)),what+': every point is mapped')
def paths(D):
    rng=D.rng
    for _ in range(D.n(150,1500)):
        p=rand_path(rng); t,f,ref=rand_transform(rng); D.case(path=str(p),transform=t); us=np.linspace(0,p.path_length,5); b=[np.array(p(u)) for u in us]; n=(p.path_length,list(p.breakpoints),p.name); q=f(p); cmp_path(D,q,p,ref,'path')
        t2,f2,r2=rand_transform(rng); D.case(path=str(p),transform=t+' then '+t2); cmp_path(D,f2(q),p,lambda x:r2(ref(x)),'path, two transformations'); q.name='other'; q.breakpoints=q.breakpoints+[0.]
        D.expect(all(np.array_equal(x,p(u)) for x,u in zip(b,us)) and n==(p.path_length,list(p.breakpoints),p.name),'the original is not modified')
def surfaces(D):
    rng=D.rng
    for _ in range(D.n(100,1000)):
        p=rand_surface(rng); t,f,ref=rand_transform(rng); D.case(surface=str(p),transform=t); n=(p.path_length1,p.path_length2,list(p.breakpoints1),p.name); b=np.array(p(p.path_length1/3,p.path_length2/3)); q=f(p); cmp_surf(D,q,p,ref,'surface'); q.name='other'; D.expect(n==(p.path_length1,p.path_length2,list(p.breakpoints1),p.name) and np.array_equal(b,p(p.path_length1/3,p.path_length2/3)),'the original is not modified')
def collections(D):
    rng=D.rng
    for k in range(D.n(60,600)):
        n=int(rng.integers(2,4)); mk=rand_path if k%2 else rand_surface; parts=[mk(rng) for _ in range(n)]; c=parts[0]
        for x in parts[1:]: c=c+x
        if rng.random()<.5: c.name='coll'
        t,f,ref=rand_transform(rng); D.case(parts=[str(x) for x in parts],transform=t); nm=c.name; q=f(c); a,b=(c.paths,q.paths) if k%2 else (c.surfaces,q.surfaces); D.expect(type(q) is type(c) and len(a)==len(b) and q.name==nm and c.name==nm,'collection: kind, size and name unchanged',got=q.name,want=nm)
        for x,y in zip(a,b): (cmp_path if k%2 else cmp_surf)(D,y,x,ref,'collection member')
def meshes(D):
    from .C17 import rm, snapshot, unchanged
    rng=D.rng
    def els(m,w,nm=None):
        e=np.asarray(m.lines if w=='l' else m.triangles).astype(int); g=m.physical_to_lines if w=='l' else m.physical_to_triangles
        if nm is not None: e=e[np.asarray(g[nm],int)]
        return m.points[e] if len(e) else np.empty((0,2,3))
    for _ in range(D.n(150,1500)):
        m=rm(rng,bool(rng.random()<.3))
        # keep only one kind of group structure that can be re-oriented; order inside elements may change
        t,f,ref=rand_transform(rng); s=snapshot(m); D.case(mesh=[x.tolist() for x in s[:3]],groups=(s[3],s[4]),transform=t); q=f(m); unchanged(D,m,s,'mesh'); sc=max(1.,np.abs(q.points).max() if len(q.points) else 1.,np.abs(m.points).max() if len(m.points) else 1.)
        D.expect(set(q.physical_to_lines)==set(s[3]) and set(q.physical_to_triangles)==set(s[4]),'names unchanged')
        near=False
        if len(m.points): w=np.array([ref(p) for p in m.points]); near=False
        for wch in 'lt':
            a,b=els(m,wch),els(q,wch)
            if len(a)!=len(b):
                # a triangle may only disappear when it is degenerate to within rounding
                D.expect(wch=='t' and any(.5*np.linalg.norm(np.cross(x[1]-x[0],x[2]-x[0]))<1e-9*sc*sc for x in a),'same number of elements',got=len(b),want=len(a)); continue
            for x,y in zip(a,b):
                w=np.array([ref(p) for p in x]); n=len(w); perms=[(0,1),(1,0)] if n==2 else [(0,1,2,3),(1,0,3,2)] if n==4 else [(0,1,2),(0,2,1),(1,2,0),(1,0,2),(2,0,1),(2,1,0)]; D.expect(any(np.allclose(y,w[list(p)],rtol=1e-9,atol=1e-9*sc) for p in perms),'every element is mapped',got=y,want=w)
            g=s[3] if wch=='l' else s[4]; h=q.physical_to_lines if wch=='l' else q.physical_to_triangles; D.expect(all(np.array_equal(g[k],h[k]) for k in g),'groups unchanged')
def meshed(D):
    """transform then mesh equals mesh then transform (as sets of vertices)"""
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(12,100)):
        o=G.Surface.box([0,0,0],rng.uniform(.5,2,size=3)) if rng.random()<.5 else G.Surface.sphere(1.); o.name='o'; t,f,ref=rand_transform(rng); D.case(obj=str(o),transform=t); a=f(o).mesh(mesh_size=.8); b=f(o.mesh(mesh_size=.8)); D.expect(len(a.triangles)==len(b.triangles) and len(a.physical_to_triangles['o'])==len(b.physical_to_triangles['o']),'same triangles'); va=a.points[a.triangles.astype(int)].mean(1); vb=b.points[b.triangles.astype(int)].mean(1); d=np.array([np.linalg.norm(vb-x,axis=1).min() for x in va]); D.expect(d.max()<1e-7,'mesh of the moved object is the moved mesh',got=d.max())
CASES=[('paths',paths),('surfaces',surfaces),('collections',collections),('meshes',meshes),('meshed',meshed)]
