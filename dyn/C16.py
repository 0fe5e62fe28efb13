import numpy as np, math
from . import lib as L
TOL=2.2e-11
def soup(rng,ho=False,tri=True,lines=True):
    """random mesh arrays with shared, duplicated and near-duplicated points, degenerate triangles, names with overlapping groups"""
    n=int(rng.integers(3,14)); P=rng.normal(size=(n,3))*10.**rng.integers(-2,3)
    if rng.random()<.4: P=np.round(P*2)/2
    if rng.random()<.3: P[:,1]=0.
    k=int(rng.integers(0,n)); dup=P[rng.integers(0,n,size=k)] if k else np.empty((0,3))
    if k and rng.random()<.6: dup=dup*(1+1e-14*rng.integers(-3,4,size=dup.shape))
    if k and rng.random()<.3: dup=-dup*0. + dup  # signed zeros
    P=np.vstack([P,dup])[rng.permutation(n+k)]; N=len(P)
    nl=int(rng.integers(0,8)) if lines else 0; nt=int(rng.integers(0,8)) if tri else 0
    Ls=rng.integers(0,N,size=(nl,4 if ho else 2)); Ts=rng.integers(0,N,size=(nt,3))
    pl={}; pt={}
    for nm in rng.permutation(['a','b','c'])[:rng.integers(0,4)]:
        if nl and rng.random()<.7: pl[str(nm)]=rng.permutation(nl)[:rng.integers(0,nl+1)]
        if nt and rng.random()<.7: pt[str(nm)]=rng.permutation(nt)[:rng.integers(0,nt+1)]
    return P,Ls,Ts,pl,pt
def same_pts(a,b): return np.all(np.abs(a-b)<=TOL*np.maximum(np.abs(a),np.abs(b)),axis=-1)
def match(D,got,want,what,ordered_groups=None):
    """got element vertices equal want's up to tolerance and vertex order within the element (line4: ends swap with inner nodes)"""
    D.expect(got.shape==want.shape,what+': number of elements',got=got.shape,want=want.shape)
    for g,w in zip(got,want):
        m=len(g)
        if m==2: perms=[(0,1),(1,0)]
        elif m==4: perms=[(0,1,2,3),(1,0,3,2)]
        else: perms=[(0,1,2),(0,2,1),(1,2,0),(1,0,2),(2,0,1),(2,1,0)]
        D.expect(any(np.all(same_pts(g,w[list(p)])) for p in perms),what+': element keeps its vertices',got=g,want=w)
def check(D,m,P,Ls,Ts,pl,pt,what):
    l,t=np.asarray(m.lines),np.asarray(m.triangles); N=len(m.points)
    D.expect(all(((a.astype(object)>=0)&(a.astype(object)<N)).all() for a in(l,t) if a.size),what+': element indices exist')
    D.expect(all(len(g)==0 or (np.min(g)>=0 and np.max(g)<len(l)) for g in m.physical_to_lines.values()) and all(len(g)==0 or (np.min(g)>=0 and np.max(g)<len(t)) for g in m.physical_to_triangles.values()),what+': group indices exist')
    D.expect(set(m.physical_to_lines)==set(pl) and set(m.physical_to_triangles)==set(pt),what+': names')
    if len(Ls): match(D,m.points[l.astype(int)],P[Ls],what+' lines')
    for k in pl: D.expect(np.array_equal(np.asarray(m.physical_to_lines[k],int),np.asarray(pl[k],int)),what+': line groups',group=k)
    if len(Ts):
        T=P[Ts]; ar=np.array([.5*np.linalg.norm(np.cross(q[1]-q[0],q[2]-q[0])) for q in T]); sure=ar>1.01e-12; maybe=(ar>.9e-12)&~sure
        if maybe.any(): return
        idx=np.flatnonzero(sure); match(D,m.points[t.astype(int)],T[idx],what+' triangles'); new={int(o):i for i,o in enumerate(idx)}
        for k in pt: D.expect(sorted(new[int(o)] for o in pt[k] if int(o) in new)==sorted(map(int,m.physical_to_triangles[k])),what+': triangle groups survive',group=k,got=m.physical_to_triangles[k],want=[new[int(o)] for o in pt[k] if int(o) in new])
    p=np.asarray(m.points).copy()
    if len(p):
        u=p.view(np.uint64)&np.uint64(0xFFFFFFFFFFFF0000); D.expect(len(np.unique(u.view(float),axis=0))==len(p),what+': no duplicated points left')
def build(D):
    import traceon.mesher as M
    rng=D.rng
    for _ in range(D.n(500,6000)):
        ho=bool(rng.random()<.3); P,Ls,Ts,pl,pt=soup(rng,ho); out=bool(rng.random()<.4) and not ho
        if out:
            # orientation is only meaningful for groups of non-degenerate lines
            pl={k:v for k,v in pl.items() if all(not same_pts(P[Ls[i][0]],P[Ls[i][1]]) for i in v)}
        D.case(points=P,lines=Ls,triangles=Ts,groups_l={k:v.tolist() for k,v in pl.items()},groups_t={k:v.tolist() for k,v in pt.items()},ensure_outward=out)
        a=(P.copy(),Ls.copy(),Ts.copy(),{k:v.copy() for k,v in pl.items()},{k:v.copy() for k,v in pt.items()})
        try: m=M.Mesh(points=P,lines=Ls,triangles=Ts,physical_to_lines=pl,physical_to_triangles=pt,ensure_outward_normals=out)
        except Exception:
            if not out: raise
            continue   # a random soup need not be orientable
        check(D,m,*a,'mesh construction')
        D.expect(np.array_equal(P,a[0]) and np.array_equal(Ls,a[1]) and np.array_equal(Ts,a[2]) and all(np.array_equal(pl[k],a[3][k]) for k in pl) and all(np.array_equal(pt[k],a[4][k]) for k in pt) and set(pl)==set(a[3]),'arguments are not modified')
        big=m.points[np.asarray(m.triangles).astype(int)] if len(m.triangles) else np.empty((0,3,3))
        if any(.5*np.linalg.norm(np.cross(q[1]-q[0],q[2]-q[0]))<1e-9*(1+np.abs(P).max())**2 for q in big): continue
        m2=M.Mesh(points=m.points,lines=m.lines,triangles=m.triangles,physical_to_lines=m.physical_to_lines,physical_to_triangles=m.physical_to_triangles,ensure_outward_normals=False); check(D,m2,np.array(m.points),np.asarray(m.lines).astype(int),np.asarray(m.triangles).astype(int),m.physical_to_lines,m.physical_to_triangles,'cleanup is idempotent')
        D.expect(len(m2.points)==len(m.points) and len(m2.triangles)==len(m.triangles),'cleanup is idempotent')
def thresholds(D):
    """triangles of tiny but sufficient area stay, those below go; points separated by more than the tolerance stay apart"""
    import traceon.mesher as M
    rng=D.rng
    for _ in range(D.n(200,2000)):
        a=10.**rng.uniform(-14,-9)
        if .9e-12<a<1.1e-12: continue
        R=L.rand_rot(rng); b=rng.uniform(.5,2)*1e-5; h=2*a/b; T=np.array([[0,0,0],[b,0,0],[rng.uniform(0,b),h,0]])@R.T; U=rng.normal(size=(3,3)); P=np.vstack([T,U]); D.case(area=a,triangle=T)
        m=M.Mesh(points=P,triangles=[[0,1,2],[3,4,5]],physical_to_triangles={'s':np.array([0]),'u':np.array([1]),'b':np.array([1,0])},ensure_outward_normals=False); keep=a>1e-12
        D.expect(len(m.triangles)==1+keep,'degenerate triangles have area below 1e-12',kept=len(m.triangles)); D.expect(len(m.physical_to_triangles['s'])==keep and len(m.physical_to_triangles['u'])==1 and len(m.physical_to_triangles['b'])==1+keep,'groups follow')
        D.expect(np.all(same_pts(m.points[m.triangles[m.physical_to_triangles['u'][0]].astype(int)],U)),'the other triangle is kept in its group')
        x=rng.normal(size=3)*10.**rng.integers(-3,4); ax=int(rng.integers(0,3)); y=x.copy(); y[ax]*=1+rng.choice([-1,1])*10.**rng.uniform(-10.6,-6); D.case(p=x,q=y)
        m=M.Mesh(points=[x,y],lines=[[0,1]],physical_to_lines={'l':np.array([0])},ensure_outward_normals=False); D.expect(len(m.points)==2,'points further apart than the tolerance are not merged'); match(D,m.points[m.lines.astype(int)],np.array([[x,y]]),'line between close points')
def library(D):
    """meshes returned by every mesh-producing operation are valid"""
    import traceon.geometry as G, traceon.mesher as M
    rng=D.rng
    def valid(m,what):
        for els,gr in((m.lines,m.physical_to_lines),(m.triangles,m.physical_to_triangles)):
            e=np.asarray(els); D.expect(e.size==0 or (int(e.max())<len(m.points)),what+': element indices exist')
            for k,g in gr.items(): D.expect(len(g)==0 or (int(np.max(g))<len(e) and int(np.min(g))>=0),what+': group indices exist',group=k)
    for _ in range(D.n(12,100)):
        s=G.Surface.sphere(rng.uniform(.5,2)); s.name='s'; b=G.Surface.box(rng.normal(size=3),rng.normal(size=3)+4); b.name='b'; p=G.Path.rectangle_xz(1,2,3,4); p.name='p'; D.case(objects='sphere box path')
        ms=[s.mesh(mesh_size_factor=2),b.mesh(mesh_size=2.),p.mesh(mesh_size=.3,higher_order=False)]; t=ms[0]+ms[1]+ms[2]
        for m in ms+[t,t.flip_normals(),t.move(dx=1.),t.rotate(Rx=.3),t.mirror_xy(),t.remove_lines(),t.remove_triangles(),t._to_higher_order_mesh()]+[t.extract_physical_group(k) for k in 'sbp']: valid(m,'library mesh')
        D.expect(set(t.physical_to_lines)=={'p'} and set(t.physical_to_triangles)=={'s','b'},'names')
def roundtrip(D):
    import traceon.mesher as M
    rng=D.rng
    import meshio
    for k in range(D.n(90,900)):
        ho=k%3==2; P,Ls,Ts,pl,pt=soup(rng,ho); gl,gt=pl,pt; pl={};pt={}; D.case(points=P,lines=Ls,triangles=Ts); m=M.Mesh(points=P,lines=Ls,triangles=Ts,ensure_outward_normals=False); w=m.to_meshio(); q=M.Mesh.from_meshio(w); check(D,q,np.array(m.points),np.asarray(m.lines).astype(int),np.asarray(m.triangles).astype(int),{},{},'conversion to meshio and back')
        want={}
        if len(m.lines): want['line4' if ho else 'line']=np.asarray(m.lines).astype(int)
        if len(m.triangles): want['triangle']=np.asarray(m.triangles).astype(int)
        D.expect(set(w.cells_dict)==set(want) and all(np.array_equal(np.asarray(w.cells_dict[x]).astype(int),want[x]) for x in want) and np.array_equal(w.points,m.points),'meshio cells have the type of the elements',got=sorted(w.cells_dict),want=sorted(want))
        # a meshio mesh with named cell sets
        if len(Ls) and len(Ts) and not (set(gl)&set(gt)):
            z=np.array([],dtype=int); src=meshio.Mesh(P,[('line4' if ho else 'line',Ls),('triangle',Ts)],cell_sets={**{n:[np.asarray(x,int),z] for n,x in gl.items() if len(x)},**{n:[z,np.asarray(x,int)] for n,x in gt.items() if len(x)}})
            q=M.Mesh.from_meshio(src); T=P[Ts]; ar=.5*np.linalg.norm(np.cross(T[:,1]-T[:,0],T[:,2]-T[:,0]),axis=1)
            if np.any((ar<1.01e-12)): continue
            D.expect(len(q.lines)==len(Ls) and len(q.triangles)==len(Ts),'all elements read'); 
            for n,x in gl.items():
                if len(x): D.expect(np.array_equal(np.sort(np.asarray(q.physical_to_lines[n]).astype(int)),np.sort(x)),'cell sets of lines become groups',group=n)
            for n,x in gt.items():
                if len(x): D.expect(np.array_equal(np.sort(np.asarray(q.physical_to_triangles[n]).astype(int)),np.sort(x)),'cell sets of triangles become groups',group=n)
CASES=[('construction',build),('thresholds',thresholds),('library',library),('meshio',roundtrip)]
