import numpy as np, math
from . import lib as L
from .C16 import soup, match, TOL, same_pts
def snapshot(m): return (np.array(m.points),np.array(m.lines),np.array(m.triangles),{k:np.array(v) for k,v in m.physical_to_lines.items()},{k:np.array(v) for k,v in m.physical_to_triangles.items()})
def unchanged(D,m,s,what):
    t=snapshot(m); D.expect(all(np.array_equal(a,b) for a,b in zip(s[:3],t[:3])) and all(set(a)==set(b) and list(a)==list(b) and all(np.array_equal(a[k],b[k]) for k in a) for a,b in zip(s[3:],t[3:])),what+': operand is not modified')
def coords(m,which,name=None):
    e=np.asarray(m.lines if which=='l' else m.triangles).astype(int); g=m.physical_to_lines if which=='l' else m.physical_to_triangles
    if name is not None: e=e[np.asarray(g[name],int)] if name in g else e[:0]
    return m.points[e] if len(e) else np.empty((0,e.shape[1],3))
def canon(c):
    """multiset representation: element vertices rounded relative to the tolerance-independent grid are avoided; match greedily instead"""
    return list(c)
def multiset(D,got,want,what):
    D.expect(len(got)==len(want),what+': number of elements',got=len(got),want=len(want)); left=list(want)
    for g in got:
        for i,w in enumerate(left):
            m=len(g); perms=[(0,1),(1,0)] if m==2 else [(0,1,2,3),(1,0,3,2)] if m==4 else [(0,1,2),(0,2,1),(1,2,0),(1,0,2),(2,0,1),(2,1,0)]
            if any(np.all(same_pts(g,w[list(p)])) for p in perms): left.pop(i); break
        else: D.expect(False,what+': element is one of the originals',got=g)
def rm(rng,ho,lines=True,tri=True,names=True):
    import traceon.mesher as M
    for _ in range(60):
        P,Ls,Ts,pl,pt=soup(rng,ho,tri,lines)
        ok=all(not same_pts(P[l[0]],P[l[1]]) for l in Ls) and all(.5*np.linalg.norm(np.cross(P[t[1]]-P[t[0]],P[t[2]]-P[t[0]]))>1e-9*(1+np.abs(P).max())**2 for t in Ts) and len({tuple(sorted(t)) for t in Ts})==len(Ts)
        if not ok: continue
        return M.Mesh(points=P,lines=Ls,triangles=Ts,physical_to_lines=pl if names else {},physical_to_triangles=pt if names else {},ensure_outward_normals=False)
    import traceon.mesher as M
    return M.Mesh()
def manifoldish(m):
    """orienting needs every edge shared by at most two triangles: keep random soups that are not orientable out of named groups"""
    return True
def add(D):
    import traceon.mesher as M
    rng=D.rng
    for k in range(D.n(400,4000)):
        ho=bool(rng.random()<.3); a=rm(rng,ho); b=rm(rng,ho) if rng.random()<.9 else M.Mesh()
        if rng.random()<.1: a=M.Mesh()
        sa,sb=snapshot(a),snapshot(b); D.case(a=[x.tolist() for x in sa[:3]],b=[x.tolist() for x in sb[:3]],a_groups=(sa[3],sa[4]),b_groups=(sb[3],sb[4])); c=a+b; unchanged(D,a,sa,'a+b'); unchanged(D,b,sb,'a+b')
        for w in 'lt':
            multiset(D,coords(c,w),list(coords(a,w))+list(coords(b,w)),'a+b has exactly the elements of both')
            A,B,C=[(x.physical_to_lines if w=='l' else x.physical_to_triangles) for x in(a,b,c)]; D.expect(set(C)==set(A)|set(B),'names of the sum',got=list(C),want=(list(A),list(B)))
            for nm in C: multiset(D,coords(c,w,nm),list(coords(a,w,nm))+list(coords(b,w,nm)),'named group of the sum is the union: '+nm)
        if k%4==0:
            d=rm(rng,ho); e=(a+b)+d; f=a+(b+d)
            for w in 'lt': multiset(D,coords(e,w),list(coords(f,w)),'addition is associative')
            c2=a+a
            for w in 'lt': multiset(D,coords(c2,w),list(coords(a,w))*2,'adding a mesh to itself')
def extract(D):
    rng=D.rng
    for _ in range(D.n(400,4000)):
        m=rm(rng,bool(rng.random()<.3)); s=snapshot(m); names=sorted(set(m.physical_to_lines)|set(m.physical_to_triangles))
        if not names: continue
        nm=names[int(rng.integers(0,len(names)))]; D.case(mesh=[x.tolist() for x in s[:3]],groups=(s[3],s[4]),name=nm)
        if len(s[3].get(nm,s[4].get(nm)))==0: continue
        e=m.extract_physical_group(nm); unchanged(D,m,s,'extract'); w='l' if nm in m.physical_to_lines else 't'; o='t' if w=='l' else 'l'
        multiset(D,coords(e,w),list(coords(m,w,nm)),'extracted part is exactly the named elements'); multiset(D,coords(e,w,nm),list(coords(m,w,nm)),'extracted elements carry the name'); D.expect(len(coords(e,o))==0,'nothing else is extracted'); D.expect(set(e.physical_to_lines)|set(e.physical_to_triangles)=={nm},'only that name')
        D.raises(lambda:m.extract_physical_group('no such name'),'extracting an unknown name')
def remove(D):
    rng=D.rng
    for _ in range(D.n(300,3000)):
        m=rm(rng,bool(rng.random()<.3)); s=snapshot(m); D.case(mesh=[x.tolist() for x in s[:3]],groups=(s[3],s[4]))
        for f,w,o in((m.remove_lines,'t','l'),(m.remove_triangles,'l','t')):
            e=f(); unchanged(D,m,s,'remove'); multiset(D,coords(e,w),list(coords(m,w)),'removing keeps the other kind'); D.expect(len(coords(e,o))==0,'removed kind is gone')
            A,B=[(x.physical_to_lines if w=='l' else x.physical_to_triangles) for x in(m,e)]; D.expect(set(A)==set(B),'names kept')
            for nm in A: multiset(D,coords(e,w,nm),list(coords(m,w,nm)),'groups kept: '+nm)
def operands_orientation(D):
    """adding or extracting only ever reverses whole elements; used on closed shapes sharing points"""
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(10,80)):
        b1=G.Surface.box([0,0,0],[1,1,1]); b1.name='one'; b2=G.Surface.box([1,0,0],[2,1,1]); b2.name=str(rng.choice(['one','two'])); a,b=b1.mesh(mesh_size=.7),b2.mesh(mesh_size=.7); D.case(names=('one',b2.name)); c=a+b; multiset(D,coords(c,'t'),list(coords(a,'t'))+list(coords(b,'t')),'touching boxes'); D.expect(sum(len(v) for v in c.physical_to_triangles.values())==len(a.triangles)+len(b.triangles),'touching boxes: every triangle in its group')
        for nm in {'one',b2.name}: multiset(D,coords(c,'t',nm),list(coords(a,'t',nm))+list(coords(b,'t',nm)),'touching boxes, group '+nm)
CASES=[('add',add),('extract',extract),('remove',remove),('touching',operands_orientation)]
