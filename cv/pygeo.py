"""Contracts of the geometry, mesh and solver functions written in Python."""
import types
import numpy as np
from fractions import Fraction as Fr
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, vec, Unsupported
from .ctx import REPO

def loader(backend=None):
    L=Y.Loader()
    A.install(L)
    b=dict(N_QUAD_2D=16,N_TRIANGLE_QUAD=12,DERIV_2D_MAX=9,NU_MAX=4,M_MAX=8,DEBUG=False,backend_lib=Y.OpaqueFn('backend_lib'))
    names=('triangle_areas','normal_2d','normal_3d','higher_order_normal_radial','fill_jacobian_buffer_radial','fill_jacobian_buffer_3d','position_and_jacobian_radial')
    for n in names: b[n]=Y.OpaqueFn('backend.'+n)
    b.update(backend or {})
    m=types.ModuleType('traceon.backend')
    m.__dict__.update(b); m.__dict__['__getattr__']=lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Y.OpaqueFn('backend.'+n)
    L.stubs['traceon.backend']=m
    L.stub('traceon.logging',**{n:(lambda *a,**k:None) for n in('log_debug','log_info','log_warning','log_error','set_log_level')})
    return L
_NAMES=None
def repo_names():
    """names of the classes and of the functions (qualified) of the package under verification."""
    global _NAMES
    if _NAMES is None:
        import ast,glob,os
        cl,fn=set(),set()
        def vis(n,q):
            for c in ast.iter_child_nodes(n):
                if isinstance(c,(ast.ClassDef,ast.FunctionDef)):
                    qq=q+c.name; (cl if isinstance(c,ast.ClassDef) else fn).add(qq); vis(c,qq+('.' if isinstance(c,ast.ClassDef) else '.<locals>.'))
                else: vis(c,q)
        for f in glob.glob(os.path.join(REPO,'traceon','**','*.py'),recursive=True):
            try: vis(ast.parse(open(f).read()),'')
            except SyntaxError: pass
        _NAMES=(cl,fn)
    return _NAMES
def definite(e):
    """an exception no contract of a library can be responsible for: the package's own code calls its own function with a wrong
    argument list, combines its own objects with an operator they do not have, or reads a local variable before it is set."""
    import re,os
    tb=e.__traceback__
    while tb and tb.tb_next: tb=tb.tb_next
    if tb is None or os.path.join('traceon','') not in tb.tb_frame.f_code.co_filename or '/cv/' in tb.tb_frame.f_code.co_filename: return False
    cl,fn=repo_names(); m=str(e)
    if isinstance(e,UnboundLocalError): return True
    if not isinstance(e,TypeError): return False
    r=re.match(r"(?:unsupported operand type\(s\) for \S+|'\S+' not supported between instances of)[: ]+'(\w+)' and '(\w+)'",m)
    if r: a=set(r.groups()); return bool(a&cl) and a<=cl|{'int','float'}
    r=re.match(r"([\w.<>]+)\(\) (?:got multiple values for argument|missing \d+ required|takes .* positional argument|got an unexpected keyword)",m)
    return bool(r) and r.group(1) in fn
def ok(ctx,name,outs,kind='ok'):
    """every path ends normally (or with an exception when kind='raise')."""
    good=True
    if not outs: return ctx.check(name+': some path exists',False)
    for k,o in enumerate(outs):
        if o.kind==kind: continue
        good=False
        if not P.feasible(o.pc,3000): continue
        if kind=='ok' and isinstance(o.val,Exception) and definite(o.val): ctx.rec('%s: path %d ends with %s'%(name,k,type(o.val).__name__),'failed','path','%r under %s'%(o.val,[T.show(p,4) for p in o.pc][-6:])); continue
        if kind=='ok' and isinstance(o.val,(TypeError,AttributeError,ValueError,IndexError,KeyError,NameError)) and not isinstance(o.val,AssertionError):
            ctx.rec('%s: path %d ends with %s'%(name,k,type(o.val).__name__),'unsupported','path','%r (the contracts of the libraries may not cover this use)'%o.val); continue
        ctx.rec('%s: path %d ends %s'%(name,k,'normally' if kind=='ok' else 'with an error'),'failed','path','%s %r under %s'%(o.kind,o.val,[T.show(p,4) for p in o.pc][-6:]))
    if good: ctx.check('%s: all %d paths end %s'%(name,len(outs),'normally' if kind=='ok' else 'with an error'),True,method='path exploration')
    return [o for o in outs if o.kind==kind]
def nonneg(*ts): return [T.le(T.ZERO,tr(t)) for t in ts]
def pos(*ts): return [T.lt(T.ZERO,tr(t)) for t in ts]
def rot(ax,a,v):
    """anticlockwise rotation of the vector v about a coordinate axis."""
    c,s=T.cos(tr(a)),T.sin(tr(a)); x,y,z=[tr(q) for q in v]
    return {'x':[x,c*y-s*z,s*y+c*z],'y':[c*x+s*z,y,c*z-s*x],'z':[c*x-s*y,s*x+c*y,z]}[ax]
# ------------------------------------------------------------------ C19
def probe(L):
    M=L.get('traceon.mesher')
    class Probe(M.GeometricObject):
        def map_points(self,fun): return fun
    return Probe()
def transforms(L):
    """(name, apply(object), expected image of a point, precondition)"""
    p=V('d'); a=X('angle'); o=V('o')
    out=[('move(dx,dy,dz)',lambda g:g.move(p[0],p[1],p[2]),lambda q:[tr(q[i])+tr(p[i]) for i in range(3)],[])]
    for i,n in enumerate('xyz'):
        out.append(('move(d%s)'%n,lambda g,n=n,i=i:g.move(**{'d'+n:p[i]}),lambda q,i=i:[tr(q[k])+(tr(p[k]) if k==i else 0) for k in range(3)],[]))
        out.append(('rotate(R%s,origin)'%n,lambda g,n=n:g.rotate(**{'R'+n:a,'origin':list(o)}),lambda q,n=n:[tr(o[k])+r for k,r in enumerate(rot(n,a,[q[j]-o[j] for j in range(3)]))],[]))
        out.append(('rotate(R%s)'%n,lambda g,n=n:g.rotate(**{'R'+n:a}),lambda q,n=n:rot(n,a,list(q)),[]))
        out.append(('mirror_%s'%('yz','xz','xy')[i],lambda g,i=i:getattr(g,'mirror_'+('yz','xz','xy')[i])(),lambda q,i=i:[tr(q[k])*(-1 if k==i else 1) for k in range(3)],[]))
    out.append(('rotate()',lambda g:g.rotate(),lambda q:[tr(v) for v in q],[])); out.append(('move()',lambda g:g.move(),lambda q:[tr(v) for v in q],[]))
    return out
def v_transforms(ctx):
    L=loader(); g=probe(L); q=V('q'); F='traceon/mesher.py:GeometricObject.'
    for nm,ap,ref,pre in transforms(L):
        ctx.function(F+nm.split('(')[0],'image of an arbitrary point','contract')
        for k,o in enumerate(ok(ctx,nm,explore(lambda:ap(g)(q),pre))): 
            w=ref(q)
            # on the path where the angle is zero the rotation must be the identity
            sub={T.var('angle'):T.ZERO} if T.eq(T.var('angle'),T.ZERO) in o.pc else {}
            for i in range(3): ctx.zero('%s path %d: coordinate %d'%(nm,k,i),T.subst(tr(o.val[i])-w[i],sub),o.pc)
        ctx.check(nm+': the given point is not modified',all(q[i].t is T.var('q%d'%i) for i in range(3)))
    for two in(('Rx','Ry'),('Ry','Rz'),('Rx','Rz'),('Rx','Ry','Rz')):
        vs={n:X('r'+n) for n in two}
        ok(ctx,'rotate(%s) with two non-zero angles is refused'%','.join(two),explore(lambda:g.rotate(**vs),[T.bnot(T.eq(tr(v),T.ZERO)) for v in vs.values()]),'raise')
def mkpath(L,name='f',nb=2,nm='pname'):
    G=L.get('traceon.geometry'); bs=[X('%s_b%d'%(name,k)) for k in range(nb)]
    p=G.Path(FN(name),X(name+'_len'),list(bs),nm)
    pre=pos(X(name+'_len'))+[T.lt(tr(x),tr(y)) for x,y in zip([X('zero0')]+bs,bs+[X(name+'_len')])][1:]+([T.lt(T.ZERO,tr(bs[0]))] if bs else [])
    return p,pre
def mksurf(L,name='s',nb=1,nm='sname'):
    G=L.get('traceon.geometry')
    b1=[X('%s_b1%d'%(name,k)) for k in range(nb)]; b2=[X('%s_b2%d'%(name,k)) for k in range(nb)]
    return G.Surface(FN(name,3,2),X(name+'_l1'),X(name+'_l2'),b1,b2,nm),pos(X(name+'_l1'),X(name+'_l2'))
def eqs(ctx,name,got,want,pc):
    """two lists of scalars are equal."""
    got,want=list(got),list(want)
    if not ctx.check(name+': number of entries',len(got)==len(want),'%d instead of %d'%(len(got),len(want))): return False
    return all([same(ctx,'%s [%d]'%(name,k),g,w,pc) for k,(g,w) in enumerate(zip(got,want))])
def is_same(a,b): return a is b or (isinstance(a,S) and isinstance(b,S) and a.t is b.t) or (not isinstance(a,S) and not isinstance(b,S) and type(a)==type(b) and a==b)
def same_list(a,b): return len(a)==len(b) and all(is_same(x,y) for x,y in zip(a,b))
def attrs(o): return dict(vars(o))
def v_map_points(ctx):
    L=loader(); G=L.get('traceon.geometry'); h=FN('h',3,3); H=lambda p:h(p[0],p[1],p[2]); u,v=X('u'),X('v')
    ctx.trust('a path or surface is an arbitrary function of its parameters (uninterpreted); CPython executes the function bodies')
    def snap(o): return [(k,(list(x) if isinstance(x,list) else x)) for k,x in vars(o).items()]
    def unch(s,o): return all((same_list(x,getattr(o,k)) if isinstance(x,list) else getattr(o,k) is x) for k,x in s) and len(s)==len(vars(o))
    for nm in ('pname',None):
        p,pre=mkpath(L,nm=nm); s0=snap(p)
        ctx.function('traceon/geometry.py:Path.map_points','image of every point; length, breakpoints, name','contract')
        for o in ok(ctx,'Path.map_points name=%s'%nm,explore(lambda:p.map_points(H),pre)):
            q=o.val
            same(ctx,'Path.map_points name=%s: point at arbitrary u'%nm,q(u),H(p(u)),o.pc)
            same(ctx,'Path.map_points name=%s: path length'%nm,q.path_length,p.path_length,o.pc); eqs(ctx,'Path.map_points name=%s: breakpoints'%nm,q.breakpoints,p.breakpoints,o.pc)
            ctx.check('Path.map_points name=%s: name'%nm,q.name==nm,repr(vars(q)))
            ctx.check('Path.map_points name=%s: original unchanged, new object'%nm,unch(s0,p) and q is not p)
        s,pre=mksurf(L,nm=nm); s0=snap(s)
        ctx.function('traceon/geometry.py:Surface.map_points','image of every point; lengths, breakpoints, name','contract')
        for o in ok(ctx,'Surface.map_points name=%s'%nm,explore(lambda:s.map_points(H),pre)):
            q=o.val
            same(ctx,'Surface.map_points name=%s: point at arbitrary u,v'%nm,q(u,v),H(s(u,v)),o.pc)
            same(ctx,'Surface.map_points name=%s: lengths'%nm,[q.path_length1,q.path_length2],[s.path_length1,s.path_length2],o.pc)
            for w in('breakpoints1','breakpoints2'): eqs(ctx,'Surface.map_points name=%s: %s'%(nm,w),getattr(q,w),getattr(s,w),o.pc)
            ctx.check('Surface.map_points name=%s: name'%nm,q.name==nm,repr(vars(q)))
            ctx.check('Surface.map_points name=%s: original unchanged'%nm,unch(s0,s) and q is not s)
    for kind in('Path','Surface'):
        ctx.function('traceon/geometry.py:%sCollection.map_points'%kind,'image of every member (collections of 1 to 3 members)','bounded')
        for n in(1,2,3):
            for nm in('cname',None):
                if kind=='Path': ms=[mkpath(L,'f%d'%k,nm='m%d'%k)[0] for k in range(n)]; c=G.PathCollection(list(ms)); get=lambda c:c.paths; ev=lambda m:m(u)
                else: ms=[mksurf(L,'s%d'%k,nm='m%d'%k)[0] for k in range(n)]; c=G.SurfaceCollection(list(ms)); get=lambda c:c.surfaces; ev=lambda m:m(u,v)
                if nm: c._name=nm
                s0=[snap(m) for m in ms]
                for o in ok(ctx,'%sCollection(%d).map_points'%(kind,n),explore(lambda:c.map_points(H))):
                    q=o.val; lab='%sCollection(%d,%s).map_points'%(kind,n,nm)
                    ctx.check(lab+': same number of members, same collection name, member names kept',type(q) is type(c) and len(get(q))==n and q.name==nm and c.name==nm and [m.name for m in get(q)]==['m%d'%k for k in range(n)],bounded=True)
                    if len(get(q))==n:
                        for k in range(n): same(ctx,lab+': member %d'%k,ev(get(q)[k]),H(ev(ms[k])),o.pc)
                    ctx.check(lab+': originals unchanged',all(unch(a,b) for a,b in zip(s0,ms)) and same_list(get(c),ms),bounded=True)
    ctx.bounded.append('collections: 1 to 3 members (the member is arbitrary)')
# ------------------------------------------------------------------ meshes
NP,NL,NT=X('n_points','I'),X('n_lines','I'),X('n_triangles','I')
def record_init(M):
    """replace the mesh constructor by a recorder of its arguments (its own contract is established separately)."""
    def init(self,points=[],lines=[],triangles=[],physical_to_lines={},physical_to_triangles={},ensure_outward_normals=True):
        self.points=points; self.lines=lines; self.triangles=triangles; self.physical_to_lines=physical_to_lines; self.physical_to_triangles=physical_to_triangles; self.ensure_flag=ensure_outward_normals
    M.Mesh.__init__=init
def sorted_groups(names,tag,n):
    return {nm:A.arr('%s_%s'%(tag,nm),X('%s_%s_len'%(tag,nm),'I'),(),np.int64) for nm in names}
def mkmesh(M,tag='',lw=2,tw=3,lg=('a',),tg=('b',)):
    """an arbitrary valid mesh: element indices below the number of points, group indices below the number of elements."""
    m=M.Mesh.__new__(M.Mesh)
    np_,nl,nt=X(tag+'n_points','I'),X(tag+'n_lines','I'),X(tag+'n_triangles','I')
    m.points=A.arr(tag+'points',np_,(3,)); m.lines=A.arr(tag+'lines',nl,(lw,),np.uint64); m.triangles=A.arr(tag+'triangles',nt,(tw,),np.uint64)
    m.physical_to_lines=sorted_groups(lg,tag+'gl',nl); m.physical_to_triangles=sorted_groups(tg,tag+'gt',nt)
    pre=[T.le(T.IZERO,tt_(x)) for x in(np_,nl,nt)]+[T.le(T.IZERO,g.n) for g in list(m.physical_to_lines.values())+list(m.physical_to_triangles.values())]
    return m,pre
def tt_(x): return Y.tt(x)
def valid(m,kind,k):
    """validity of element k: its indices refer to points."""
    a=getattr(m,kind); 
    return T.implies(A.inrange(k,a.n),T.band(*[A.inrange(tn(x),m.points.n) for x in np.ravel(a.elem(k))]))
def gvalid(m,kind,nm,k):
    g=(m.physical_to_lines if kind=='lines' else m.physical_to_triangles)[nm]
    return T.implies(A.inrange(k,g.n),A.inrange(tn(g.elem(k)),getattr(m,kind).n))
def vertex(m,kind,k):
    """coordinates of the vertices of element k."""
    a=A.lift_arr(getattr(m,kind)); p=A.lift_arr(m.points)
    return [p.elem(tn(x)) for x in np.ravel(a.elem(k))]
def flat(vs): return np.array([x for v in vs for x in np.ravel(v)],object)
def snap_mesh(m): return (m.points,m.points.elem,m.lines,m.lines.elem,m.triangles,m.triangles.elem,m.physical_to_lines,dict(m.physical_to_lines),[g.elem for g in m.physical_to_lines.values()],m.physical_to_triangles,dict(m.physical_to_triangles),[g.elem for g in m.physical_to_triangles.values()])
def same_snap(s,m):
    t=snap_mesh(m)
    return all((x is y) or (isinstance(x,dict) and list(x)==list(y) and all(x[k] is y[k] for k in x)) or (isinstance(x,list) and len(x)==len(y) and all(p is q for p,q in zip(x,y))) for x,y in zip(s,t))
K=T.var('k','I')
def v_mesh_map(ctx):
    L=loader(); M=L.get('traceon.mesher'); record_init(M)
    h=FN('h',3,3); H=lambda p:h(p[0],p[1],p[2])
    ctx.function('traceon/mesher.py:Mesh.map_points','image of every vertex of a mesh of any size; elements and groups handed on unchanged','contract')
    box={}
    def run():
        m,_=mkmesh(M); box['m']=m; box['s']=snap_mesh(m)
        return m.map_points(H),m,same_snap(box['s'],m)
    pre=mkmesh(M)[1]
    outs=ok(ctx,'Mesh.map_points',explore(run,pre))
    for k,o in enumerate(outs):
        q,m,un=o.val; pc=o.pc+[A.inrange(K,m.points.n)]
        ctx.check('Mesh.map_points path %d: original unchanged'%k,un)
        A.prove(ctx,'Mesh.map_points path %d: as many points'%k,T.eq(A.lift_arr(q.points).n,m.points.n),o.pc)
        A.prove_eq(ctx,'Mesh.map_points path %d: point k is the image of point k'%k,A.lift_arr(q.points).elem(K),H(m.points.elem(K)),pc)
        for w in('lines','triangles'):
            a=A.lift_arr(getattr(q,w)); b=getattr(m,w)
            A.prove(ctx,'Mesh.map_points path %d: as many %s'%(k,w),T.eq(a.n,b.n),o.pc); A.prove_eq(ctx,'Mesh.map_points path %d: %s unchanged'%(k,w),a.elem(K),b.elem(K),o.pc+[A.inrange(K,b.n)])
            g,g0=getattr(q,'physical_to_'+w),getattr(m,'physical_to_'+w)
            if ctx.check('Mesh.map_points path %d: names of %s unchanged'%(k,w),list(g)==list(g0)):
                for x in g:
                    a,b=A.lift_arr(g[x]),g0[x]
                    A.prove(ctx,'Mesh.map_points path %d: size of group %s'%(k,x),T.eq(a.n,b.n),o.pc); A.prove_eq(ctx,'Mesh.map_points path %d: group %s unchanged'%(k,x),a.elem(K),b.elem(K),o.pc+[A.inrange(K,b.n)])
    A.events(ctx,'Mesh.map_points',outs)
