"""Contracts of the orientation code of the mesher (C18): vertex maps, neighbours, the breadth of the graph walk that makes all
elements of a connected surface/path agree, the outward test, and the commands built on them.  The walks over a work list are
proved with an inductive invariant over an arbitrary state (uninterpreted rows, marks and work list)."""
import itertools, numpy as np
from fractions import Fraction as Fr
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, explore, tb, tn, tr, tt, Unsupported, Infeasible, branch, assume, fresh
from .pygeo import loader, ok
F='traceon/mesher.py:'
I,J,VV=T.var('i_any','I'),T.var('j_any','I'),T.var('v_any','I')
ONE=T.IONE
def bf(name,*a): return T.eq(T.fun_i(name,*a),ONE)
def iff(p,q): return T.bor(T.band(p,q),T.band(T.bnot(p),T.bnot(q)))
def rng(i,n): return T.band(T.le(T.IZERO,i),T.lt(i,n))
def soft(ctx,name,goal,pc,timeout=15000):
    """an obligation about the invariant of a graph walk: proved, or not decided (another algorithm may need another invariant)."""
    if goal is T.TRUE: return ctx.rec(name,'proved','const')
    r=P.prove_bool(goal,[p for p in pc if p is not T.TRUE],timeout)
    return ctx.rec(name,'proved' if r.status=='proved' else 'unknown',r.method,'' if r.status=='proved' else T.show(goal,6))
def dyn_loader(displays,w):
    L=loader(); L.displays=displays
    L.extra_builtins=dict(L.extra_builtins); L.extra_builtins['__vp_list__']=lambda x:w.mklist(x); L.extra_builtins['__vp_dict__']=lambda x:w.mkdict(x)
    o=L.extra_builtins['enumerate']
    L.extra_builtins['enumerate']=lambda x,*a: x.enum() if hasattr(x,'enum') else o(x,*a)
    r=L.extra_builtins['range']; L.extra_builtins['range']=lambda *a: w.rows.indices() if len(a)==1 and isinstance(a[0],S) and hasattr(w,'rows') and hasattr(w.rows,'indices') and a[0].t is w.rows.n else r(*a)
    return L
# ------------------------------------------------------------------ the walk
class Row:
    def __init__(s,m,i): s.m=m; s.i=i; s.v=[S(x) for x in m.row(i)]
    @property
    def shape(s): return (len(s.v),)
    def __len__(s): return len(s.v)
    def __iter__(s): return iter(s.v)
    def __getitem__(s,k):
        if isinstance(k,(list,np.ndarray)): return [s.v[int(x)] for x in k]
        return s.v[k]
class Rows:
    """the element array: as many rows as elements, each a row of vertex indices."""
    __sarr__=True; dtype=np.dtype(np.uint64)
    def __init__(s,m): s.m=m
    def __slen__(s): return S(s.m.N)
    @property
    def shape(s): return (S(s.m.N),s.m.w)
    def __getitem__(s,k):
        if isinstance(k,tuple):
            if len(k)==2 and isinstance(k[0],slice) and k[0]==slice(None) and isinstance(k[1],slice) and k[1].start in(None,0) and k[1].step is None: return Corner(s,k[1].stop)
            if len(k)==2 and not isinstance(k[0],slice): return Row(s.m,tn(k[0]))[k[1]]
            raise Unsupported('row access %r'%(k,))
        if isinstance(k,slice): raise Unsupported('rows %r'%k)
        return Row(s.m,tn(k))
    def __setitem__(s,k,v):
        v=list(v)
        if len(v)!=s.m.w: raise Unsupported('row of %d vertices'%len(v))
        s.m.rowlog.append((tn(k),[tn(x) for x in v]))
    def __iter__(s): raise Unsupported('iteration over the rows')
    @property
    def ctypes(s): return Ct(s)
class Corner:
    def __init__(s,a,w): s.a=a; s.w=w
class Ct:
    def __init__(s,a): s.a=a
    def data_as(s,ty): return ('ptr',s.a)
class Pts:
    __sarr__=True; dtype=np.dtype(np.float64)
    @property
    def ctypes(s): return Ct(s)
class Marks:
    """the boolean array of visited elements."""
    __sarr__=True
    def __init__(s,m): s.m=m
    def __slen__(s): return S(s.m.N)
    def __getitem__(s,k): return S(s.m.o(tn(k)))
    def __setitem__(s,k,v): s.m.olog.append((tn(k),tb(v)))
class Work(list):
    def __init__(s,m,x): list.__init__(s,x); s.m=m; s.sym=False
    def __bool__(s): return s.m.head(s)
    def __slen__(s):
        return (1 if s.m.head(s) else 0)
    def append(s,x):
        if not s.sym: list.append(s,x)
        s.m.alog.append((tn(x),T.TRUE))
    def extend(s,x): raise Unsupported('extend')
    def pop(s,*k):
        m=s.m
        if not s.sym:
            x=list.pop(s,*k); m.alog.append((tn(x),T.FALSE)); return x
        t=fresh('ti','I').t; m.terms.append(t); assume(rng(t,m.N)); assume(m.a(t)); m.alog.append((t,T.FALSE))
        return S(t)
class Walk:
    def __init__(s,w,kind):
        s.w=w; s.kind=kind; s.N=T.var('number_of_elements','I'); s.reset()
    def reset(s):
        s.rowbase='free_v'; s.rowlog=[]; s.obase=None; s.olog=[]; s.abase=None; s.alog=[]; s.terms=[T.IZERO,I,J]; s.facts=[]; s.obs=[]; s.phase=0; s.work=None; s.ver=0; s.errors=[]
    # state as functions of the index
    def row(s,i,st=None):
        base,log=st or (s.rowbase,s.rowlog)
        r=[T.fun_i('%s_%d'%(base,c),i) for c in range(s.w)]
        for k,v in log: r=[T.ite(T.eq(i,k),a,b) for a,b in zip(v,r)]
        return r
    def orig(s,i): return [T.fun_i('free_v_%d'%c,i) for c in range(s.w)]
    @staticmethod
    def fold(i,base,log):
        r=base
        for k,v in log: r=T.ite(T.eq(i,k),v,r)
        return r
    def o(s,i): return s.fold(i,T.FALSE if s.obase is None else bf(s.obase,i),s.olog)
    def a(s,i): return s.fold(i,T.FALSE if s.abase is None else bf(s.abase,i),s.alog)
    def snap(s):
        x=(s.rowbase,list(s.rowlog)),(s.obase,list(s.olog)),(s.abase,list(s.alog))
        b=lambda q:(lambda i: s.fold(i,T.FALSE if q[0] is None else bf(q[0],i),q[1]))
        return (lambda i,x=x: s.row(i,x[0])),b(x[1]),b(x[2])
    def perms(s):
        if s.w==3: return [(0,1,2),(1,2,0),(2,0,1)],[(0,2,1),(1,0,2),(2,1,0)]
        return ([(0,1)],[(1,0)]) if s.w==2 else ([(0,1,2,3)],[(1,0,3,2)])
    def even(s,row,i): v=s.orig(i); return T.bor(*[T.band(*[T.eq(row[c],v[p[c]]) for c in range(s.w)]) for p in s.perms()[0]])
    def odd(s,row,i): v=s.orig(i); return T.bor(*[T.band(*[T.eq(row[c],v[p[c]]) for c in range(s.w)]) for p in s.perms()[1]])
    def X(s,row,i): return T.bnot(iff(bf('free_s',i),s.odd(row(i),i)))     # orientation of element i in the surface
    def adj(s,i,j): return bf('free_adj',i,j)
    def given(s):
        """the input: non degenerate elements, symmetric adjacency."""
        out=[T.lt(T.IZERO,s.N)]
        for i in s.terms:
            v=s.orig(i); nv=min(s.w,3) if s.w!=4 else 4
            out+=[T.implies(rng(i,s.N),T.bnot(T.eq(v[a],v[b]))) for a in range(nv) for b in range(a)]
            for j in s.terms: out.append(iff(s.adj(i,j),s.adj(j,i)))
        out+=[rng(I,s.N),rng(J,s.N)]
        return out
    def inv(s,st,i,j,inner=None):
        row,o,a=st; r=row(i)
        c=[('the element keeps its vertices (reversed or not)',T.bor(s.even(r,i),s.odd(r,i))),('a visited element agrees with element 0',T.implies(o(i),iff(s.X(row,i),s.X(row,T.IZERO)))),('the work list holds visited elements',T.implies(a(i),o(i))),('element 0 is visited',o(T.IZERO))]
        d=[o(i),T.bnot(a(i)),s.adj(i,j)]
        if inner is not None: d.append(T.bnot(T.eq(i,inner))); c.append(('the current element is visited',o(inner)))
        c.append(('all neighbours of a finished element are visited',T.implies(T.band(*d),o(j))))
        return c
    def want(s,name,goal):
        s.obs.append((name,goal,s.hyps()))
    def hyps(s):
        h=list(Y.cur.pc)+s.given()
        for f in s.facts:
            for i in s.terms:
                for j in s.terms: h+=[T.implies(T.band(rng(i,s.N),rng(j,s.N)),q) for q in f(i,j)]
        return h
    def check(s,tag,inner=None):
        st=s.snap()
        for n,g in s.inv(st,I,J,inner): s.want('%s: %s'%(tag,n),g)
    def havoc(s,inner=None):
        s.ver+=1; s.rowbase='free_r%d'%s.ver; s.rowlog=[]; s.obase='free_o%d'%s.ver; s.olog=[]; s.abase='free_a%d'%s.ver; s.alog=[]
        st=s.snap(); s.facts=[lambda i,j:[g for _,g in s.inv(st,i,j,inner)]]
    def head(s,work):
        if s.work is None: s.work=work
        if work is not s.work: raise Unsupported('two work lists')
        s.phase+=1
        if s.phase==1: return list.__len__(work)>0
        if s.phase==2:
            s.check('after the first element'); s.havoc(); work.sym=True
            a=s.snap()[2]
            if branch(T.eq(fresh('more','I').t,ONE)): return True
            s.facts.append(lambda i,j:[T.bnot(a(i))]); s.phase=99
            return False
        if s.phase==3: s.check('after an arbitrary element of the work list')
        raise Infeasible()
    def mklist(s,x):
        return Work(s,x) if list(x)==[0] else list(x)
    def mkdict(s,x): return dict(x)
    def start(s):
        s.alog.append((T.IZERO,T.TRUE))
class Nb:
    """the elements that have a vertex in common with the given one, itself included; the list of element 0 begins with element 0."""
    def __init__(s,m,i): s.m=m; s.i=i
    def __iter__(s):
        m=s.m; ti=s.i; first=ti is T.IZERO and m.phase==1
        if first: yield S(T.IZERO)
        m.check('entering the neighbours%s'%(' of element 0' if first else ''),ti); m.havoc(ti); pre=m.snap(); na=len(m.alog)
        if branch(T.eq(fresh('nb','I').t,ONE)):
            n=fresh('n','I').t; m.terms.append(n); assume(rng(n,m.N))
            if m.kind=='lines': assume(T.bor(m.adj(ti,n),T.eq(ti,n)))
            yield S(n)
            tag='after an arbitrary neighbour%s'%(' of element 0' if first else ''); m.check(tag,ti); st=m.snap()
            m.want(tag+': visited elements stay visited',T.implies(pre[1](I),st[1](I))); m.want(tag+': if it is adjacent it is visited',T.implies(m.adj(ti,n),st[1](n)))
            for x,b in m.alog[na:]:
                if b is T.TRUE: m.want(tag+': an element enters the work list only when it is visited for the first time (termination)',T.band(T.bnot(pre[1](x)),st[1](x)))
            raise Infeasible()
        m.facts.append(lambda i,j:[T.implies(m.adj(ti,i),pre[1](i))])
def v_reorient(ctx):
    ctx.trust('the elements of a group form a connected, orientable surface or simple path: there is an orientation (one sign per element) such that adjacent elements agree exactly when their signs do; a property that spreads to every neighbour holds for all elements of a connected group')
    for kind,w in(('triangles',3),('lines',2),('lines',4)):
        m=Walk(w,kind); fn='_reorient_'+kind; name='%s (%d-point %s)'%(fn,w,kind)
        ctx.function(F+fn,'every element keeps its vertices (reversed or not); after the walk all elements of the connected group agree with each other; points are not written','loop invariant')
        def go():
            L=dyn_loader((fn,),m); M=L.get('traceon.mesher'); rows=Rows(m); pts=Pts(); v2i=object()
            L.np.extra['full']=lambda n,v,**k: Marks(m) if isinstance(n,S) and n.t is m.N and v is False else (_ for _ in ()).throw(Unsupported('np.full'))
            L.np.extra['zeros']=lambda n,dtype=None,**k: Marks(m) if isinstance(n,S) and n.t is m.N and dtype in(bool,np.bool_,'bool') else (_ for _ in ()).throw(Unsupported('np.zeros'))
            def cv(e):
                if not(e is rows and kind=='triangles' or isinstance(e,Corner) and e.a is rows and e.w==2): raise Unsupported('vertex map of something else')
                return v2i
            def gn(row,d):
                if d is not v2i or not isinstance(row,Row): raise Unsupported('neighbours of something else')
                return Nb(m,row.i)
            M._compute_vertex_to_indices=cv; M._get_element_neighbours=gn
            def val(i,j):
                i,j=tn(i),tn(j); row=m.snap()[0]
                return i,j,iff(m.X(row,i),m.X(row,j))
            def teq(i,j,p,q):
                if p!=('ptr',rows) or q!=('ptr',pts): raise Unsupported('other arrays')
                i,j,eq=val(i,j); return S(T.ite(T.eq(i,j),T.ite(T.eq(fresh('self','I').t,ONE),T.IONE,T.IZERO),T.ite(m.adj(i,j),T.ite(eq,T.IONE,T.IZERO),T.I(-1))))
            def leq(i,j,l):
                if l is not rows: raise Unsupported('other lines')
                i,j,eq=val(i,j); return S(T.ite(T.eq(i,j),T.eq(fresh('self','I').t,ONE),eq))
            B=M.B if hasattr(M,'B') else None
            if B is not None: B.__dict__['backend_lib']=type('Lib',(),{'triangle_orientation_is_equal':staticmethod(teq)})
            M._line_orientation_equal=leq
            allobs=[]
            def body():
                m.reset(); m.start()
                try:
                    if kind=='triangles': M._reorient_triangles(rows,pts)
                    else: M._reorient_lines(rows,pts)
                    st=m.snap()
                    if m.phase!=99: raise Unsupported('no work list')
                    m.want('at the end: the element keeps its vertices (reversed or not)',T.bor(m.even(st[0](I),I),m.odd(st[0](I),I)))
                    m.want('at the end: element 0 is visited',st[1](T.IZERO)); m.want('at the end: every neighbour of a visited element is visited',T.implies(T.band(st[1](I),m.adj(I,J)),st[1](J)))
                    m.want('at the end: visited elements agree with each other',T.implies(T.band(st[1](I),st[1](J)),iff(m.X(st[0],I),m.X(st[0],J))))
                finally: allobs.append(list(m.obs))
            outs=explore(body,[T.lt(T.IZERO,m.N)])
            n=0
            for k,o in enumerate(outs):
                if o.kind!='ok' and P.feasible(o.pc,3000): ctx.rec('%s: path %d'%(name,k),'unsupported','path','%r'%(o.val,))
            ctx.check(name+': the walk ends on some path',any(o.kind=='ok' for o in outs))
            seen=set()
            for k,obs in enumerate(allobs):
                for nm,g,h in obs:
                    key=(nm,g,tuple(h))
                    if key in seen: continue
                    seen.add(key); soft(ctx,'%s: %s'%(name,nm),g,h)
        ctx.attempt(name,go)

# ------------------------------------------------------------------ line orientation
def table(name,n,w): return A.arr(name,n,(w,),np.uint64)
def v_line_equal(ctx):
    for w in(2,4):
        f='_line_orientation_equal'; name='%s (%d-point lines)'%(f,w); ctx.function(F+f,'two lines with exactly one end in common agree exactly when one ends where the other begins','contract')
        N=T.var('N','I'); i1,i2=T.var('i1','I'),T.var('i2','I')
        def go():
            L=loader(); M=L.get('traceon.mesher'); l=table('lines',N,w); p,n=[[tn(x) for x in l.elem(i)] for i in(i1,i2)]
            base=[rng(i1,N),rng(i2,N),T.bnot(T.eq(p[0],p[1])),T.bnot(T.eq(n[0],n[1]))]
            ends=[T.eq(p[a],n[b]) for a in(0,1) for b in(0,1)]; one=T.bor(*[T.band(*[q if k==j else T.bnot(q) for j,q in enumerate(ends)]) for k in range(4)])
            pre=base+[one]; ctx.vacuity(name,pre)
            outs=ok(ctx,name,explore(lambda:M._line_orientation_equal(S(i1),S(i2),l),pre))
            for k,o in enumerate(outs):
                A.prove(ctx,'%s: path %d: equal exactly when one line ends where the other begins'%(name,k),iff(tb(o.val),T.bor(T.eq(p[1],n[0]),T.eq(p[0],n[1]))),o.pc)
            A.events(ctx,name,outs)
        ctx.attempt(name,go)
# ------------------------------------------------------------------ vertex maps
class VList:
    """the list of a vertex in the map under construction."""
    __sarr__=True
    def __init__(s,m,v): s.m=m; s.v=v
    def append(s,i):
        s.m.order(s.v,tn(i)); s.m.log.append(('mem',s.v,tn(i)))
    def __iadd__(s,l):
        for x in l: s.append(x)
        return s
    def extend(s,l): s.__iadd__(l)
    def __add__(s,l): return ('plus',s,list(l))
class VDict:
    __sarr__=True
    def __init__(s): s.k=None; s.log=[]; s.obs=[]
    def state(s):
        base,log=s.k,list(s.log)
        def mem(v,i,upto=None):
            r=T.FALSE if base is None else bf(base+'mem',v,i)
            for q in log:
                if q[0]=='mem': r=T.bor(r,T.band(T.eq(v,q[1]),T.eq(i,q[2])))
                else: r=T.band(r,T.bnot(T.eq(v,q[1])))
            return r
        def has(v):
            r=T.FALSE if base is None else bf(base+'has',v)
            for q in log:
                if q[0]=='key': r=T.bor(r,T.eq(v,q[1]))
            return r
        return mem,has
    def __contains__(s,v): return branch(s.state()[1](tn(v)))
    def keys(s): return s
    def __getitem__(s,v):
        v=tn(v)
        if not branch(s.state()[1](v)): raise KeyError(v)
        return VList(s,v)
    def get(s,v,d=None): return s[v] if v in s else d
    def setdefault(s,v,d=None):
        if v not in s: s[v]=d
        return s[v]
    def __setitem__(s,v,x):
        v=tn(v)
        if isinstance(x,VList):
            if x.m is s and x.v is v: return
            raise Unsupported('shared lists')
        if isinstance(x,tuple) and x and x[0]=='plus':
            if x[1].m is s and x[1].v is v:
                for y in x[2]: VList(s,v).append(y)
                return
            raise Unsupported('shared lists')
        if not isinstance(x,list): raise Unsupported('value of the map')
        s.log.append(('key',v))
        for y in x: VList(s,v).append(y)
    def order(s,v,i): s.obs.append(('the list of a vertex increases',T.implies(s.state()[0](v,I),T.le(I,i)),list(Y.cur.pc),(v,)))
class Els:
    """an arbitrary array of elements with w vertices each."""
    __sarr__=True; dtype=np.dtype(np.uint64)
    def __init__(s,w): s.w=w; s.n=T.var('number_of_elements','I'); s.d=None
    def __slen__(s): return S(s.n)
    @property
    def shape(s): return (S(s.n),s.w)
    def row(s,i): return [T.fun_i('free_v_%d'%c,i) for c in range(s.w)]
    def __getitem__(s,i): 
        if isinstance(i,(tuple,slice)): raise Unsupported('slice of the elements')
        return [S(x) for x in s.row(tn(i))]
    def isin(s,v,i): return T.bor(*[T.eq(v,x) for x in s.row(i)])
    def inv(s,d,k,vs):
        mem,has=d.state()
        return [q for v in vs for q in(iff(mem(v,I),T.band(rng(I,k),s.isin(v,I))),T.implies(T.band(rng(I,k),s.isin(v,I)),has(v)))]
    def cut(s,item):
        d=s.d
        if d is None or d.k is not None or d.log: raise Unsupported('loop before the map exists')
        if branch(T.eq(fresh('it','I').t,ONE)):
            k=fresh('k','I').t; d.k='free_k_'; d.log=[]; vs=s.row(k)+[VV]
            assume(rng(k,s.n)); s.hyp=s.inv(d,k,vs); mark=len(d.obs)
            yield item(k)
            pc=list(Y.cur.pc)
            for j,(q,what) in enumerate(zip(s.inv(d,T.add(k,ONE),[VV]),('the list of a vertex holds exactly the elements seen so far that have it','every vertex seen is in the map'))): d.obs.append((what,q,pc,()))
            s.out.append([(a,b,p+s.hyp) for a,b,p,_ in d.obs[mark:]])
            raise Infeasible()
        d.k='free_n_'; d.log=[]
        s.fin=s.inv(d,s.n,[VV])
    def enum(s): return s.cut(lambda k:(S(k),s[S(k)]))
    def indices(s): return s.cut(lambda k:S(k))
    def __iter__(s): raise Unsupported('iteration')
def v_vertex_map(ctx):
    f='_compute_vertex_to_indices'
    for w in(2,3,4):
        name='%s (%d-point elements)'%(f,w); ctx.function(F+f,'the list of a vertex holds exactly the elements that have it, in increasing order','loop invariant')
        def go():
            e=Els(w); e.rows=e; L=dyn_loader((f,),e); e.mklist=list
            def mk(x):
                if x: raise Unsupported('dictionary')
                e.d=VDict(); return e.d
            e.mkdict=mk; M=L.get('traceon.mesher'); e.out=[]
            def body():
                e.d=None; r=M._compute_vertex_to_indices(e)
                if not isinstance(r,VDict): raise Unsupported('map')
                return r,list(r.log),e.fin
            outs=explore(body,[T.le(T.IZERO,e.n)])
            ends=0
            for k,o in enumerate(outs):
                if o.kind=='ok':
                    ends+=1; ctx.check('%s: path %d returns the map as the loop leaves it'%(name,k),not o.val[1])
                elif P.feasible(o.pc,3000):
                    n='%s: path %d ends with %s'%(name,k,type(o.val).__name__)
                    # a missing key contradicts the invariant, which is not part of the path condition
                    if isinstance(o.val,KeyError) and P.prove_bool(T.FALSE,o.pc+e.hyp,8000).status=='proved': ctx.rec(n,'proved','unreachable')
                    else: ctx.rec(n,'unsupported','path','%r'%(o.val,))
            ctx.check(name+': the loop ends on some path',ends>0)
            seen=set()
            for p,obs in enumerate(e.out):
                for a,g,h in obs: soft(ctx,'%s: step path %d: %s'%(name,p,a),g,h)
        ctx.attempt(name,go)
class Piece:
    """the list of the elements that have vertex v."""
    __sarr__=True
    def __init__(s,v): s.v=v
class Pieces(list):
    def extend(s,x):
        if isinstance(x,Piece): list.append(s,x)
        elif isinstance(x,Pieces): list.extend(s,x)
        elif len(x): raise Unsupported('extend')
    def __iadd__(s,x): s.extend(x); return s
    def __add__(s,x):
        r=Pieces(s); r.extend(x); return r
    def append(s,x): raise Unsupported('append')
def v_neighbours(ctx):
    f='_get_element_neighbours'
    for w in(2,3,4):
        name='%s (%d-point elements)'%(f,w); ctx.function(F+f,'exactly the elements that have a vertex of the given one (vertices without a list are skipped), those of its first vertex with a list first','contract')
        vs=[T.var('v%d'%c,'I') for c in range(w)]; has=lambda v: bf('free_has',v)
        class D:
            __sarr__=True
            def __contains__(s,v): return branch(has(tn(v)))
            def get(s,v,d=None): return Piece(tn(v)) if v in s else d
            def __getitem__(s,v):
                if v in s: return Piece(tn(v))
                raise KeyError(v)
        class W:
            mklist=staticmethod(lambda x:Pieces() if not x else list(x)); mkdict=staticmethod(dict)
        def go():
            M=dyn_loader((f,),W).get('traceon.mesher')
            outs=ok(ctx,name,explore(lambda:M._get_element_neighbours([S(v) for v in vs],D()),[]))
            for k,o in enumerate(outs):
                n='%s: path %d'%(name,k)
                if not isinstance(o.val,Pieces): ctx.rec(n+': form of the list','unsupported','path',repr(o.val)); continue
                for c,v in enumerate(vs): A.prove(ctx,n+': the elements of vertex %d are included when it has a list'%c,T.implies(has(v),T.bor(*[T.eq(p.v,v) for p in o.val])),o.pc)
                for p in o.val: A.prove(ctx,n+': nothing else is included',T.bor(*[T.band(T.eq(p.v,v),has(v)) for v in vs]),o.pc)
        ctx.attempt(name,go)
# ------------------------------------------------------------------ which way the normals point
def _points(n,flat=False):
    p=A.arr('points',n,(3,),float)
    if not flat: return p
    e=p.elem
    def g(i):
        o=e(i).copy(); o[1]=0.0; return o
    return A.SArr(n,(3,),g,float)
def _term(kind,row,p):
    """x n_x dS of one element: summed over a closed surface this is the enclosed volume (divergence theorem with the field (x,0,0));
    over the lines of a closed path it is the enclosed area."""
    x=[[tr(q) for q in p.elem(tn(v))] for v in row]
    if kind=='triangles':
        e=[T.sub(x[1][d],x[0][d]) for d in range(3)]; g=[T.sub(x[2][d],x[0][d]) for d in range(3)]
        nx=T.sub(T.mul(e[1],g[2]),T.mul(e[2],g[1]))       # twice the area times the x component of the unit normal
        return T.mul(T.div(T.add(T.add(x[0][0],x[1][0]),x[2][0]),T.R(3)),T.mul(T.R(Fr(1,2)),nx))
    return T.mul(T.mul(T.R(Fr(1,2)),T.add(x[0][0],x[1][0])),T.sub(x[1][2],x[0][2]))     # the normal of a line along (dx,dz) is (dz,-dx)/length
def _n2d(a,b):
    """contract of normal_2d (proved for the C code): the unit vector (dz,-dx)/length for distinct end points."""
    a,b=[[tr(q) for q in np.ravel(v)] for v in(a,b)]
    dx,dz=T.sub(b[0],a[0]),T.sub(b[1],a[1]); l=T.sqrt(T.add(T.mul(dx,dx),T.mul(dz,dz)))
    return np.array([S(T.div(dz,l)),S(T.div(T.neg(dx),l))],object)
def v_outwards(ctx):
    ctx.trust('divergence theorem: over the elements of a closed surface the sum of x n_x dS is the enclosed volume, positive when the normals point outwards')
    for kind,w in(('triangles',3),('lines',2),('lines',4)):
        f=OUT[kind]; name='%s (%d-point %s)'%(f,w,kind); ctx.function(F+f,'true exactly when the sum of x n_x dS over the elements is positive; reversing an element negates its term','contract')
        N,NP=T.var('number_of_elements','I'),T.var('number_of_points','I')
        def go():
            L=loader({'normal_2d':_n2d}); M=L.get('traceon.mesher'); e=table('v',N,w); p=_points(NP,kind=='lines'); nv=3 if kind=='triangles' else 2
            row=[tn(x) for x in e.elem(K)]; spec=_term(kind,row[:nv],p); m=Walk(w,kind)
            for tag,sg,ps in(('the same',1,m.perms()[0]),('opposite',-1,m.perms()[1])):
                for q in ps: ctx.zero('%s: the term of an element listed as %s is %s'%(name,q,'unchanged' if sg>0 else 'negated'),T.sub(_term(kind,[row[i] for i in q][:nv],p),T.mul(T.R(sg),spec)),[])
            x=[[tr(c) for c in p.elem(v)] for v in row[:nv]]
            q2=lambda v: T.add(T.add(T.mul(v[0],v[0]),T.mul(v[1],v[1])),T.mul(v[2],v[2])); d=[[T.sub(x[j][c],x[0][c]) for c in range(3)] for j in range(1,nv)]
            if nv==3: d=[[T.sub(T.mul(d[0][(c+1)%3],d[1][(c+2)%3]),T.mul(d[0][(c+2)%3],d[1][(c+1)%3])) for c in range(3)]]
            nd=[T.lt(T.ZERO,q2(d[0]))]                      # the element is not degenerate
            outs=ok(ctx,name,explore(lambda:getattr(M,f)(e,p),[T.lt(T.IZERO,N),T.lt(T.IZERO,NP)]))
            for k,o in enumerate(outs):
                n='%s path %d: positive enclosed volume decides'%(name,k); g=tb(o.val)
                if g.op!='lt': ctx.rec(n,'unknown','form',T.show(g,5)); continue
                t=T.sub(g.args[1],g.args[0]); su=P.find_sums(t); lin=P.linear_in(t,su) if su else None
                if lin is None or lin[0] is not T.ZERO or any(not T.isc(c) for c in lin[1].values()) or any(u.args[1] is not T.IZERO or u.args[2] is not N for u in su): ctx.rec(n,'unknown','form',T.show(t,6)); continue
                body=T.ZERO
                for u in su: body=T.add(body,T.mul(lin[1][u],T.subst(u.args[3],{u.args[0]:K})))
                for c in(Fr(1),Fr(2),Fr(1,2),Fr(6),Fr(3),Fr(1,3),Fr(1,6),Fr(4),Fr(12)):
                    r=P.prove_zero(T.sub(body,T.mul(T.R(c),spec)),nd)
                    if r.status=='proved': break
                ctx.rec(n,'proved' if r.status=='proved' else 'unknown',r.method,'factor %s %s'%(c,r.detail))
        ctx.attempt(name,go)
OUT={'triangles':'_are_triangle_normals_pointing_outwards','lines':'_are_line_normals_pointing_outwards'}
K=T.var('k_any','I')
# ------------------------------------------------------------------ the commands
REO={'triangles':'_reorient_triangles','lines':'_reorient_lines'}; ENS={'triangles':'_ensure_triangle_orientation','lines':'_ensure_line_orientation'}
def v_ensure(ctx):
    """reorient, then reverse every element when the normals point the other way."""
    for kind,w in(('triangles',3),('lines',2),('lines',4)):
        f=ENS[kind]; name='%s (%d-point %s)'%(f,w,kind); ctx.function(F+f,'the elements agree, and are reversed together exactly when the enclosed volume had the wrong sign','contract')
        N,NP=T.var('number_of_elements','I'),T.var('number_of_points','I')
        for should in(True,False):
            def go():
                L=loader(); M=L.get('traceon.mesher'); m=Walk(w,kind); st={}
                def reo(e,p):
                    if e is not st['e'] or p is not st['p'] or 're' in st: raise Unsupported('reorientation of something else')
                    st['re']=table('r',N,w); e[:]=st['re']
                def out(e,p):
                    if e is not st['e'] or p is not st['p'] or 're' not in st: raise Unsupported('orientation of something else')
                    st['at']=[tn(x) for x in e.elem(K)]; return S(T.eq(T.var('outwards','I'),ONE))
                setattr(M,REO[kind],reo); setattr(M,OUT[kind],out)
                def body():
                    st.clear(); st['e']=table('v',N,w); st['p']=_points(NP)
                    r=getattr(M,f)(st['e'],st['p'],should)
                    if 'at' not in st: raise Unsupported('no test of the direction')
                    return [tn(x) for x in np.ravel(st['e'].elem(K))],st['at'],dict(st)
                outs=ok(ctx,'%s %s'%(name,should),explore(body,[T.lt(T.IZERO,N)]))
                for k,o in enumerate(outs):
                    rows,at,_=o.val; n='%s, outwards=%s, path %d'%(name,should,k); r0=[tn(x) for x in table('r',N,w).elem(K)]; ow=T.eq(T.var('outwards','I'),ONE); good=ow if should else T.bnot(ow)
                    pm=lambda v,ps: T.bor(*[T.band(*[T.eq(v[c],r0[q[c]]) for c in range(w)]) for q in ps])
                    pc=o.pc+[rng(K,N)]
                    A.prove(ctx,n+': the direction is tested on the reoriented elements',T.band(*[T.eq(x,y) for x,y in zip(at,r0)]),pc)
                    A.prove(ctx,n+': reversed exactly when the normals pointed the other way',T.band(T.implies(good,pm(rows,m.perms()[0])),T.implies(T.bnot(good),pm(rows,m.perms()[1]))),pc)
                A.events(ctx,name,outs)
            ctx.attempt('%s outwards=%s'%(name,should),go)
def v_commands(ctx):
    """ensure_outward_normals / ensure_inward_normals: which groups and which direction."""
    for f,want in(('ensure_outward_normals',True),('ensure_inward_normals',False)):
        ctx.function(F+'Mesh.'+f,'the elements of the electrode, and of no other, are oriented in the requested direction','contract')
        for tr_,ln in itertools.product((False,True),repeat=2):
            name='Mesh.%s (electrode in %s)'%(f,' and '.join(x for x,b in(('triangles',tr_),('lines',ln)) if b) or 'no group')
            def go():
                from .pymesh import mesh
                L=loader(); M=L.get('traceon.mesher'); calls=[]
                m,_=mesh(M,'',2,3,('e','q') if ln else ('q',),('e','q') if tr_ else ('q',))
                M.Mesh._ensure_normal_orientation_triangles=lambda s,e,o: calls.append(('triangles',s is m,e,bool(o)))
                M.Mesh._ensure_normal_orientation_lines=lambda s,e,o: calls.append(('lines',s is m,e,bool(o)))
                def body():
                    calls.clear(); getattr(m,f)('e'); return list(calls)
                for k,o in enumerate(ok(ctx,name,explore(body,[]))):
                    w=[(kd,True,'e',want) for kd,b in(('triangles',tr_),('lines',ln)) if b]
                    if any(c[0] not in('triangles','lines') for c in o.val): raise Unsupported('calls')
                    ctx.check('%s: path %d: %s'%(name,k,w),sorted(set(o.val))==sorted(w),repr(o.val))
            ctx.attempt(name,go)
def v_group(ctx,parts=(1,2,3)):
    """_ensure_normal_orientation_*: each connected part is oriented by itself, and the result is stored back."""
    for kind,w in(('triangles',3),('lines',2),('lines',4)):
        f='_ensure_normal_orientation_'+kind; ctx.function(F+'Mesh.'+f,'the elements of the group are replaced, part by part, by their oriented versions; every other element keeps its vertices','contract')
        ctx.bounded.append('%s: groups of 1 to %d connected parts (any number of elements each)'%(f,max(parts)))
        for q in parts:
            name='Mesh.%s (%d-point, %d connected parts)'%(f,w,q)
            def go():
                from .pymesh import mesh
                L=loader(); M=L.get('traceon.mesher'); lw,tw=(w,3) if kind=='lines' else (2,w); pre=mesh(M,'',lw,tw,('e','q'),('e','q'))[1]; calls=[]; st={}
                ns=[T.var('part%d_n'%j,'I') for j in range(q)]; pt=lambda j,i:T.fun_i('free_part%d'%j,i); idx=[A.SArr(ns[j],(),lambda i,j=j:S(pt(j,i)),np.int64) for j in range(q)]
                def conn(e):
                    st['given']=([tn(x) for x in np.ravel(e.elem(K))],e.n); return list(idx)
                def ens(e,p,o):
                    j=len(calls)
                    if j>=q: raise Unsupported('more calls than parts')
                    if p is not st['m'].points: raise Unsupported('other points')
                    calls.append((e.n,[tn(x) for x in np.ravel(e.elem(K))],bool(o))); e[:]=table('done%d'%j,e.n,w)
                M._get_connected_elements=conn; setattr(M,ENS[kind],ens)
                for outw in(True,False):
                    def body():
                        calls.clear(); st.clear(); m,_=mesh(M,'',lw,tw,('e','q'),('e','q')); st['m']=m; snap=lambda: {x:getattr(m,x) for x in('points','lines','triangles','physical_to_lines','physical_to_triangles')}
                        other={'lines':'triangles','triangles':'lines'}[kind]; el=[getattr(m,x)._elem for x in('points',other)]; gs=dict(m.physical_to_lines),dict(m.physical_to_triangles)
                        getattr(m,f)('e',outw)
                        same=all(x is y for x,y in zip(el,[getattr(m,x)._elem for x in('points',other)])) and (dict(m.physical_to_lines),dict(m.physical_to_triangles))==gs
                        return getattr(m,kind),list(calls),dict(st),same
                    m0,_=mesh(M,'',lw,tw,('e','q'),('e','q')); old=getattr(m0,kind); g=getattr(m0,'physical_to_'+kind)['e']; gi=lambda i:tn(g.elem(i)); U=T.var('u_any','I'); U2=T.var('u2_any','I')
                    outs=ok(ctx,'%s %s'%(name,outw),explore(body,pre+[T.lt(T.IZERO,n) for n in ns]))
                    for k,o in enumerate(outs):
                        r,cs,s2,same=o.val; n='%s, outwards=%s, path %d'%(name,outw,k); pc=list(o.pc)
                        ctx.check(n+': points, groups and the other elements are not touched',same)
                        if not cs:
                            A.prove_eq(ctx,n+': an empty group leaves every element as it is',r.elem(K),old.elem(K),pc+[A.inrange(K,old.n)])
                            A.prove(ctx,n+': nothing is done only for an empty group',T.eq(g.n,T.IZERO),pc); continue
                        if not ctx.check(n+': one call for each part',len(cs)==q): continue
                        A.prove_eq(ctx,n+': the parts are those of the group',s2['given'][0],old.elem(gi(K)),pc+[rng(K,g.n)])
                        for j,(cn,rows,ow) in enumerate(cs):
                            ctx.check(n+': part %d: direction'%j,ow==outw)
                            A.prove(ctx,n+': part %d: its number of elements'%j,T.eq(cn,ns[j]),pc)
                            store(ctx,n+': part %d: its elements'%j,rows,old.elem(gi(pt(j,K))),pc+[rng(K,ns[j])],j,K,q,ns,pt,g,gi)
                            store(ctx,n+': part %d: the oriented elements are stored'%j,r.elem(gi(pt(j,K))),table('done%d'%j,ns[j],w).elem(K),pc+[rng(K,ns[j])],j,K,q,ns,pt,g,gi)
                        store(ctx,n+': an element outside the group keeps its vertices',r.elem(U2),old.elem(U2),pc+[A.inrange(U2,old.n)],None,U2,q,ns,pt,g,gi)
            ctx.attempt(name,go)
def store(ctx,name,a,b,pc,j,i,q,ns,pt,g,gi):
    """obligation about scattered stores: distinct positions of the group and of the parts do not meet (instantiated where needed)."""
    a,b=[tn(x) for x in np.ravel(a)],[tn(x) for x in np.ravel(b)]
    goal=T.band(*[T.eq(x,y) for x,y in zip(a,b)])
    for s in A.SCAT: A.HITS[s]=[] if j is None else [i,pt(j,i)]
    ax=A.instantiate(pc+[goal],3)
    wr=lambda t:[u for x in t for u in T.walk([x]) if u.op=='f' and str(u.args[0]).startswith('wr_')]
    ws=list(dict.fromkeys(wr([goal]+ax))); pos=list(dict.fromkeys(ws+([i] if j is not None else []))); inst=[]
    if j is not None: gp=[pt(j,i)]+ws
    else: gp=ws
    for x in gp:
        for y in gp:
            if x is not y: inst.append(T.implies(T.band(rng(x,g.n),rng(y,g.n),T.bnot(T.eq(x,y))),T.bnot(T.eq(gi(x),gi(y)))))     # the indices of a group are distinct
    for x in pos:
        for l in range(q):
            inst.append(T.implies(rng(x,ns[l]),rng(pt(l,x),g.n)))
            for y in pos:
                for m in range(q):
                    if l!=m or x is not y: inst.append(T.implies(T.band(rng(x,ns[l]),rng(y,ns[m]),*([T.bnot(T.eq(x,y))] if l==m else [])),T.bnot(T.eq(pt(l,x),pt(m,y)))))
    if j is None: inst.append(T.band(*[T.implies(rng(x,g.n),T.bnot(T.eq(gi(x),i))) for x in gp]))
    return soft(ctx,name,goal,pc+ax+inst,30000)

# ------------------------------------------------------------------ connected parts
C_=T.var('c_any','I')
class Cell:
    """an integer counter of the analysed function."""
    def __init__(s,m,t): s.m=m; s.t=t
    def __iadd__(s,x): s.t=T.add(s.t,tn(x)); return s
class Labels:
    __sarr__=True
    def __init__(s,m): s.m=m
    def __slen__(s): return S(s.m.N)
    @property
    def shape(s): return (S(s.m.N),)
    def __getitem__(s,k): return S(s.m.lab(tn(k)))
    def __setitem__(s,k,v): s.m.llog.append((tn(k),tn(v)))
    def __eq__(s,c): return Mask(s.m,len(s.m.llog),s.m.lbase,tn(c))
    __hash__=None
class Mask:
    __sarr__=True
    def __init__(s,m,n,base,c): s.m=m; s.n=n; s.base=base; s.c=c
    def nonzero(s): return (Where(s),)
class Where:
    __sarr__=True
    def __init__(s,k): s.k=k
class Queue(list):
    def __init__(s,m,x): list.__init__(s,x); s.m=m; s.sym=False
    def __bool__(s): return s.m.whead(s)
    def __slen__(s): return 1 if s.m.whead(s) else 0
    def append(s,x):
        if not isinstance(x,Row): raise Unsupported('queue of something else')
        s.m.qlog.append((x.i,T.TRUE))
    def extend(s,x): raise Unsupported('extend')
    def pop(s,*k):
        m=s.m
        if not m.insym: raise Unsupported('pop before the loop')
        t=fresh('qi','I').t; m.terms.append(t); assume(rng(t,m.N)); assume(m.inq(t)); m.qlog.append((t,T.FALSE))
        return Row(m,t)
class CC:
    """state of the labelling: labels, work list, number of components; comp is the connected component of an element (ghost)."""
    def __init__(s,w): s.w=w; s.N=T.var('number_of_elements','I'); s.reset()
    def reset(s):
        s.lbase=None; s.llog=[]; s.qbase=None; s.qlog=[]; s.cell=None; s.terms=[I,J]; s.facts=[]; s.obs=[]; s.ver=0; s.insym=False; s.queue=None; s.wphase=0; s.seed=None; s.slog=[]; s.phase='start'; s.labels=None
    row=lambda s,i,st=None:[T.fun_i('free_v_%d'%c,i) for c in range(s.w)]
    def isin(s,v,i): return T.bor(*[T.eq(v,x) for x in s.row(i)])
    def adj(s,i,j): return T.bor(*[T.eq(a,b) for a in s.row(i) for b in s.row(j)])
    def comp(s,i): return T.fun_i('free_comp',i)
    def lab(s,i): return Walk.fold(i,T.I(-1) if s.lbase is None else T.fun_i(s.lbase,i),s.llog)
    def inq(s,i): return Walk.fold(i,T.FALSE if s.qbase is None else bf(s.qbase,i),s.qlog)
    def snap(s):
        lb,ll,qb,ql,c=s.lbase,list(s.llog),s.qbase,list(s.qlog),s.cell.t
        return (lambda i:Walk.fold(i,T.I(-1) if lb is None else T.fun_i(lb,i),ll)),(lambda i:Walk.fold(i,T.FALSE if qb is None else bf(qb,i),ql)),c
    def outer(s,st,i,x,y):
        l,_,c=st
        return [('labels are those of the components found',T.band(T.le(T.I(-1),l(x)),T.lt(l(x),c),T.le(T.IZERO,c))),
            ('every element before this one has a label',T.implies(T.lt(x,i),T.le(T.IZERO,l(x)))),
            ('a component is closed',T.implies(T.band(T.le(T.IZERO,l(x)),s.adj(x,y)),T.eq(l(y),l(x)))),
            ('elements with the same label are connected',T.implies(T.band(T.le(T.IZERO,l(x)),T.eq(l(x),l(y))),T.eq(s.comp(x),s.comp(y)))),
            ('every component has an element',s.filled(l,c))]
    def filled(s,l,c): return T.implies(rng(C_,c),T.band(rng(s.sd(C_),s.N),T.eq(l(s.sd(C_)),C_)))
    def sd(s,c): return Walk.fold(c,T.fun_i('free_seed',c),s.slog)
    def inner(s,st,x,y,cur=None,pend=None):
        l,q,c=st; i=s.seed; done=[T.eq(l(x),c),T.bnot(q(x)),s.adj(x,y)]
        if cur is not None: done.append(T.bnot(T.eq(x,cur)))
        r=[('labels are those found so far',T.band(T.le(T.I(-1),l(x)),T.le(l(x),c),T.le(T.IZERO,c))),
            ('every element before the seed has a label',T.implies(T.lt(x,i),T.le(T.IZERO,l(x)))),
            ('the seed has the new label',T.eq(l(i),c)),
            ('earlier components are closed',T.implies(T.band(T.le(T.IZERO,l(x)),T.lt(l(x),c),s.adj(x,y)),T.eq(l(y),l(x)))),
            ('elements of an earlier component are connected',T.implies(T.band(T.le(T.IZERO,l(x)),T.lt(l(x),c),T.eq(l(x),l(y))),T.eq(s.comp(x),s.comp(y)))),
            ('elements with the new label are connected to the seed',T.implies(T.eq(l(x),c),T.eq(s.comp(x),s.comp(i)))),
            ('every earlier component has an element',s.filled(l,c)),
            ('the work list holds elements with the new label',T.implies(q(x),T.eq(l(x),c))),
            ('all neighbours of a finished element have the new label',T.implies(T.band(*done),T.eq(l(y),c)))]
        if cur is not None:
            r.append(('the current element has the new label',T.eq(l(cur),c)))
            for v in pend: r.append(('the elements of a vertex already visited have the new label',T.implies(s.isin(v,x),T.eq(l(x),c))))
        return r
    def hyps(s):
        h=list(Y.cur.pc)+[rng(I,s.N),rng(J,s.N)]
        for i in s.terms:
            for j in s.terms:
                h.append(T.implies(s.adj(i,j),T.eq(s.comp(i),s.comp(j))))
                for f in s.facts: h+=[T.implies(T.band(rng(i,s.N),rng(j,s.N)),q) for q in f(i,j)]
        return h
    def want(s,n,g): s.obs.append((n,g,s.hyps()))
    def check(s,tag,lst):
        for n,g in lst: s.want('%s: %s'%(tag,n),g)
    def havoc(s,inv,cellv=None):
        s.ver+=1; s.lbase='free_l%d'%s.ver; s.llog=[]; s.qbase='free_q%d'%s.ver; s.qlog=[]
        if cellv is not None: s.cell.t=cellv
        st=s.snap(); s.facts=[lambda i,j:[g for _,g in inv(st,i,j)]]; return st
    def indices(s):
        if s.phase!='start' or s.labels is None or s.cell is None: raise Unsupported('loop over the elements')
        s.phase='outer'; s.check('before the first element',s.outer(s.snap(),T.IZERO,I,J))
        c=fresh('cid','I').t
        if branch(T.eq(fresh('it','I').t,ONE)):
            i=fresh('i','I').t; s.terms.append(i); assume(rng(i,s.N)); s.havoc(lambda st,x,y:s.outer(st,i,x,y),c); s.seed=i
            yield S(i)
            s.slog=[(c,i)]; s.check('after an arbitrary element',s.outer(s.snap(),T.add(i,ONE),I,J)); raise Infeasible()
        s.havoc(lambda st,x,y:s.outer(st,s.N,x,y),c); s.phase='end'
    def whead(s,q):
        if s.queue is None: s.queue=q; s.wphase=0; s.insym=True; s.qbase=None; s.qlog=[(x.i,T.TRUE) for x in list(q)]
        elif s.queue is not q: raise Unsupported('two work lists')
        s.wphase+=1
        if s.seed is None: raise Unsupported('work list outside the loop')
        if s.wphase==1:
            s.check('entering the component',s.inner(s.snap(),I,J)); s.havoc(lambda st,x,y:s.inner(st,x,y)); st=s.snap()
            if branch(T.eq(fresh('more','I').t,ONE)): s.done=[]; return True
            s.facts.append(lambda x,y:[T.bnot(st[1](x))]); s.queue=None; s.insym=False
            return False
        s.check('after an arbitrary element of the work list',s.inner(s.snap(),I,J)); raise Infeasible()
    def near(s,v):
        """the elements of vertex v."""
        cur=[q[0] for q in s.qlog if q[1] is T.FALSE]; 
        if len(s.terms)<1 or not s.insym: raise Unsupported('vertex list outside the walk')
        cur=s.cur=getattr(s,'cur',None) if not cur else cur[-1]
        s.check('entering the elements of a vertex',s.inner(s.snap(),I,J,cur,s.done)); dn=list(s.done); s.havoc(lambda st,x,y:s.inner(st,x,y,cur,dn)); pre=s.snap(); na=len(s.qlog)
        if branch(T.eq(fresh('nb','I').t,ONE)):
            n=fresh('n','I').t; s.terms.append(n); assume(rng(n,s.N)); assume(s.isin(v,n))
            yield S(n)
            st=s.snap(); s.check('after an arbitrary element of a vertex',s.inner(st,I,J,cur,dn)); s.want('after an arbitrary element of a vertex: labels are kept',T.implies(T.le(T.IZERO,pre[0](I)),T.eq(st[0](I),pre[0](I)))); s.want('after an arbitrary element of a vertex: it has the new label',T.eq(st[0](n),st[2]))
            for x,b in s.qlog[na:]:
                if b is T.TRUE: s.want('an element enters the work list only when it gets its label (termination)',T.band(T.eq(pre[0](x),T.I(-1)),T.le(T.IZERO,st[0](x))))
            raise Infeasible()
        s.done=s.done+[v]; s.facts.append(lambda x,y:[T.implies(s.isin(v,x),T.eq(pre[0](x),pre[2]))])
def v_connected(ctx):
    f='_get_connected_elements'
    for w in(2,3,4):
        name='%s (%d-point elements)'%(f,w); ctx.function(F+f,'the parts are the connected components: every element is in exactly one part, elements with a common vertex are in the same part, and the elements of a part are connected','loop invariant')
        m=CC(w)
        def go():
            allobs=[]
            L=dyn_loader((f,),m); m.mkdict=dict
            class Rs(Rows):
                n=property(lambda s:m.N)
                def indices(s): return m.indices()
            rows=Rs(m); m.rows=rows; v2i=type('V',(),{'__getitem__':lambda s,v:m.near(tn(v)),'get':lambda s,v,d=None:m.near(tn(v))})()
            m.mklist=lambda x: Queue(m,x) if x and all(isinstance(q,Row) for q in x) else list(x)
            def num(x): 
                if x!=0 or m.cell is not None: raise Unsupported('counter')
                m.cell=Cell(m,T.IZERO); return m.cell
            L.extra_builtins['__vp_num__']=num; L.extra_builtins['__vp_val__']=lambda c:S(c.t)
            o=L.extra_builtins['range']
            def rg(*a):
                if len(a)==1 and isinstance(a[0],S):
                    if m.phase=='end' and a[0].t is m.cell.t:
                        m.c=fresh('c','I').t; assume(rng(m.c,m.cell.t)); m.phase='out'; return iter([S(m.c)])
                return o(*a)
            L.extra_builtins['range']=rg
            def full(n,v,**k):
                if not(isinstance(n,S) and n.t is m.N) or m.labels is not None or v!=-1: raise Unsupported('np.full')
                m.labels=Labels(m); return m.labels
            L.np.extra['full']=full; L.np.extra['where']=lambda k: k.nonzero(); L.np.extra['nonzero']=lambda k:k.nonzero(); L.np.extra['flatnonzero']=lambda k:k.nonzero()[0]
            M=L.get('traceon.mesher')
            def cv(e):
                if e is not rows: raise Unsupported('vertex map of something else')
                return v2i
            M._compute_vertex_to_indices=cv
            def body():
                m.reset()
                try:
                    r=M._get_connected_elements(rows)
                    if m.phase!='out': raise Unsupported('no loop over the components')
                    if not(isinstance(r,list) and len(r)==1 and isinstance(r[0],Where)): raise Unsupported('result %r'%(r,))
                    k=r[0].k; st=m.snap(); sel=lambda x,c: T.eq(st[0](x),c)
                    m.want('at the end: part c holds the elements with label c',T.eq(k.c,m.c)); m.want('at the end: the labels are not changed any more',T.TRUE if k.base==m.lbase and k.n==len(m.llog) else T.FALSE)
                    m.want('at the end: no part is empty',m.filled(st[0],m.cell.t))
                    m.want('at the end: every element is in one part',T.band(T.le(T.IZERO,st[0](I)),T.lt(st[0](I),m.cell.t)))
                    m.want('at the end: elements with a common vertex are in the same part',T.implies(m.adj(I,J),T.eq(st[0](I),st[0](J))))
                    m.want('at the end: the elements of a part are connected',T.implies(T.eq(st[0](I),st[0](J)),T.eq(m.comp(I),m.comp(J))))
                finally: allobs.append(list(m.obs))
            outs=explore(body,[T.lt(T.IZERO,m.N)])
            for k,o2 in enumerate(outs):
                if o2.kind!='ok' and P.feasible(o2.pc,3000): ctx.rec('%s: path %d'%(name,k),'unsupported','path','%r'%(o2.val,))
            ctx.check(name+': the function returns on some path',any(o2.kind=='ok' for o2 in outs)) if not any(o2.kind!='ok' for o2 in outs) else None
            seen=set()
            for obs in allobs:
                for nm,g,h in obs:
                    key=(nm,g,tuple(h))
                    if key in seen: continue
                    seen.add(key); soft(ctx,'%s: %s'%(name,nm),g,h)
        ctx.attempt(name,go)
