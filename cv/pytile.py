"""Contracts of the surface mesher (C22): sections, point indices, subdivision, triangulation, joining edges."""
import types, numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import loader, ok, pos, eqs, record_init, mksurf
from .pypath import same_ctx, each
from .pysurf import Y_
F='traceon/mesher.py:'
I_,J_,D_=[T.var(n,'I') for n in('i','j','d')]
def v_sections(ctx):
    u,v=T.var('u'),T.var('v')
    ctx.bounded.append('breakpoint lists of 0 to 2 entries')
    for n1,n2 in((0,0),(1,0),(0,2),(2,1)):
        L=loader(); G=L.get('traceon.geometry'); b1=[X('b%d'%k) for k in range(n1)]; b2=[X('c%d'%k) for k in range(n2)]; s=G.Surface(FN('s',3,2),X('l1'),X('l2'),list(b1),list(b2),'n')
        c1=[T.ZERO]+[tr(b) for b in b1]+[tr(X('l1'))]; c2=[T.ZERO]+[tr(b) for b in b2]+[tr(X('l2'))]
        def body(n,r,pc):
            if not ctx.check(n+': one section per pair of smooth parts',len(r)==(n1+1)*(n2+1),str(len(r)),bounded=True): return
            for k,q in enumerate(r):
                i,j=divmod(k,n2+1)
                same_ctx(ctx,'%s: section %d,%d is that part of the surface'%(n,i,j),q(S(u),S(v)),vec(s(S(T.add(c1[i],u)),S(T.add(c2[j],v)))),pc)
                same(ctx,'%s: section %d,%d lengths'%(n,i,j),[q.path_length1,q.path_length2],[T.sub(c1[i+1],c1[i]),T.sub(c2[j+1],c2[j])],pc); ctx.check('%s: section %d,%d has no breakpoints'%(n,i,j),len(q.breakpoints1)==0 and len(q.breakpoints2)==0)
        each(ctx,'Surface._sections (%d,%d breakpoints)'%(n1,n2),lambda:list(s._sections()),[T.lt(a,b) for c in(c1,c2) for a,b in zip(c,c[1:])],body)
LOW=('free_left','free_right','free_sec','free_idx','free_map')
def ax_low(u):
    """entries of an index map are -1 or an index (part of the invariant of the stack)."""
    if u.op=='f' and isinstance(u.args[0],str) and u.args[0].startswith(LOW): return [T.le(T.I(-1),u)]
A.AXIOMS.append(ax_low)
class Map2:
    """a square array of indices with arbitrary contents: elem(i,j)."""
    __sarr__=True
    def __init__(s,n,elem,row=None): s.n=tt(n); s.elem=elem
    @property
    def shape(s): return (S(s.n),S(s.n))
    def __slen__(s): return S(s.n)
    def _ix(s,i):
        i=tt(i)
        if i.sort!='I': raise Unsupported('real index')
        if T.isc(i) and T.cv(i)<0: return T.add(s.n,i)
        return i
    def __getitem__(s,k):
        if not isinstance(k,tuple) or len(k)!=2: raise Unsupported('map index')
        i,j=k
        if isinstance(i,Where) and isinstance(j,Where): return Gathered(s,i,j)
        if isinstance(i,slice) or isinstance(j,slice):
            if isinstance(i,slice) and i==slice(None) and not isinstance(j,slice): j=s._ix(j); return Edge(s,lambda q:(q,j))
            if isinstance(j,slice) and j==slice(None) and not isinstance(i,slice): i=s._ix(i); return Edge(s,lambda q:(i,q))
            raise Unsupported('map slice')
        i,j=s._ix(i),s._ix(j); Y.cur.events.append(('index',T.band(A.inrange(i,s.n),A.inrange(j,s.n)),list(Y.cur.pc)))
        v=s.elem(i,j)
        for u in T.walk([v]):
            for b in ax_low(u) or (): 
                if b not in Y.cur.pc: Y.cur.pc.append(b)
        return S(v)
    def __setitem__(s,k,v):
        i,j=k; old=s.elem
        if isinstance(i,slice) and isinstance(j,slice):
            if not(i==slice(None,None,2) and j==slice(None,None,2)): raise Unsupported('map store')
            if isinstance(v,Map2):
                Y.cur.events.append(('same length',T.eq(T.fun('floor_i',T.div(T.itor(T.add(s.n,T.IONE)),T.R(2))),v.n),list(Y.cur.pc))); ve=v.elem
                s.elem=lambda a,b:T.ite(T.band(even(a),even(b)),ve(half(a),half(b)),old(a,b)); return
            raise Unsupported('map store')
        if isinstance(i,Where) and isinstance(j,Where):
            if not(isinstance(v,Gathered) and i.m is j.m and i.ax==0 and j.ax==1 and v.i.m is i.m and v.i.k==1 and v.j.k==1 and v.i.ax==0 and v.j.ax==1): raise Unsupported('map scatter')
            ki,kj=i.k,j.k; ve=v.a.elem; me=i.m.elem
            if (ki,kj)!=(2,2): 
                if (ki,kj)!=(1,1): raise Unsupported('map scatter')
                s.elem=lambda a,b:T.ite(me(a,b),ve(a,b),old(a,b)); return
            n=v.a.n
            s.elem=lambda a,b:T.ite(T.band(even(a),even(b),A.inrange(half(a),n),A.inrange(half(b),n),me(half(a),half(b))),ve(half(a),half(b)),old(a,b)); return
        if isinstance(i,slice) or isinstance(j,slice): raise Unsupported('map store')
        i,j,v=s._ix(i),s._ix(j),tt(v); Y.cur.events.append(('index',T.band(A.inrange(i,s.n),A.inrange(j,s.n)),list(Y.cur.pc)))
        s.elem=lambda a,b:T.ite(T.band(T.eq(a,i),T.eq(b,j)),v,old(a,b))
    def __ne__(s,o): o=tt(o); e=s.elem; return Mask2(s.n,lambda a,b:T.bnot(T.eq(e(a,b),o)))
    def __ge__(s,o): o=tt(o); e=s.elem; return Mask2(s.n,lambda a,b:T.le(o,e(a,b)))
    __hash__=None
class Mask2:
    __sarr__=True
    def __init__(s,n,elem): s.n=n; s.elem=elem
class Where:
    __sarr__=True
    def __init__(s,m,ax,k=1): s.m=m; s.ax=ax; s.k=k
    def __mul__(s,o): return Where(s.m,s.ax,s.k*int(o))
    __rmul__=__mul__
class Gathered:
    __sarr__=True
    def __init__(s,a,i,j): s.a=a; s.i=i; s.j=j
class Edge(A.SArr):
    """a row or column of a map: stores go through to the map."""
    def __init__(s,m,pos): object.__setattr__(s,'m',m); object.__setattr__(s,'pos',pos); A.SArr.__init__(s,m.n,(),None,np.int64)
    def __setattr__(s,k,v):
        if k=='elem':
            if v is not None:
                m,pos=s.m,s.pos; old=m.elem; a0,b0=pos(T.var('probe!','I')); isrow=b0 is T.var('probe!','I')
                def f(a,b): return T.ite(T.eq(a,a0),tt(v(b)),old(a,b)) if isrow else T.ite(T.eq(b,b0),tt(v(a)),old(a,b))
                m.elem=f
            return
        object.__setattr__(s,k,v)
    @property
    def elem(s):
        e=s.m.elem; pos=s.pos
        return lambda q:S(e(*pos(q)))
def half(a): return T.fun('floor_i',T.div(T.itor(a),T.R(2)))
def even(a): return T.eq(T.mul(T.I(2),half(a)),a)
class Levels(list):
    """the list of index maps, of arbitrary length."""
    __sarr__=True
    def __init__(s,n,get): list.__init__(s); s.n=tt(n); s.get=get; s.new=[]
    def __slen__(s): return S(T.add(s.n,T.I(len(s.new))))
    def __len__(s): raise Unsupported('len')
    def append(s,m): s.new.append(m)
    def __getitem__(s,k):
        k=tt(k); tot=T.add(s.n,T.I(len(s.new)))
        if T.isc(k) and T.cv(k)<0: k=T.add(tot,k)
        for q,m in enumerate(s.new):
            d=T.sub(T.add(s.n,T.I(q)),k)
            if T.isc(d) and T.cv(d)==0 or Y.branch(T.eq(k,T.add(s.n,T.I(q)))): return m
        Y.cur.events.append(('index',T.band(T.le(T.IZERO,k),T.lt(k,s.n)),list(Y.cur.pc)))
        return s.get(k)
class Points(list):
    """the growing list of points."""
    __sarr__=True
    def __init__(s,n,elem): list.__init__(s); s.n=tt(n); s.elem=elem; s.new=[]
    def __slen__(s): return S(T.add(s.n,T.I(len(s.new))))
    def __len__(s): raise Unsupported('len')
    def append(s,p): s.new.append(p)
    def at(s,i):
        r=s.elem(i)
        for q,p in enumerate(s.new): r=[T.ite(T.eq(i,T.add(s.n,T.I(q))),tr(a),b) for a,b in zip(vec(p),r)]
        return r
    def __getitem__(s,k): return S_vec(s.at(tt(k)))
def S_vec(ts):
    o=np.empty(len(ts),object)
    for k,t in enumerate(ts): o[k]=S(t)
    return o
def idx(d,i,j): return T.mk('f',('free_idx',d,i,j),'I')
def pt(k): return [T.mk('f',('free_pt%d'%c,k),'R') for c in range(3)]
def size(d): return T.add(Y.pow2i(d),T.IONE)
def install2(L):
    A.install(L)
    full=L.np.extra['full']
    def f(shape,v,dtype=None,**k):
        if isinstance(shape,tuple) and len(shape)==2 and all(isinstance(x,(S,int)) and tt(x).sort=='I' for x in shape) and isinstance(v,int):
            Y.cur.events.append(('same length',T.eq(tt(shape[0]),tt(shape[1])),list(Y.cur.pc))); c=tt(v); return Map2(shape[0],lambda i,j:c)
        return full(shape,v,dtype,**k)
    L.np.extra['full']=f
    L.np.extra['where']=lambda c,*r: (Where(c,0),Where(c,1)) if isinstance(c,Mask2) and not r else Y.n_where(c,*r)
def stack(L,nlev,surf=None):
    M=L.get('traceon.mesher'); ps=M.PointStack.__new__(M.PointStack)
    s=types.SimpleNamespace(path_length1=X('l1'),path_length2=X('l2'))
    ps.path_length1,ps.path_length2=X('l1'),X('l2'); ps.surf=FN('s',3,2); ps.points=Points(X('npts','I'),pt); ps.indices=Levels(nlev,lambda d:LMap(d,ps))
    ps._maps={}
    return ps
class LMap(Map2):
    """an existing level; stores are remembered by the stack."""
    def __init__(s,d,ps): Map2.__init__(s,size(d),None); s.d=d; s.ps=ps
    def __setattr__(s,k,v):
        if k=='elem' and v is not None: s.ps._maps.setdefault(s.d,[]).append(v)
        else: object.__setattr__(s,k,v)
    @property
    def elem(s):
        st=s.ps._maps.get(s.d)
        return st[-1] if st else (lambda i,j:idx(s.d,i,j))
    @elem.setter
    def elem(s,v): pass
def where_is(d,i,j): return [T.mk('f',('free_s%d'%c,T.div(T.mul(tr(X('l1')),T.itor(i)),T.itor(Y.pow2i(d))),T.div(T.mul(tr(X('l2')),T.itor(j)),T.itor(Y.pow2i(d)))),'R') for c in range(3)]
def inv_at(n,npts,f,P_,d,i,j,W=where_is):
    """entry (i,j) of level d is -1 or refers to an existing point, which is the surface at its parameters."""
    x=f(d,i,j)
    return T.implies(T.band(T.le(T.IZERO,d),T.lt(d,n),A.inrange(i,size(d)),A.inrange(j,size(d)),T.bnot(T.eq(x,T.I(-1)))),T.band(T.le(T.IZERO,x),T.lt(x,npts),*[T.eq(a,b) for a,b in zip(P_(x),W(d,i,j))]))
def wvar(d,i,j): return [T.mk('f',('w%d'%c,d,i,j),'R') for c in range(3)]
def v_points(ctx):
    L=loader(); install2(L); M=L.get('traceon.mesher'); d,i,j,n=D_,I_,J_,T.var('levels','I'); npts=T.var('npts','I'); pre0=pos(X('l1'),X('l2'))+[T.le(T.IZERO,n),T.le(T.IZERO,npts),T.le(T.IZERO,d)]
    ctx.function(F+'PointStack','invariant: every index stored refers to the surface evaluated at the parameters of its entry','contract')
    ps=stack(L,n)
    def body(n_,r,pc): same_ctx(ctx,n_+': surface at the parameters of the index',r,where_is(d,i,j),pc)
    each(ctx,'PointStack.index_to_point',lambda:ps.index_to_point(S(d),S(i),S(j)),pre0,body)
    # the same parameters one level deeper
    w2=[T.mk('f',t.args,'R') for t in where_is(T.add(d,T.IONE),T.mul(T.I(2),i),T.mul(T.I(2),j))]
    for a,b in zip(where_is(d,i,j),w2):
        for x,y in zip(a.args[1:],b.args[1:]): ctx.zero('refinement lemma: entry (2i,2j) of the next level has the parameters of entry (i,j)',T.sub(x,y),pre0)
    # add_level
    def go():
        ps=stack(L,n); ps.add_level(); return ps
    def cur(ps):
        def f(dd,a,b):
            r=ps._maps[dd][-1](a,b) if dd in ps._maps else idx(dd,a,b)
            for q,m in enumerate(ps.indices.new): r=T.ite(T.eq(dd,T.add(n,T.I(q))),m.elem(a,b),r)
            for k,st in ps._maps.items():
                if k is not dd: r=T.ite(T.eq(dd,k),st[-1](a,b),r)
            return r
        return f
    lemma=lambda dd,a,b: [T.implies(T.band(even(a),even(b)),T.band(*[T.eq(x,y) for x,y in zip(wvar(dd,a,b),wvar(T.sub(dd,T.IONE),half(a),half(b)))]))]
    for start in(False,True):
        pre=pre0+[T.eq(n,T.IZERO) if start else T.le(T.IONE,n)]
        def body(n_,ps,pc):
            A.prove(ctx,n_+': one more level',T.band(T.eq(tt(ps.indices.__slen__()),T.add(n,T.IONE))),pc); f=cur(ps); m=ps.indices.new[0]
            A.prove(ctx,n_+': size of the new level',T.eq(m.n,size(n)),pc)
            base=[inv_at(n,npts,idx,pt,d,i,j,wvar),inv_at(n,npts,idx,pt,T.sub(d,T.IONE),half(i),half(j),wvar)]+lemma(d,i,j)+pw(d)+pw(n)
            A.prove(ctx,n_+': invariant kept',inv_at(T.add(n,T.IONE),npts,f,ps.points.at,d,i,j,wvar),pc+base)
            if not start: A.prove(ctx,n_+': known entries carry over',T.implies(T.band(A.inrange(i,size(T.sub(n,T.IONE))),A.inrange(j,size(T.sub(n,T.IONE)))),T.eq(f(n,T.mul(T.I(2),i),T.mul(T.I(2),j)),idx(T.sub(n,T.IONE),i,j))),pc+pw(n))
            A.prove(ctx,n_+': existing levels unchanged',T.implies(T.lt(d,n),T.eq(f(d,i,j),idx(d,i,j))),pc)
        each(ctx,'PointStack.add_level (%s)'%('first level' if start else 'further level'),go,pre,body)
    # to_point_index
    e=T.var('depth','I'); a,b=T.var('a','I'),T.var('b','I')
    ctx.bounded.append('PointStack.to_point_index: at most 3 levels are added by one call (any number of levels exists already)')
    for add in(0,1,2,3):
        ee=e if add==0 else T.add(n,T.I(add-1))
        pre=pre0+[T.le(T.IZERO,ee),A.inrange(a,size(ee)),A.inrange(b,size(ee)),T.lt(e,n) if add==0 else T.le(T.IONE,n)]
        def go():
            ps=stack(L,n); ps.wraps=[]
            ps.index_to_point=lambda dd,x,y:S_vec(wvar(tt(dd),tt(x),tt(y)))
            r=ps.to_point_index(S(ee),S(a),S(b)); return ps,r
        def body(n_,v,pc):
            ps,r=v; f=cur(ps); np2=tt(ps.points.__slen__()); n2=tt(ps.indices.__slen__())
            base=[]
            chain=[(d,i,j)]; 
            for _ in range(add): x=chain[-1]; chain.append((T.sub(x[0],T.IONE),half(x[1]),half(x[2])))
            ch2=[(ee,a,b)]
            for _ in range(add): x=ch2[-1]; ch2.append((T.sub(x[0],T.IONE),half(x[1]),half(x[2])))
            for q in chain+ch2: base+=[inv_at(n,npts,idx,pt,*q,wvar)]+lemma(*q)+pw(q[0])
            base+=pw(n)
            A.prove(ctx,n_+': refers to an existing point',T.band(T.le(T.IZERO,tt(r)),T.lt(tt(r),np2)),pc+base,timeout=40000)
            A.prove_eq(ctx,n_+': which is the surface at the parameters of the entry',S_vec(ps.points.at(tt(r))),S_vec(wvar(ee,a,b)),pc+base)
            A.prove(ctx,n_+': entry filled',T.eq(f(ee,a,b),tt(r)),pc+base); A.prove(ctx,n_+': level exists',T.lt(ee,n2),pc+base)
            A.prove(ctx,n_+': invariant kept',inv_at(n2,np2,f,ps.points.at,d,i,j,wvar),pc+base,timeout=40000)
        each(ctx,'PointStack.to_point_index (%d levels added)'%add,go,pre,body)
def pw(d): 
    """2**d = 2*2**(d-1) for d>=1."""
    return [T.implies(T.le(T.IONE,d),T.eq(Y.pow2i(d),T.mul(T.I(2),T.mk('f',('pow2i',T.sub(d,T.IONE)),'I'))))]

# ------------------------------------------------------------------ subdivision
class Work(list):
    """worklist: hands out one arbitrary quad, remembers what is pushed (a step of an arbitrary sequence of steps)."""
    __sarr__=True
    def __init__(s,q): list.__init__(s); s.q=q; s.left=1; s.pushed=[]
    def __slen__(s): return s.left
    def __len__(s): return s.left
    def __bool__(s): return s.left>0
    def pop(s,*k):
        if not s.left: raise Unsupported('work list')
        s.left=0; return s.q
    def append(s,q): s.pushed.append(q)
    def extend(s,qs): s.pushed+=list(qs)
    def insert(s,k,q): s.pushed.append(q)
    def __iadd__(s,qs): s.extend(qs); return s
    def __iter__(s): raise Unsupported('iteration over the work list')
    def __getitem__(s,k): raise Unsupported('index into the work list')
def scaled(q,top):
    """bounds of a quad in units of the deepest level occurring, as a multiple of the parent's."""
    c=T.sub(tt(q[0]),top)
    if not T.isc(c): raise Unsupported('depth of a quad')
    return int(T.cv(c)),[tt(x) for x in q[1:]]
def holds(q,x,y,k):
    a,b,c,d=[T.mul(T.I(k),v) for v in q]
    return T.band(T.le(a,x),T.lt(x,b),T.le(c,y),T.lt(y,d))
def v_subdivide(ctx):
    d,i0,i1,j0,j1=[T.var(n,'I') for n in('d','i0','i1','j0','j1')]; x,y=T.var('x','I'),T.var('y','I'); n2=Y.pow2i(d)
    si,sj=[Y.pow2i(T.var(n,'I')) for n in('si','sj')]; i1=T.add(i0,si); j1=T.add(j0,sj)
    base=[T.le(T.IZERO,d),T.le(T.IZERO,T.var('si','I')),T.le(T.IZERO,T.var('sj','I')),T.le(T.IZERO,i0),T.le(T.IONE,si),T.le(i1,n2),T.le(T.IZERO,j0),T.le(T.IONE,sj),T.le(j1,n2)]
    ctx.trust('induction over the steps of _subdivide_quads: each step replaces one quad of the work list by quads that tile it (the loop body is executed for one arbitrary quad; termination is not claimed)')
    for how in('number','function'):
        L=loader(); install2(L); M=L.get('traceon.mesher'); seen=[]
        class Stack(M.PointStack):
            def __init__(s):
                s.path_length1,s.path_length2=X('l1'),X('l2'); s.surf=FN('s',3,2); s.points=Points(X('npts','I'),pt); s.indices=Levels(X('levels','I'),lambda k:None); s.req=[]
            def to_point_index(s,a,b,c): s.req.append((tt(a),tt(b),tt(c))); return S(T.mk('f',('free_pidx',tt(a),tt(b),tt(c)),'I'))
            def add_level(s): raise Unsupported('level added outside the stack')
        ms=X('ms') if how=='number' else (lambda *p:S(T.fun('free_ms',*[tr(c) for c in p])))
        roots={}
        def root(x): return S(roots.setdefault(tr(x),T.var('root!%d'%len(roots)))) # any value: the choice of the split does not matter
        if hasattr(M,'sqrt'): M.sqrt=root
        def go():
            ps=Stack(); w=Work((S(d),S(i0),S(i1),S(j0),S(j1))); done=[]; cs=[[tr(c) for c in ps[S(d),S(a),S(b)]] for a in(i0,i1) for b in(j0,j1)]; ps.req=[]
            r=M._subdivide_quads(ps,ms,to_subdivide=w,quads=done)
            return ps,w,done,r,cs
        def body(n,v,pc):
            ps,w,done,r,cs=v
            if w.left: raise Unsupported('quad not taken from the work list')
            if r is not None: done=done if not isinstance(r,list) else r
            qs=[scaled(q,d) for q in w.pushed+done]; C=max([c for c,_ in qs]+[0])
            ctx.check(n+': quads handed on',len(qs)>0,repr(len(qs)))
            cnt=T.IZERO
            for c,q in qs:
                cnt=T.add(cnt,T.ite(holds(q,x,y,2**(C-c)),T.IONE,T.IZERO)); m=T.mul(T.I(2**c) if c>=0 else T.I(1),n2)
                ctx.true(n+': quad is not degenerate and lies on the grid',T.band(T.lt(q[0],q[1]),T.lt(q[2],q[3]),T.le(T.IZERO,q[0]),T.le(q[1],m),T.le(T.IZERO,q[2]),T.le(q[3],m)),pc)
                ctx.true(n+': both spans are powers of two',T.band(*[T.bor(*[T.eq(T.sub(b,a),T.mul(T.I(2**e),p_)) for e in range(C+1)]) for a,b,p_ in((q[0],q[1],si),(q[2],q[3],sj))]),pc)
            ctx.true(n+': the quad is covered exactly once',T.eq(cnt,T.ite(holds([i0,i1,j0,j1],x,y,2**C),T.IONE,T.IZERO)),pc)
            for q in done:
                for a in(1,2):
                    for b in(3,4):
                        ctx.check(n+': corner of a finished quad has a point',any(T.sub(k[0],tt(q[0])) is T.IZERO and T.sub(k[1],tt(q[a])) is T.IZERO and T.sub(k[2],tt(q[b])) is T.IZERO for k in ps.req),repr(q))
            if len(done)==1 and len(qs)==1: # the quad itself is finished: no side longer than the size asked at its centre
                msz=tr(ms if how=='number' else ms(*[S(T.div(T.add(*[c[k] for c in cs]),T.R(4))) for k in range(3)]))
                for a,b,side in((0,1,'first'),(2,3,'second'),(0,2,'third'),(1,3,'fourth')):
                    l2=T.add(*[T.mul(T.sub(cs[a][k],cs[b][k]),T.sub(cs[a][k],cs[b][k])) for k in range(3)]); rs=[q for x_,q in roots.items() if P.poly_zero(T.sub(x_,l2))]
                    if not rs: raise Unsupported('length of a side not recognised')
                    ctx.true(n+': %s side of a finished quad within the mesh size asked at its centre'%side,T.le(rs[0],msz),pc+[T.lt(T.ZERO,msz)]+[T.le(T.ZERO,q) for q in roots.values()])
            for k in ps.req: ctx.true(n+': requested entries are on the grid',T.band(T.le(T.IZERO,k[0]),A.inrange(k[1],size(k[0])),A.inrange(k[2],size(k[0]))),pc)
        each(ctx,'_subdivide_quads (mesh size is a %s)'%how,go,base,body)
def v_start(ctx):
    """every section starts from quads that tile its grid; all sections share one list of points."""
    ctx.bounded.append('start depth 0 to 3 (the library uses 2); breakpoint lists of 0 to 2 entries')
    for sd in(0,1,2,3):
        for n1,n2 in((0,0),(2,1)):
            L=loader(); install2(L); M=L.get('traceon.mesher'); G=L.get('traceon.geometry'); b1=[X('b%d'%k) for k in range(n1)]; b2=[X('c%d'%k) for k in range(n2)]
            s=G.Surface(FN('s',3,2),X('l1'),X('l2'),list(b1),list(b2),'n'); ms=X('ms'); calls=[]
            def sub(pstack,mesh_size,to_subdivide=[],quads=[]):
                calls.append((pstack,mesh_size,list(to_subdivide),quads)); quads.extend(to_subdivide); del to_subdivide[:]
                pstack.points.append(V('new%d'%len(calls)))
            M._subdivide_quads=sub
            c1=[T.ZERO]+[tr(b) for b in b1]+[tr(X('l1'))]; c2=[T.ZERO]+[tr(b) for b in b2]+[tr(X('l2'))]
            def go(): calls.clear(); return M._mesh_subsections_to_quads(s,ms,sd)
            def body(n,v,pc):
                points,st,qs=v; k=(n1+1)*(n2+1); N=2**sd
                if not ctx.check(n+': one stack and one list of quads per section',len(st)==len(qs)==k,'%d %d'%(len(st),len(qs)),bounded=True): return
                ctx.check(n+': mesh size handed on',all(c[1] is ms for c in calls)); ctx.check(n+': quads of different sections are kept apart',len({id(q) for q in qs})==k,bounded=True)
                ctx.check(n+': all sections share the returned list of points',all(p.points is points for p in st),bounded=True); ctx.check(n+': every new point kept',len(points)==len(calls),'%d %d'%(len(points),len(calls)),bounded=True)
                for e in range(k):
                    i,j=divmod(e,n2+1); same_ctx(ctx,'%s: stack %d,%d belongs to that section'%(n,i,j),st[e].index_to_point(1,1,1),vec(s(S(T.add(c1[i],T.div(T.sub(c1[i+1],c1[i]),T.R(2)))),S(T.add(c2[j],T.div(T.sub(c2[j+1],c2[j]),T.R(2)))))),pc)
                    ctx.check('%s: section %d,%d: calls with its own stack and quads'%(n,i,j),all((c[0] is st[e])==(c[3] is qs[e]) for c in calls),bounded=True)
                    cov={}
                    for q in qs[e]:
                        if int(q[0])!=sd: raise Unsupported('start quads of another depth')
                        for a in range(int(q[1]),int(q[2])):
                            for b in range(int(q[3]),int(q[4])): cov[a,b]=cov.get((a,b),0)+1
                    ctx.check('%s: start quads of section %d,%d tile the grid'%(n,i,j),cov=={(a,b):1 for a in range(N) for b in range(N)},repr(cov)[:300],bounded=True)
            each(ctx,'_mesh_subsections_to_quads start depth %d (%d,%d breakpoints)'%(sd,n1,n2),go,pos(ms)+[T.lt(a,b) for c in(c1,c2) for a,b in zip(c,c[1:])],body)
# ------------------------------------------------------------------ one index map per section
def v_normalize(ctx):
    i,j=I_,J_; npts=T.var('npts','I'); ctx.bounded.append('normalize_to_depth: at most 3 levels above the starting one, quads of each of these depths')
    F_=lambda dd,a,b:T.mk('f',('free_idx%d'%dd,a,b),'I')
    for nlev,depth,sd in((1,0,0),(2,1,0),(2,1,1),(2,2,0),(3,2,0),(3,3,1),(2,3,1),(3,2,2),(4,3,0)):
        if sd>nlev-1: continue
        L=loader(); install2(L); M=L.get('traceon.mesher'); N=2**depth
        qv=[[X('q%d%s'%(k,c),'I') for c in('i0','i1','j0','j1')] for k in range(sd,nlev)]
        pre=[T.le(T.IZERO,npts)]
        for k,q in zip(range(sd,nlev),qv): pre+=[T.le(T.IZERO,q[0].t),T.lt(q[0].t,q[1].t),T.le(q[1].t,T.I(2**k)),T.le(T.IZERO,q[2].t),T.lt(q[2].t,q[3].t),T.le(q[3].t,T.I(2**k))]
        def go():
            ps=M.PointStack.__new__(M.PointStack); ps.path_length1,ps.path_length2=X('l1'),X('l2'); ps.surf=FN('s',3,2); ps.points=Points(X('npts','I'),pt)
            ps.indices=[Map2(T.I(2**k+1),lambda a,b,k=k:F_(k,a,b)) for k in range(nlev)]
            return ps.normalize_to_depth(depth,[(k,)+tuple(q) for k,q in zip(range(sd,nlev),qv)],sd)
        def body(n,r,pc):
            m=r.indices
            if not isinstance(m,Map2): raise Unsupported('index map')
            A.prove(ctx,n+': size of the map',T.eq(m.n,T.I(N+1)),pc); f=m.elem
            # the invariant of every level gives the invariant of the map
            chain=[(depth,i,j)]
            for k in range(depth): x=chain[-1]; chain.append((x[0]-1,half(x[1]),half(x[2])))
            W=lambda k,a,b:[T.mk('f',('w%d'%c,T.I(k),a,b),'R') for c in range(3)]
            base=[]
            for k,a,b in chain:
                if k<nlev:
                    v=F_(k,a,b); base.append(T.implies(T.band(A.inrange(a,T.I(2**k+1)),A.inrange(b,T.I(2**k+1)),T.bnot(T.eq(v,T.I(-1)))),T.band(T.le(T.IZERO,v),T.lt(v,npts),*[T.eq(p,w) for p,w in zip(pt(v),W(k,a,b))])))
                if k>0: base.append(T.implies(T.band(even(a),even(b)),T.band(*[T.eq(p,q) for p,q in zip(W(k,a,b),W(k-1,half(a),half(b)))])))
            v=f(i,j); rng=[A.inrange(i,T.I(N+1)),A.inrange(j,T.I(N+1))]
            A.prove(ctx,n+': invariant kept: entry is -1 or refers to the surface at its parameters',T.bor(T.eq(v,T.I(-1)),T.band(T.le(T.IZERO,v),T.lt(v,npts),*[T.eq(p,w) for p,w in zip(pt(v),W(depth,i,j))])),pc+base+rng,timeout=60000)
            for k in range(sd,nlev):
                s_=T.I(2**(depth-k)); A.prove(ctx,n+': points of level %d are carried to the last level'%k,T.implies(T.bnot(T.eq(F_(k,i,j),T.I(-1))),T.bnot(T.eq(f(T.mul(s_,i),T.mul(s_,j)),T.I(-1)))),pc+[A.inrange(i,T.I(2**k+1)),A.inrange(j,T.I(2**k+1))],timeout=60000)
            q=np.asarray(r.quads,object)
            if not ctx.check(n+': number of quads',q.shape==(nlev-sd,5),repr(q.shape),bounded=True): return
            for row,k,q0 in zip(q,range(sd,nlev),qv): eqs(ctx,'%s: quad of level %d scaled to the last level'%(n,k),row,[S(T.I(depth))]+[S(T.mul(T.I(2**(depth-k)),x.t)) for x in q0],pc)
            ctx.check(n+': depth',int(S(tt(r.depth)))==depth)
        each(ctx,'PointStack.normalize_to_depth (%d levels, depth %d, start %d)'%(nlev,depth,sd),go,pre,body)
def v_triangles(ctx):
    """one arbitrary quad with any one-index or even spans, at most one of its edges carrying a hanging vertex at its middle."""
    N=T.var('N','I'); D=T.var('depth','I'); i0,j0,a,b=[T.var(n,'I') for n in('i0','j0','a','b')]
    ctx.trust('a disc-shaped polygon is tiled by triangles of one orientation whose directed edges cancel except along the boundary')
    G_=lambda i,j:T.mk('f',('free_map',i,j),'I')
    for ev in((0,0),(1,0),(0,1),(1,1)):
        i1=T.add(i0,T.mul(T.I(2),a) if ev[0] else T.IONE); j1=T.add(j0,T.mul(T.I(2),b) if ev[1] else T.IONE)
        P_=[(i0,j0),(i0,j1),(i1,j1),(i1,j0)]; mi=T.add(i0,a); mj=T.add(j0,b)
        mids={0:(i0,mj) if ev[1] else None,1:(mi,j1) if ev[0] else None,2:(i1,mj) if ev[1] else None,3:(mi,j0) if ev[0] else None}
        has=lambda p:T.bnot(T.eq(G_(*p),T.I(-1)))
        hm=[m for m in mids.values() if m]
        pre=[T.le(T.IONE,a),T.le(T.IONE,b),T.le(T.IZERO,i0),T.le(T.IZERO,j0),T.lt(i1,N),T.lt(j1,N)]+[has(p) for p in P_]+[T.bnot(T.band(has(p),has(q))) for p in hm for q in hm if p is not q]
        L=loader(); install2(L); M=L.get('traceon.mesher'); pq=M.PointsWithQuads.__new__(M.PointsWithQuads)
        def go():
            pq.indices=Map2(N,G_); pq.shape=pq.indices.shape; pq.depth=S(D); q=np.empty((1,5),object); q[0]=[S(D)]+[S(v) for v in(i0,i1,j0,j1)]; pq.quads=q
            return pq.to_triangles()
        def loc(v):
            t=tt(v)
            if not(t.op=='f' and t.args[0]=='free_map'): raise Unsupported('vertex is not an entry of the map')
            return t.args[1:]
        def body(n,tris,pc):
            ts=[[loc(v) for v in row] for row in tris]; f=[]; m={}
            # middles: floor((x+y)/2)
            allp=[p for t in ts for p in t]
            for u in T.walk([c for p in allp for c in p]+list(pc)):
                if u.op=='f' and u.args[0]=='floor_i' and u not in m: m[u]=None
            for u in list(m):
                c=[x for x in(i0,j0,i1,j1,mi,mj) if P.prove_bool(T.eq(u,x),[p for p in pc if not any(w.op=='f' for w in T.walk([p]))],5000).status=='proved']
                if not c: m.pop(u)
                else: m[u]=c[0]
            sub=lambda t:T.subst(t,m); ts=[[tuple(sub(c) for c in p) for p in t] for t in ts]; pc=[sub(p) for p in pc]
            area=lambda p,q,r:T.sub(T.mul(T.sub(q[0],p[0]),T.sub(r[1],p[1])),T.mul(T.sub(q[1],p[1]),T.sub(r[0],p[0])))
            A2=[area(*t) for t in ts]; tot=T.add(*A2); quad=T.mul(T.I(2),T.sub(i1,i0),T.sub(j1,j0))
            side=None
            for sg in(-1,1):
                if P.poly_zero(T.sub(T.mul(T.I(sg),tot),quad)): side=sg
            if side is None: ctx.zero(n+': areas add up to the quad',T.itor(T.sub(T.neg(tot),quad)),pc); side=-1
            else: ctx.check(n+': areas add up to the quad',True,method='polynomial identity')
            for k,t in enumerate(A2): ctx.true('%s: triangle %d has positive area, oriented like the others'%(n,k),T.lt(T.IZERO,T.mul(T.I(side),t)),pc)
            for k,t in enumerate(ts): ctx.true('%s: triangle %d lies in the quad'%(n,k),T.band(*[T.band(T.le(i0,p[0]),T.le(p[0],i1),T.le(j0,p[1]),T.le(p[1],j1)) for p in t]),pc)
            poly=[]
            for k in range(4):
                poly.append(P_[k])
                if mids[k] and P.prove_bool(has(mids[k]),pc,5000).status=='proved': poly.append(mids[k])
                elif mids[k]: ctx.true('%s: no vertex in the middle of edge %d'%(n,k),T.bnot(has(mids[k])),pc)
            want={(poly[k],poly[(k+1)%len(poly)]) for k in range(len(poly))}
            if side==1: want={(q,p) for p,q in want}
            E=[(t[k],t[(k+1)%3]) for t in ts for k in range(3)]; left=[e for e in E if (e[1],e[0]) not in E]
            ctx.check(n+': the outer edges are the edges of the quad, split at the hanging vertex',set(left)==want and len(left)==len(want) and len(set(E))==len(E),'%s instead of %s'%([[T.show(c,3) for p in e for c in p] for e in left],len(want)))
        each(ctx,'PointsWithQuads.to_triangles (spans %s x %s)'%tuple('even' if e else 'one' for e in ev),go,pre,body)
# ------------------------------------------------------------------ joining the sections
def v_copy_edge(ctx):
    n=T.var('n','I'); k=T.var('k','I'); f=lambda nm:(lambda a,b:T.mk('f',('free_'+nm,a,b),'I'))
    for e1,e2 in(((lambda m:m[-1,:]),(lambda m:m[0,:])),((lambda m:m[:,-1]),(lambda m:m[:,0]))):
        L=loader(); install2(L); M=L.get('traceon.mesher')
        col=e1(Map2(n,f('x'))).pos(k)[0] is k
        def go():
            a,b=Map2(n,f('left')),Map2(n,f('right')); M._copy_over_edge(e1(a),e2(b)); return a,b
        def body(nm,v,pc):
            a,b=v; last=T.sub(n,T.IONE); p=(k,last) if col else (last,k); q=(k,T.IZERO) if col else (T.IZERO,k); l,r=f('left')(*p),f('right')(*q); w=T.ite(T.eq(r,T.I(-1)),l,r); rg=[A.inrange(k,n)]
            A.prove(ctx,nm+': first edge has the joined points',T.eq(a.elem(*p),w),pc+rg); A.prove(ctx,nm+': second edge has the joined points',T.eq(b.elem(*q),w),pc+rg)
            i,j=I_,J_; inn=[A.inrange(i,n),A.inrange(j,n)]; c=1 if col else 0
            A.prove(ctx,nm+': first map unchanged elsewhere',T.eq(a.elem(i,j),f('left')(i,j)),pc+inn+[T.bnot(T.eq((i,j)[c],last))]); A.prove(ctx,nm+': second map unchanged elsewhere',T.eq(b.elem(i,j),f('right')(i,j)),pc+inn+[T.bnot(T.eq((i,j)[c],T.IZERO))])
        each(ctx,'_copy_over_edge (%s)'%('columns' if col else 'rows'),go,[T.le(T.I(2),n)],body)
TRI={}
def ax_tri(u):
    if u.args[0] in TRI: return [T.band(T.le(T.IZERO,u),T.lt(u,TRI[u.args[0]]))]
A.AXIOMS.append(ax_tri)
def v_mesh(ctx):
    n=T.var('n','I'); k=T.var('k','I'); npts=T.var('npts','I'); ctx.bounded.append('_mesh: 1 to 3 sections per direction, and rows of 4 or 5')
    for n1,n2 in((1,1),(2,1),(1,2),(2,2),(3,2),(2,3),(1,3),(3,1),(3,3),(1,5),(5,1),(2,4),(4,2)):
        for nm in('nm',None):
            for ens in(True,False):
                if (n1,n2)!=(1,2) and not(nm and ens): continue
                L=loader(); install2(L); M=L.get('traceon.mesher'); record_init(M); log={}
                ms=X('ms'); surf=types.SimpleNamespace(breakpoints1=[0.1*q for q in range(1,n1)],breakpoints2=[0.1*q for q in range(1,n2)]); K_=n1*n2
                class Pq:
                    def __init__(s,e): s.e=e; s.m=Map2(n,lambda a,b:T.mk('f',('free_sec%d'%e,a,b),'I')); s.indices=s.m
                    def __getitem__(s,q): return s.m[q]
                    def to_triangles(s):
                        log['maps']={q.e:(q.m.elem) for q in log['pq']}
                        for c in range(3): TRI['free_tris%d_%d'%(s.e,c)]=npts
                        return A.arr('tris%d'%s.e,X('nt%d'%s.e,'I'),(3,),np.int64)
                class St:
                    def __init__(s,e): s.e=e
                    def depth(s): return S(T.var('dep%d'%s.e,'I'))
                    def normalize_to_depth(s,d,q,sd): log['norm'].append((s.e,d,q,sd)); p=Pq(s.e); log['pq'].append(p); return p
                def subs(surface,mesh_size,start_depth):
                    log.update(args=(surface,mesh_size,start_depth),norm=[],pq=[])
                    return A.arr('pts',S(npts),(3,)),[St(e) for e in range(K_)],['quads%d'%e for e in range(K_)]
                M._mesh_subsections_to_quads=subs
                if hasattr(M,'_copy_over_edge'):
                    def cp(e1,e2):
                        if not(isinstance(e1,Edge) and isinstance(e2,Edge)): raise Unsupported('edges')
                        x,y=e1.elem,e2.elem; w=lambda q:S(T.ite(T.eq(tt(y(q)),T.I(-1)),tt(x(q)),tt(y(q))))
                        e1.elem=w; e2.elem=w
                    M._copy_over_edge=cp
                def sec(e): return lambda a,b:T.mk('f',('free_sec%d'%e,a,b),'I')
                last=T.sub(n,T.IONE); cor=[T.bnot(T.eq(sec(e)(a,b),T.I(-1))) for e in range(K_) for a in(T.IZERO,last) for b in(T.IZERO,last)]
                pre=[T.le(T.I(2),n),T.le(T.IZERO,npts)]+[T.le(T.IZERO,T.var('nt%d'%e,'I')) for e in range(K_)]+cor
                def body(nm_,m,pc):
                    ctx.check(nm_+': sections of this surface with the requested size',log['args'][0] is surf and log['args'][1] is ms)
                    nr=log['norm']; ctx.check(nm_+': every section brought to the same depth, with its own quads and the same start depth',sorted(x[0] for x in nr)==list(range(K_)) and all(x[2]=='quads%d'%x[0] and tt(x[3]) is tt(log['args'][2]) and tt(x[1]) is tt(nr[0][1]) for x in nr),repr(nr)[:400],bounded=True)
                    for e in range(K_): A.prove(ctx,nm_+': depth at least that of section %d'%e,T.le(T.var('dep%d'%e,'I'),tt(nr[0][1])),pc)
                    f=log['maps']
                    for i in range(n1):
                        for j in range(n2):
                            e=i*n2+j
                            if i<n1-1: A.prove(ctx,'%s: sections %d,%d and %d,%d share the points of their common edge'%(nm_,i,j,i+1,j),T.eq(f[e](last,k),f[e+n2](T.IZERO,k)),pc+[A.inrange(k,n)])
                            if j<n2-1: A.prove(ctx,'%s: sections %d,%d and %d,%d share the points of their common edge'%(nm_,i,j,i,j+1),T.eq(f[e](k,last),f[e+1](k,T.IZERO)),pc+[A.inrange(k,n)])
                            a,b=I_,J_; inner=[T.lt(T.IZERO,a),T.lt(a,last),T.lt(T.IZERO,b),T.lt(b,last)]
                            A.prove(ctx,'%s: section %d,%d unchanged inside'%(nm_,i,j),T.eq(f[e](a,b),sec(e)(a,b)),pc+inner)
                            # an edge entry is its own or the one the neighbouring sections have at the same place
                            A.prove(ctx,'%s: section %d,%d keeps its points'%(nm_,i,j),T.implies(T.bnot(T.eq(sec(e)(a,b),T.I(-1))),T.bnot(T.eq(f[e](a,b),T.I(-1)))),pc+[A.inrange(a,n),A.inrange(b,n)])
                    t=A.lift_arr(m.triangles); off=T.IZERO
                    for e in range(K_):
                        ne=T.var('nt%d'%e,'I'); w=A.arr('tris%d'%e,S(ne),(3,),np.int64)
                        A.prove_eq(ctx,'%s: triangles of section %d present'%(nm_,e),t.elem(T.add(off,k)),w.elem(k),pc+[A.inrange(k,ne)]); off=T.add(off,ne)
                    A.prove(ctx,nm_+': no other triangles',T.eq(t.n,off),pc)
                    p=A.lift_arr(m.points); A.prove(ctx,nm_+': all points',T.eq(p.n,npts),pc); A.prove_eq(ctx,nm_+': points unchanged',p.elem(k),A.arr('pts',S(npts),(3,)).elem(k),pc)
                    ctx.check(nm_+': groups',list(m.physical_to_triangles)==([nm] if nm else []) and not m.physical_to_lines,repr(list(m.physical_to_triangles)))
                    if nm and nm in m.physical_to_triangles:
                        g=A.lift_arr(m.physical_to_triangles[nm]); A.prove(ctx,nm_+': every triangle is in the group',T.band(T.eq(g.n,t.n),T.eq(tn(g.elem(k)),k)),pc+[A.inrange(k,t.n)])
                    ctx.check(nm_+': orientation flag handed on',m.ensure_flag==ens,repr(m.ensure_flag))
                each(ctx,'_mesh (%d x %d sections, name %s, ensure %s)'%(n1,n2,nm,ens),lambda:M._mesh(surf,ms,name=nm,ensure_outward_normals=ens),pre,body)
def v_surface_mesh(ctx):
    ms=X('ms'); f=lambda x,y,z:ms
    for sn,nm in((None,None),('sname',None),(None,'given'),('sname','given')):
        for ens in(True,False):
            for how,kw in(('mesh_size',dict(mesh_size=ms)),('function',dict(mesh_size=f)),('mesh_size_factor',dict(mesh_size_factor=ms)),('neither',{})):
                L=loader(); G=L.get('traceon.geometry'); s,pre=mksurf(L,nm=sn); calls=[]
                def mesh(surface,mesh_size,start_depth=2,name=None,ensure_outward_normals=True): calls.append((surface,mesh_size,start_depth,name,ensure_outward_normals)); return 'mesh'
                G._mesh=mesh
                def body(n,r,pc):
                    if len(calls)==0: raise Unsupported('_mesh not called')
                    c=calls[-1]; ctx.check(n+': this surface, name and orientation flag',r=='mesh' and c[0] is s and c[3]==(nm or sn) and c[4]==ens,repr(c))
                    if how in('mesh_size','function'): ctx.check(n+': requested mesh size',c[1] is kw['mesh_size'])
                    else: ctx.true(n+': mesh size positive',T.lt(T.ZERO,tr(c[1])),pc)
                each(ctx,'Surface.mesh (%s, surface %s, argument %s, ensure=%s)'%(how,sn,nm,ens),lambda:s.mesh(name=nm,ensure_outward_normals=ens,**kw),pre+pos(ms),body)
