"""Contracts of discretize_path and Path.mesh (C21)."""
import numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import loader, ok, pos, eqs, record_init
from .pypath import gpath, same_ctx, each
K=T.var('k','I')
def abstract(terms):
    """replace ceilings and reciprocals of lengths by variables with their defining facts."""
    m={}; facts=[]; n=0
    for u in T.walk(list(terms)):
        if u.op=='f' and u.args[0]=='ceil_i' and u not in m:
            n+=1; c=T.var('ceil!%d'%n,'I'); m[u]=c; x=u.args[1]; ci=T.itor(c); num,den=[],[]
            for f in (x.args if x.op=='mul' else [x]):
                if f.op=='pow' and f.args[1]<0: den.append(T.power(f.args[0],-f.args[1]))
                else: num.append(f)
            if den: a,b=T.mul(T.ONE,*num),T.mul(T.ONE,*den); facts+=[T.implies(T.lt(T.ZERO,b),T.le(a,T.mul(ci,b))),T.implies(T.lt(T.ZERO,b),T.lt(T.mul(ci,b),T.add(a,b)))]
            else: facts+=[T.le(x,ci),T.lt(ci,T.add(x,T.ONE))]
    return m,facts
def v_discretize(ctx):
    ctx.bounded.append('breakpoint lists of 0 to 2 entries (values, mesh size and numbers of samples are arbitrary)')
    for nb,eq0 in((0,False),(1,False),(2,False),(1,True)):
        for nf in(1,3):
            for how in('mesh_size','mesh_size_factor'):
                L=loader(); G=L.get('traceon.geometry'); Ln=X('len'); ms=X('ms'); bs=[X('b%d'%k) for k in range(nb)]; ch=[T.ZERO]+[tr(b) for b in bs]+[tr(Ln)]
                pre=[T.lt(a,b) for a,b in zip(ch,ch[1:])]+pos(ms)
                if eq0: pre[0]=T.eq(ch[0],ch[1]); bs=[0.0]+bs[1:]; ch[1]=T.ZERO; pre=[T.lt(T.ZERO,ch[2])]+pos(ms)
                name='discretize_path (%s%d breakpoints, N_factor=%d, %s)'%('zero and ' if eq0 else '',nb-eq0,nf,how)
                def body(n,u,pc):
                    u=A.lift_arr(u); pts=[c for k,c in enumerate(ch) if not(k and ch[k] is ch[k-1])]
                    if u.parts is None or len(u.parts)!=len(pts): raise Unsupported('samples are not a concatenation of one block per smooth part and the end')
                    goals=[]
                    N=[p[1] for p in u.parts]; off=[p[0] for p in u.parts]
                    e=lambda k:tr(u.elem(k))
                    def pr(lab,goal,extra=(),keep=()):
                        m,f=abstract([goal,u.n]+N+list(extra))
                        # sample spacing of every block as its own variable
                        g=[T.subst(x,m) for x in [goal]+list(extra)]; f2=[]
                        Ns=[T.subst(x,m) for x in N[:-1]]
                        for j,x in enumerate(Ns):
                            r=T.power(T.itor(x),-1); q=T.var('rec!%d'%j); hit=any(T.occurs(r,y) for y in g)
                            xs=T.itor(x)
                            for cand in {r,T.power(T.lift(x,'R'),-1)}:
                                g=[T.subst(y,{cand:q}) for y in g]
                            f2+=[T.eq(T.mul(q,xs),T.ONE),T.lt(T.ZERO,q),T.lt(T.ZERO,T.mul(q,T.sub(pts[j+1],pts[j])))]
                        A.prove(ctx,n+': '+lab,g[0],list(pc)+f+f2+g[1:],timeout=30000)
                    pr('at least one element',T.le(T.I(1+nf),u.n)); pr('starts at zero',T.eq(e(T.IZERO),T.ZERO)); pr('ends at the path length',T.eq(e(T.sub(u.n,T.IONE)),tr(Ln)))
                    for j in range(len(N)):
                        o,x=off[j],u.parts[j][2]; el=lambda i,x=x:tr(x.elem(i))
                        if j==len(N)-1: pr('last block is the end alone',T.eq(N[j],T.IONE)); continue
                        a,b=pts[j],pts[j+1]; d=T.sub(b,a)
                        pr('block %d starts at its breakpoint'%j,T.eq(el(T.IZERO),a)); pr('block %d has whole elements, at least three'%j,T.band(T.le(T.I(3*nf),N[j]),T.eq(T.mul(T.I(nf),T.fun('floor_i',T.div(T.itor(N[j]),T.R(nf)))),N[j])))
                        pr('block %d samples increase'%j,T.lt(el(K),el(T.add(K,T.IONE))),[A.inrange(K,N[j])]); pr('block %d stays before the next breakpoint'%j,T.lt(el(K),b),[A.inrange(K,N[j])])
                        # evenly spread: sample k is a+k/n*(b-a); the sample after the last one would be the next breakpoint
                        pr('block %d evenly spread up to the next breakpoint'%j,T.eq(el(N[j]),b)); ctx.zero(n+': block %d equal steps'%j,T.sub(T.sub(el(T.add(K,T.I(2))),el(T.add(K,T.IONE))),T.sub(el(T.add(K,T.IONE)),el(K))),pc)
                        if how=='mesh_size': pr('block %d steps no larger than the mesh size'%j,T.le(T.sub(el(T.add(K,T.I(nf))),el(K)),tr(ms)),[A.inrange(K,N[j])])
                kw={how:ms}
                each(ctx,name,lambda:G.discretize_path(Ln,list(bs),kw.get('mesh_size'),kw.get('mesh_size_factor'),N_factor=nf),pre,body)
    L=loader(); G=L.get('traceon.geometry'); ok(ctx,'discretize_path without mesh size and factor',explore(lambda:G.discretize_path(X('len'),[],None,None)),'raise')
def v_mesh(ctx):
    """Path.mesh against the contract of discretize_path; the mesh constructor receives the arguments checked here."""
    M_=X('M','I'); ms=X('ms')
    for ho in(False,True):
        for pn,nm in((None,None),('pname',None),(None,'given'),('pname','given')):
            L=loader(); G=L.get('traceon.geometry'); Me=L.get('traceon.mesher'); record_init(Me)
            N=T.add(T.mul(T.I(3 if ho else 1),M_.t),T.IONE); us=A.arr('u',S(N),()); calls=[]
            def disc(path_length,breakpoints,mesh_size,mesh_size_factor=None,N_factor=1):
                calls.append((path_length,breakpoints,mesh_size,mesh_size_factor,N_factor)); return us.copy()
            G.discretize_path=disc
            p,pre=gpath(G,'f',2,pn); name='Path.mesh (%s, path %s, argument %s)'%('higher order' if ho else 'linear',pn,nm); pre=pre+[T.le(T.IONE,M_.t)]+pos(ms)
            for ens in(True,False):
                for sz in('mesh_size','mesh_size_factor'):
                    calls.clear()
                    def body(n,m,pc):
                        if not calls: raise Unsupported('discretize_path not called')
                        c=calls[-1]; ctx.check(n+': samples of this path with the requested size',len(calls)==1 and tt(c[0]) is tt(p.path_length) and [tt(b) for b in c[1]]==[tt(b) for b in p.breakpoints] and (tt(c[2]) is ms.t and c[3] is None if sz=='mesh_size' else c[2] is None and tt(c[3]) is ms.t) and c[4]==(3 if ho else 1),repr(c))
                        pts=A.lift_arr(m.points); ln=A.lift_arr(m.lines)
                        A.prove(ctx,n+': one point per sample',T.eq(pts.n,N),pc); A.prove_eq(ctx,n+': point k is the path at sample k',pts.elem(K),p(us.elem(K)),pc+[A.inrange(K,N)])
                        A.prove(ctx,n+': number of elements',T.eq(ln.n,M_.t),pc); k3=T.mul(T.I(3),K)
                        want=[K,T.add(K,T.IONE)] if not ho else [k3,T.add(k3,T.I(3)),T.add(k3,T.IONE),T.add(k3,T.I(2))]
                        A.prove_eq(ctx,n+': element k joins successive samples',ln.elem(K),np.array([S(w) for w in want],object),pc+[A.inrange(K,ln.n)])
                        g=nm or pn; ctx.check(n+': named group',list(m.physical_to_lines)==([g] if g else []) and not m.physical_to_triangles,repr(list(m.physical_to_lines)))
                        if g in m.physical_to_lines:
                            q=A.lift_arr(m.physical_to_lines[g]); A.prove(ctx,n+': group has all elements',T.eq(q.n,ln.n),pc); A.prove_eq(ctx,n+': group entry k is element k',q.elem(K),S(K),pc+[A.inrange(K,q.n)])
                        ctx.check(n+': no triangles; orientation flag handed on',(not hasattr(m.triangles,'__sarr__') and len(m.triangles)==0) and m.ensure_flag==ens,repr(m.ensure_flag))
                    each(ctx,name+' ensure=%s %s'%(ens,sz),lambda:p.mesh(**{sz:ms},higher_order=ho,name=nm,ensure_outward_normals=ens),pre,body)
def v_collection_mesh(ctx,kinds=('Path','Surface')):
    """a collection's mesh combines the meshes of all members, each with the requested size, name and orientation flag."""
    ctx.bounded.append('collections of 1 to 3 members')
    ms=X('ms')
    for kind in kinds:
        for n_ in(1,2,3):
            for cn,nm in((None,None),('cname',None),(None,'given'),('cname','given')):
                for ens in(True,False):
                    for sz in('mesh_size','mesh_size_factor'):
                        for ho in ((False,True) if kind=='Path' else (None,)):
                            L=loader(); G=L.get('traceon.geometry'); Me=L.get('traceon.mesher'); record_init(Me); calls=[]
                            C=getattr(G,kind); CC=getattr(G,kind+'Collection')
                            def member_mesh(self,mesh_size=None,mesh_size_factor=None,name=None,ensure_outward_normals=True,**k):
                                m=Me.Mesh(); m.tag=('member',self,mesh_size,mesh_size_factor,name,ensure_outward_normals,k.get('higher_order',False)); return m
                            C.mesh=member_mesh
                            def combine(self,other,ensure_outward_normals=None,**k):
                                m=Me.Mesh(); m.tag=('sum',self,other,ensure_outward_normals); return m
                            Me.Mesh._combine=combine
                            mem=[gpath(G,'f%d'%k,0,'m%d'%k)[0] if kind=='Path' else G.Surface(FN('s%d'%k,3,2),X('l1'),X('l2'),[],[],'m%d'%k) for k in range(n_)]
                            kw={sz:ms}; 
                            if ho is not None: kw['higher_order']=ho
                            name='%sCollection.mesh (%d members, collection %s, argument %s, ensure=%s, %s%s)'%(kind,n_,cn,nm,ens,sz,' higher order' if ho else '')
                            def mk():
                                c=CC(list(mem)); c._name=cn
                                return c.mesh(name=nm,ensure_outward_normals=ens,**kw)
                            def flat(m):
                                t=getattr(m,'tag',None)
                                if t is None: return []
                                if t[0]=='member': return [m]
                                return flat(t[1])+flat(t[2])
                            def body(n,m,pc):
                                f=flat(m); sums=[x for x in walk(m) if x.tag[0]=='sum']
                                ctx.check(n+': combines every member once',sorted(id(x.tag[1]) for x in f)==sorted(id(x) for x in mem),bounded=True)
                                want=nm or cn
                                ctx.check(n+': members meshed with the requested size, name and orientation flag',all((x.tag[2] is ms and x.tag[3] is None if sz=='mesh_size' else x.tag[2] is None and x.tag[3] is ms) and (x.tag[4]==want or want is None and x.tag[4]==x.tag[1].name) and x.tag[5]==ens and x.tag[6]==bool(ho) for x in f),repr([x.tag[2:] for x in f]),bounded=True)
                                ctx.check(n+': orientation flag kept when combining',ens or all(s.tag[3] is False for s in sums),repr([s.tag[3] for s in sums]),bounded=True)
                            def walk(m):
                                t=getattr(m,'tag',None)
                                if t is None: return []
                                return [m]+(walk(t[1])+walk(t[2]) if t[0]=='sum' else [])
                            each(ctx,name,mk,[],body)
