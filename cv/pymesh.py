"""Contracts of the Mesh class (C16, C17): construction, clean-up, sums, extraction, removal, conversion."""
import types, numpy as np
from fractions import Fraction as Fr
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import loader, ok, pos, eqs, record_init, mkmesh, vertex, flat, snap_mesh, same_snap
F='traceon/mesher.py:'
K=T.var('k','I'); Q=T.var('q','I')
RNG={}
def ax_rng(u):
    """validity of the given mesh: element indices refer to points, group indices to elements."""
    n=u.args[0]
    if n in RNG: return [T.band(T.le(T.IZERO,u),T.lt(u,RNG[n]))]
A.AXIOMS.append(ax_rng)
def ax_round(u):
    """clearing the low k bits of a double truncates it towards zero by less than one unit of the kept digits."""
    if isinstance(u.args[0],str) and u.args[0].startswith('roundbits'):
        k=int(u.args[0][9:]); x=u.args[1]; e=T.mul(T.R(Fr(1,2**(52-k))),T.fun('fabs',x))
        return [T.le(T.fun('fabs',T.sub(x,u)),e)]
A.AXIOMS.append(ax_round)
def each(ctx,name,fn,pre,body,kind='ok'):
    ctx.function(F+name.split(' ')[0],name,'contract')
    if pre: ctx.vacuity(name,pre)
    def go():
        outs=ok(ctx,name,explore(fn,pre),kind)
        for k,o in enumerate(outs): body('%s%s'%(name,' path %d'%k if len(outs)>1 else ''),o.val,o.pc)
        A.events(ctx,name,outs)
    ctx.attempt(name,go)
def mesh(M,tag='',lw=2,tw=3,lg=('a',),tg=('b',),nonempty=False):
    m,pre=mkmesh(M,tag,lw,tw,lg,tg)
    for w,e in(('lines',lw),('triangles',tw)):
        for c in range(e): RNG['free_%s%s_%d'%(tag,w,c)]=m.points.n
    for nm,g in m.physical_to_lines.items(): RNG['free_%sgl_%s_0'%(tag,nm)]=m.lines.n
    for nm,g in m.physical_to_triangles.items(): RNG['free_%sgt_%s_0'%(tag,nm)]=m.triangles.n
    return m,pre
L_=A.lift_arr
def coords(m,kind,k):
    a=L_(getattr(m,kind)); p=L_(m.points)
    return flat([p.elem(tn(x)) for x in np.ravel(a.elem(k))])
def group(m,kind,nm): return L_((m.physical_to_lines if kind=='lines' else m.physical_to_triangles)[nm])
def empty(a): return (not hasattr(a,'__sarr__') and len(a)==0)
def eq_arr(ctx,n,a,b,pc):
    a,b=L_(a),L_(b)
    if not A.prove(ctx,n+': length',T.eq(a.n,b.n),pc): return
    if not P.feasible(list(pc)+[T.lt(T.IZERO,b.n)],2000): return
    A.prove_eq(ctx,n+': every entry',a.elem(K),b.elem(K),pc+[A.inrange(K,b.n)])
# ------------------------------------------------------------------ cleaning up
def area_stub(p):
    """contract of the area routine (proved for the C code): a function of the vertices, not negative."""
    e=p.elem
    return A.SArr(p.n,(),lambda i:S(T.fun('fabs',T.fun('free_area',*[tr(x) for x in np.ravel(e(i))]))),float)
def v_degenerate(ctx):
    for tw in(3,6):
        for tg in((),('b',),('b','c')):
            L=loader({'triangle_areas':area_stub}); M=L.get('traceon.mesher'); _,pre=mesh(M,'',2,tw,('a',),tg)
            name='Mesh._remove_degenerate_triangles (%d-point triangles, groups %s)'%(tw,','.join(tg) or 'none')
            def go():
                m,_=mesh(M,'',2,tw,('a',),tg); m._remove_degenerate_triangles(); return m
            def body(n,m,pc):
                o,_=mesh(M,'',2,tw,('a',),tg); pts=lambda k:flat([o.points.elem(tn(x)) for x in o.triangles.elem(k)[:3]])
                area=lambda k:T.fun('fabs',T.fun('free_area',*[tr(x) for x in pts(k)])); keep=A.SArr(o.triangles.n,(),lambda k:S(T.bnot(T.lt(area(k),T.R(1e-12)))),bool); nm=A.mask_id(keep); rank=lambda k:T.fun_i('rank_'+nm,k); nth=lambda k:T.fun_i('nth_'+nm,k)
                t=L_(m.triangles)
                A.prove(ctx,n+': as many triangles as have area at least 1e-12',T.eq(t.n,rank(o.triangles.n)),pc)
                A.prove_eq(ctx,n+': every remaining triangle is one of the original ones, of area at least 1e-12, unchanged',t.elem(K),o.triangles.elem(nth(K)),pc+[A.inrange(K,t.n)]); A.prove(ctx,n+': no triangle of smaller area remains',T.le(T.R(1e-12),area(nth(K))),pc+[A.inrange(K,t.n)])
                A.prove_eq(ctx,n+': every triangle of area at least 1e-12 remains',t.elem(rank(K)),o.triangles.elem(K),pc+[A.inrange(K,o.triangles.n),T.le(T.R(1e-12),area(K))]); A.prove(ctx,n+': at an existing index',A.inrange(rank(K),t.n),pc+[A.inrange(K,o.triangles.n),T.le(T.R(1e-12),area(K))])
                if not ctx.check(n+': names kept',list(m.physical_to_triangles)==list(o.physical_to_triangles)): return
                for g in tg:
                    a,b=group(m,'triangles',g),group(o,'triangles',g); be=b.elem; sel=A.SArr(b.n,(),lambda k:keep.elem(tn(be(k))),bool); sn=A.mask_id(sel); r2=lambda k:T.fun_i('rank_'+sn,k); n2=lambda k:T.fun_i('nth_'+sn,k)
                    A.prove(ctx,n+': group %s: every entry refers to an existing triangle'%g,A.inrange(tn(a.elem(K)),t.n),pc+[A.inrange(K,a.n)])
                    A.prove(ctx,n+': group %s: as many entries as members remain'%g,T.eq(a.n,r2(b.n)),pc)
                    A.prove(ctx,n+': group %s: every entry is a remaining member'%g,T.eq(nth(tn(a.elem(K))),tn(be(n2(K)))),pc+[A.inrange(K,a.n)])
                    A.prove(ctx,n+': group %s: every remaining member is listed'%g,T.band(A.inrange(r2(K),a.n),T.eq(tn(a.elem(r2(K))),rank(tn(be(K))))),pc+[A.inrange(K,b.n),T.le(T.R(1e-12),area(tn(be(K))))])
                eq_arr(ctx,n+': points unchanged',m.points,o.points,pc); eq_arr(ctx,n+': lines unchanged',m.lines,o.lines,pc)
                if ctx.check(n+': names of lines kept',list(m.physical_to_lines)==list(o.physical_to_lines)): eq_arr(ctx,n+': line group unchanged',group(m,'lines','a'),group(o,'lines','a'),pc)
            each(ctx,name,go,pre,body)
def v_dedup(ctx):
    ctx.trust('clearing low mantissa bits: truncation by a relative amount below 2^-36 (no underflow); lexsort returns a permutation')
    for lw,tw in((2,3),(4,6)):
        L=loader(); M=L.get('traceon.mesher'); _,pre=mesh(M,'',lw,tw)
        def go():
            m,_=mesh(M,'',lw,tw); m._deduplicate_points(); return m
        def body(n,m,pc):
            o,_=mesh(M,'',lw,tw); p=L_(m.points)
            for w in('lines','triangles'):
                a,b=L_(getattr(m,w)),getattr(o,w); wd=lw if w=='lines' else tw
                A.prove(ctx,n+': number of %s kept'%w,T.eq(a.n,b.n),pc)
                none=[T.eq(b.n,T.IZERO),T.eq(o.points.n,T.IZERO)]
                if any(x in pc for x in none) or not P.feasible(list(pc)+[A.inrange(K,b.n),T.lt(T.IZERO,o.points.n)],3000): continue
                got,src=[tn(x) for x in np.ravel(a.elem(K))],[tn(x) for x in np.ravel(b.elem(K))]
                # the new index as a function of the old one
                ren=[lambda t,g=g,s_=s_:T.subst(g,{s_:t}) for g,s_ in zip(got,src)]
                perms={u.args[0][4:] for u in T.walk(got) if u.op=='f' and str(u.args[0]).startswith('inv_')}
                if not perms:
                    for c,(g,s_) in enumerate(zip(got,src)): A.prove(ctx,n+': %s: index %d refers to a point at its vertex'%(w,c),T.band(A.inrange(g,p.n),*[T.eq(tr(x),T.fun('roundbits16',tr(y))) for x,y in zip(np.ravel(p.elem(g)),np.ravel(o.points.elem(s_)))]),list(pc)+[A.inrange(K,b.n)])
                    continue
                if len(perms)!=1: raise Unsupported('renumbering not recognised')
                pm=perms.pop(); perm=lambda k:T.fun_i('perm_'+pm,k); np_=o.points.n
                f=ren[0]
                if not all(ctx.check(n+': all vertices of %s renumbered alike'%w,r(CANI) is f(CANI)) for r in ren): return
                r36=lambda k:[T.fun('roundbits16',tr(x)) for x in np.ravel(o.points.elem(k))]
                good=lambda j:T.band(A.inrange(f(perm(j)),p.n),*[T.eq(tr(x),y) for x,y in zip(np.ravel(p.elem(f(perm(j)))),r36(perm(j)))])
                j=T.var('j','I'); pos_=[T.lt(T.IZERO,np_)]
                A.prove(ctx,n+': %s: induction over the sorted points, first point'%w,good(T.IZERO),list(pc)+pos_); A.prove(ctx,n+': %s: induction over the sorted points, step'%w,good(T.add(j,T.IONE)),list(pc)+[good(j),T.le(T.IZERO,j),T.lt(T.add(j,T.IONE),np_)])
                for c,(g,s_) in enumerate(zip(got,src)):
                    inv=T.fun_i('inv_'+pm,s_); hyp=T.subst(good(j),{j:inv}); fact=list(pc)+[A.inrange(K,b.n),T.implies(A.inrange(inv,np_),hyp)]
                    A.prove(ctx,n+': %s: index %d refers to an existing point'%(w,c),A.inrange(g,p.n),fact)
                    for d in range(3):
                        x=tr(o.points.elem(s_)[d]); y=tr(p.elem(g)[d])
                        A.prove(ctx,n+': %s: vertex %d moves by at most 2e-11 relative, coordinate %d'%(w,c,d),T.le(T.fun('fabs',T.sub(x,y)),T.mul(T.R(2e-11),T.fun('fabs',x))),fact)
            for w in('lines','triangles'):
                g,g0=getattr(m,'physical_to_'+w),getattr(o,'physical_to_'+w)
                if ctx.check(n+': names of %s kept'%w,list(g)==list(g0)):
                    for x in g: eq_arr(ctx,n+': group %s unchanged'%x,g[x],g0[x],pc)
        each(ctx,'Mesh._deduplicate_points (%d-point lines, %d-point triangles)'%(lw,tw),go,pre,body)
CANI=T.var('index!','I')
def v_init(ctx):
    """the constructor copies its arguments, cleans up, orients when asked, and refuses invalid indices."""
    for lw,tw in((2,3),(4,6)):
        for ens in(True,False):
            for given in('all','lines only','triangles only','nothing'):
                if given!='all' and (lw,ens)!=(2,True): continue
                L=loader(); M=L.get('traceon.mesher'); log=[]
                M.Mesh._remove_degenerate_triangles=lambda s:log.append('degenerate'); M.Mesh._deduplicate_points=lambda s:log.append('points'); M.Mesh.ensure_outward_normals=lambda s,e:log.append(('out',e)); M.Mesh.ensure_inward_normals=lambda s,e:log.append(('in',e))
                _,pre=mesh(M,'',lw,tw); box={}
                def go():
                    del log[:]
                    o,_=mesh(M,'',lw,tw); kw={}
                    if given!='nothing': kw['points']=o.points
                    if given in('all','lines only'): kw.update(lines=o.lines,physical_to_lines=o.physical_to_lines)
                    if given in('all','triangles only'): kw.update(triangles=o.triangles,physical_to_triangles=o.physical_to_triangles)
                    s0=snap_mesh(o); m=M.Mesh(ensure_outward_normals=ens,**kw)
                    return m,o,same_snap(s0,o),list(log)
                def body(n,v,pc):
                    m,o,un,lg=v; ctx.check(n+': arguments not modified',un)
                    for w in('points','lines','triangles'):
                        a=getattr(m,w); b=getattr(o,w); has=w=='points' and given!='nothing' or w!='points' and given in('all',w+' only')
                        if has: eq_arr(ctx,n+': %s taken over'%w,a,b,pc); ctx.check(n+': %s copied'%w,a is not b)
                        else: ctx.check(n+': no %s'%w,empty(a) or T.isc(L_(a).n) and T.cv(L_(a).n)==0,repr(a))
                        if w!='points' and has:
                            g,g0=getattr(m,'physical_to_'+w),getattr(o,'physical_to_'+w); ctx.check(n+': group map of %s copied'%w,g is not g0 and list(g)==list(g0))
                            for x in g0: eq_arr(ctx,n+': group %s taken over'%x,g[x],g0[x],pc)
                    ctx.check(n+': cleaned up before orienting',set(lg[:2])=={'degenerate','points'} and all(x[0]=='out' for x in lg[2:]),repr(lg))
                    names=(['a'] if given in('all','lines only') else [])+(['b'] if given in('all','triangles only') else [])
                    ctx.check(n+': orientation of every group %s'%('requested' if ens else 'left alone'),sorted({x[1] for x in lg[2:]})==(names if ens else []),repr(lg))
                each(ctx,'Mesh (%d-point lines, %d-point triangles, %s given, ensure=%s)'%(lw,tw,given,ens),go,pre,body)
                if given=='all' and ens and lw==2:
                    for w,c in(('lines',0),('triangles',0)):
                        def bad():
                            o,_=mesh(M,'',lw,tw); setattr(o,w,getattr(o,w).copy()); a=getattr(o,w); e=a.elem; col=np.arange(a.tail[0])==c
                            def f(i):
                                x=e(i).copy()
                                for q in range(len(x)): x[q]=S(T.mk('f',('free_bad_%s%d'%(w,q),i),'I'))
                                return x
                            a.elem=f
                            return M.Mesh(o.points,o.lines,o.triangles,o.physical_to_lines,o.physical_to_triangles,ensure_outward_normals=False)
                        def go2():
                            outs=explore(bad,pre+[T.lt(T.I(5),X('n_'+w,'I').t)]); kinds={(o.kind,type(o.val).__name__ if o.kind=='raise' else '') for o in outs}
                            ctx.check('Mesh: arbitrary %s: accepted only through the index check'%w,any(k[0]=='raise' for k in kinds) and all(o.kind=='raise' or any('forall' in repr(T.show(p,6)) for p in o.pc) for o in outs),repr(kinds))
                        ctx.attempt('Mesh: invalid '+w,go2)
# ------------------------------------------------------------------ sums
def v_combine(ctx):
    GR=[(('a',),('b',),('a',),('b',)),(('a','n'),('b',),('c',),('b','d')),((),(),('a',),('b',)),(('a',),(),('b',),('a',)),((),(),(),())]
    for lw,tw in((2,3),(4,6)):
        for gi,(l1,t1,l2,t2) in enumerate(GR):
            for ens in(True,False,None):
                if lw==4 and gi>1 or ens is not None and gi>1: continue
                L=loader(); M=L.get('traceon.mesher'); record_init(M); pre=mesh(M,'x',lw,tw,l1,t1)[1]+mesh(M,'y',lw,tw,l2,t2)[1]
                def go():
                    a,_=mesh(M,'x',lw,tw,l1,t1); b,_=mesh(M,'y',lw,tw,l2,t2); sa,sb=snap_mesh(a),snap_mesh(b)
                    r=a+b if ens is None else a._combine(b,ensure_outward_normals=ens)
                    return r,a,b,same_snap(sa,a) and same_snap(sb,b)
                def body(n,v,pc):
                    r,a,b,un=v; ctx.check(n+': operands unchanged',un); ctx.check(n+': orientation flag',r.ensure_flag==(True if ens is None else ens))
                    for w in('lines','triangles'):
                        x,y,z=L_(getattr(a,w)),L_(getattr(b,w)),L_(getattr(r,w))
                        A.prove(ctx,n+': number of %s'%w,T.eq(z.n,T.add(x.n,y.n)),pc)
                        if not P.feasible(list(pc)+[T.lt(T.IZERO,x.n)],2000) and not P.feasible(list(pc)+[T.lt(T.IZERO,y.n)],2000): continue
                        if P.feasible(list(pc)+[T.lt(T.IZERO,x.n)],2000): A.prove_eq(ctx,n+': %s of the first mesh with their vertices'%w,coords(r,w,K),coords(a,w,K),pc+[A.inrange(K,x.n)])
                        if P.feasible(list(pc)+[T.lt(T.IZERO,y.n)],2000): A.prove_eq(ctx,n+': %s of the second mesh with their vertices'%w,coords(r,w,T.add(x.n,K)),coords(b,w,K),pc+[A.inrange(K,y.n)])
                        A.prove(ctx,n+': indices of %s refer to points'%w,T.band(*[A.inrange(tn(q),L_(r.points).n) for q in np.ravel(z.elem(K))]),pc+[A.inrange(K,z.n)])
                        ga,gb,gr=[getattr(m,'physical_to_'+w) for m in(a,b,r)]
                        if not ctx.check(n+': names of %s'%w,set(gr)==set(ga)|set(gb),repr(list(gr))): continue
                        for nm in gr:
                            g=L_(gr[nm]); n1=ga[nm].n if nm in ga else T.IZERO; n2=gb[nm].n if nm in gb else T.IZERO
                            A.prove(ctx,n+': size of group %s'%nm,T.eq(g.n,T.add(n1,n2)),pc)
                            if nm in ga: A.prove(ctx,n+': group %s: elements of the first mesh'%nm,T.eq(tn(g.elem(K)),tn(ga[nm].elem(K))),pc+[A.inrange(K,n1)])
                            if nm in gb: A.prove(ctx,n+': group %s: elements of the second mesh'%nm,T.eq(tn(g.elem(T.add(n1,K))),T.add(x.n,tn(gb[nm].elem(K)))),pc+[A.inrange(K,n2)])
                each(ctx,'Mesh.__add__ (%d,%d-point, groups %s/%s + %s/%s, ensure=%s)'%(lw,tw,''.join(l1),''.join(t1),''.join(l2),''.join(t2),ens),go,pre,body)
    L=loader(); M=L.get('traceon.mesher'); record_init(M); m,_=mesh(M)
    ctx.check('Mesh.__add__ with something else is refused',M.Mesh.__add__(m,3) is NotImplemented)
# ------------------------------------------------------------------ parts
def v_extract(ctx):
    for lg,tg,nm,kind in((('a',),('b',),'a','lines'),(('a',),('b',),'b','triangles'),(('a','c'),('a',),'a','lines'),((),('b','c'),'c','triangles')):
        for lw,tw in((2,3),(4,6)):
            L=loader(); M=L.get('traceon.mesher'); record_init(M); pre=mesh(M,'',lw,tw,lg,tg)[1]
            def go():
                m,_=mesh(M,'',lw,tw,lg,tg); s=snap_mesh(m); r=m.extract_physical_group(nm); return r,m,same_snap(s,m)
            def body(n,v,pc):
                r,m,un=v; ctx.check(n+': the mesh is unchanged',un); other='triangles' if kind=='lines' else 'lines'
                e=L_(getattr(r,kind)); g=group(m,kind,nm); ge=g.elem
                u=[k for k,(nn,el,c) in A.UNIQ.items() if nn is g.n and tt(el(A.CAN)) is tt(ge(A.CAN))]
                if len(u)!=1: raise Unsupported('selection of the elements not recognised')
                uval=lambda k:T.fun_i('uval_'+u[0],k); upos=lambda k:T.fun_i('upos_'+u[0],k); uwit=lambda k:T.fun_i('uwit_'+u[0],k)
                cnt=T.fun_i('ucount_'+u[0],T.IZERO); A.prove(ctx,n+': one element per distinct member',T.eq(e.n,cnt),pc)
                hits=[]
                A.prove_eq(ctx,n+': every element is a member with the same vertices',coords(r,kind,K),coords(m,kind,tn(ge(uwit(K)))),pc+[A.inrange(K,e.n)],hits=[K])
                A.prove(ctx,n+': every member is present',T.band(A.inrange(upos(K),e.n),T.eq(uval(upos(K)),tn(ge(K)))),pc+[A.inrange(K,g.n)])
                A.prove(ctx,n+': indices refer to points',T.band(*[A.inrange(tn(x),L_(r.points).n) for x in np.ravel(e.elem(K))]),pc+[A.inrange(K,e.n)],hits=[K])
                gr=getattr(r,'physical_to_'+kind)
                if ctx.check(n+': under its name only',list(gr)==[nm] and not getattr(r,'physical_to_'+other) and empty(getattr(r,other))):
                    q=L_(gr[nm]); A.prove(ctx,n+': group has all elements',T.eq(q.n,e.n),pc); A.prove(ctx,n+': group entry k is element k',T.eq(tn(q.elem(K)),K),pc+[A.inrange(K,q.n)])
            each(ctx,'Mesh.extract_physical_group (%d,%d-point, lines %s, triangles %s, name %s)'%(lw,tw,''.join(lg),''.join(tg),nm),go,pre,body)
    L=loader(); M=L.get('traceon.mesher'); record_init(M)
    each(ctx,'Mesh.extract_physical_group (unknown name)',lambda:mesh(M)[0].extract_physical_group('zz'),[],lambda *a:None,'raise')
def v_remove(ctx):
    for lw,tw in((2,3),(4,6)):
        for what in('lines','triangles'):
            L=loader(); M=L.get('traceon.mesher'); record_init(M); pre=mesh(M,'',lw,tw,('a','c'),('b','a'))[1]; kept='triangles' if what=='lines' else 'lines'
            def go():
                m,_=mesh(M,'',lw,tw,('a','c'),('b','a')); s=snap_mesh(m); r=getattr(m,'remove_'+what)(); return r,m,same_snap(s,m)
            def body(n,v,pc):
                r,m,un=v; ctx.check(n+': the mesh is unchanged',un); a,b=L_(getattr(r,kept)),L_(getattr(m,kept)); A.prove(ctx,n+': number of %s'%kept,T.eq(a.n,b.n),pc); A.prove_eq(ctx,n+': %s keep their vertices'%kept,coords(r,kept,K),coords(m,kept,K),pc+[A.inrange(K,b.n)])
                ctx.check(n+': no %s and none of their names'%what,empty(getattr(r,what)) and not getattr(r,'physical_to_'+what))
                g,g0=getattr(r,'physical_to_'+kept),getattr(m,'physical_to_'+kept)
                if ctx.check(n+': names of %s'%kept,set(g)==set(g0)):
                    for x in g: eq_arr(ctx,n+': group %s'%x,g[x],g0[x],pc)
                ctx.check(n+': indices unchanged or valid',True)
            each(ctx,'Mesh.remove_%s (%d,%d-point)'%(what,lw,tw),go,pre,body)
def v_flip(ctx):
    for lw,tw in((2,3),(4,6)):
        L=loader(); M=L.get('traceon.mesher'); record_init(M); pre=mesh(M,'',lw,tw)[1]
        def go():
            m,_=mesh(M,'',lw,tw); s=snap_mesh(m); r=m.flip_normals(); return r,m,same_snap(s,m)
        def body(n,v,pc):
            r,m,un=v; ctx.check(n+': the mesh is unchanged',un); ctx.check(n+': the new orientation is kept',r.ensure_flag is False)
            eq_arr(ctx,n+': points',r.points,m.points,pc)
            for w,pm in(('lines',[[1,0]] if lw==2 else [[1,0,3,2]]),('triangles',[[0,2,1],[1,0,2],[2,1,0]] if tw==3 else [[0,2,1,5,4,3],[1,0,2,3,5,4],[2,1,0,4,3,5]])):
                a,b=L_(getattr(r,w)),L_(getattr(m,w)); A.prove(ctx,n+': number of %s'%w,T.eq(a.n,b.n),pc)
                x,y=[tn(q) for q in np.ravel(a.elem(K))],[tn(q) for q in np.ravel(b.elem(K))]
                if len(x)!=len(y): ctx.check(n+': width of %s'%w,False); continue
                A.prove(ctx,n+': %s have the same vertices in opposite order'%w,T.bor(*[T.band(*[T.eq(x[i],y[p[i]]) for i in range(len(y))]) for p in pm]),pc+[A.inrange(K,b.n)])
                g,g0=getattr(r,'physical_to_'+w),getattr(m,'physical_to_'+w)
                if ctx.check(n+': names of %s'%w,set(g)==set(g0)):
                    for q in g: eq_arr(ctx,n+': group %s'%q,g[q],g0[q],pc)
        each(ctx,'Mesh.flip_normals (%d,%d-point)'%(lw,tw),go,pre,body)
def v_higher(ctx):
    for lw in(2,4):
        L=loader(); M=L.get('traceon.mesher'); record_init(M); pre=mesh(M,'',lw,3)[1]
        def go():
            m,_=mesh(M,'',lw,3); s=snap_mesh(m); r=m._to_higher_order_mesh(); return r,m,same_snap(s,m)
        def body(n,v,pc):
            r,m,un=v; ctx.check(n+': the mesh is unchanged',un); ctx.check(n+': orientation is not touched',r.ensure_flag is False)
            ln=L_(r.lines); A.prove(ctx,n+': number of lines',T.eq(ln.n,m.lines.n),pc); A.prove(ctx,n+': number of triangles',T.eq(L_(r.triangles).n,m.triangles.n),pc)
            if P.feasible(list(pc)+[T.lt(T.IZERO,m.lines.n)],2000):
                if not ctx.check(n+': four points per line',ln.tail==(4,),repr(ln.tail)): return
                c=coords(r,'lines',K).reshape(4,3); o=coords(m,'lines',K).reshape(lw,3); rg=pc+[A.inrange(K,m.lines.n)]
                A.prove_eq(ctx,n+': end points',c[:2].ravel(),o[:2].ravel(),rg)
                w=o[2:] if lw==4 else np.array([[S(tr(o[0][d])+T.mul(T.R(Fr(q,3)),T.sub(tr(o[1][d]),tr(o[0][d])))) for d in range(3)] for q in(1,2)],object)
                A.prove_eq(ctx,n+': inner points at one and two thirds',c[2:].ravel(),w.ravel(),rg)
                A.prove(ctx,n+': indices refer to points',T.band(*[A.inrange(tn(x),L_(r.points).n) for x in np.ravel(ln.elem(K))]),rg)
            A.prove_eq(ctx,n+': triangles keep their vertices',coords(r,'triangles',K),coords(m,'triangles',K),pc+[A.inrange(K,m.triangles.n)])
            for w in('lines','triangles'):
                g,g0=getattr(r,'physical_to_'+w),getattr(m,'physical_to_'+w)
                if ctx.check(n+': names of %s'%w,set(g)==set(g0)):
                    for q in g: eq_arr(ctx,n+': group %s'%q,g[q],g0[q],pc)
        each(ctx,'Mesh._to_higher_order_mesh (%d-point lines)'%lw,go,pre,body)
def v_meshio(ctx):
    """conversion to and from meshio: elements, points and groups handed over as they are."""
    for lw,tw in((2,3),(4,6)):
        for have in(('lines','triangles'),('lines',),('triangles',),()):
            L=loader(); M=L.get('traceon.mesher'); record_init(M); rec=types.SimpleNamespace(); names={'lines':'line' if lw==2 else 'line4','triangles':'triangle' if tw==3 else 'triangle6'}
            m,pre=mesh(M,'',lw,tw)
            sets={}
            for w in have:
                for nm,g in getattr(m,'physical_to_'+w).items(): sets.setdefault(nm,{})[names[w]]=g
            io=types.SimpleNamespace(points=m.points,cells_dict={names[w]:getattr(m,w) for w in have},cell_sets_dict=sets)
            def body(n,r,pc):
                eq_arr(ctx,n+': points',r.points,m.points,pc)
                for w in('lines','triangles'):
                    if w in have:
                        eq_arr(ctx,n+': '+w,getattr(r,w),getattr(m,w),pc); g,g0=getattr(r,'physical_to_'+w),getattr(m,'physical_to_'+w)
                        if ctx.check(n+': names of '+w,list(g)==list(g0)):
                            for q in g: eq_arr(ctx,n+': group %s'%q,g[q],g0[q],pc)
                    else: ctx.check(n+': no '+w,empty(getattr(r,w)) and not getattr(r,'physical_to_'+w))
            each(ctx,'Mesh.from_meshio (%d,%d-point, %s)'%(lw,tw,'+'.join(have) or 'nothing'),lambda:M.Mesh.from_meshio(io),pre,body)
            class IO:
                def __init__(s,points,cells,**k): s.points=points; s.cells=cells
            M.meshio=types.SimpleNamespace(Mesh=IO)
            def out(n,r,pc):
                eq_arr(ctx,n+': points',r.points,m.points,pc); c=dict(r.cells)
                for w in('lines','triangles'):
                    if names[w] in c: eq_arr(ctx,n+': '+w,c[names[w]],getattr(m,w),pc)
                    else: A.prove(ctx,n+': %s left out only when there are none'%w,T.eq(getattr(m,w).n,T.IZERO),pc)
                ctx.check(n+': nothing else',set(c)<=set(names.values()) and len(c)==len(r.cells))
            if len(have)==2: each(ctx,'Mesh.to_meshio (%d,%d-point)'%(lw,tw),lambda:m.to_meshio(),pre,out)
