"""Contracts of the surface constructors of traceon/geometry.py (C23)."""
import numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P, pyspline as SP
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import loader, ok, pos, mksurf, eqs, rot
from .pypath import gpath, same_ctx, eqz, each, sq, sub3, add3, scale, ne, eqv
u_,v_=T.var('u'),T.var('v')
def load(): 
    env=SP.Env(); rec=[]; L=loader(); SP.install(L,env,rec)
    return L.get('traceon.geometry'),rec
def at(s,u=u_,v=v_): return s(S(u),S(v))
def val(ctx,name,s,want,pc,u=u_,v=v_):
    for k,o in enumerate(ok(ctx,name,explore(lambda:at(s,u,v),pc))):
        if P.feasible(o.pc,2000): same_ctx(ctx,'%s%s'%(name,' path %d'%k if k else ''),o.val,want,o.pc)
def meta(ctx,n,s,l1,l2,b1,b2,name,pc):
    same(ctx,n+': length along u',s.path_length1,l1,pc)
    if l2 is not None: same(ctx,n+': length along v',s.path_length2,l2,pc)
    eqs(ctx,n+': breakpoints along u',s.breakpoints1,b1,pc); eqs(ctx,n+': breakpoints along v',s.breakpoints2,b2,pc)
    if name!='any': ctx.check(n+': name',s.name==name,repr(s.name))
def spec_extrude(p,w): return add3(p(S(u_)),scale(T.div(v_,T.sqrt(sq(vec(w)))),vec(w)))
def spec_by_path(p,q): return add3(p(S(u_)),sub3(q(S(v_)),q(S(T.ZERO))))
def spec_rev(ax,p,l2,a): return rot(ax,S(T.mul(T.div(v_,tr(l2)),tr(a))),vec(p(S(u_))))
def offaxis(ax,p,u=u_):
    x=vec(p(S(u))); i='xyz'.index(ax)
    return T.lt(T.ZERO,T.add(*[T.mul(x[k],x[k]) for k in range(3) if k!=i]))
def check_rev(ctx,n,s,ax,p,a,pc,rec,name='any'):
    pc=list(pc)+[T.lt(T.ZERO,tr(s.path_length2))]
    # length along v: circle of the average distance to the axis
    qs=[q for q in rec if T.occurs(tr(q['v']),tr(s.path_length2))]
    if len(qs)!=1: ctx.rec(n+': length along v','unsupported','path','not expressed by one average over the path')
    else:
        q=qs[0]; x=vec(p(S(q['x']))); i='xyz'.index(ax); r2=T.add(*[T.mul(x[k],x[k]) for k in range(3) if k!=i])
        ctx.zero(n+': average over the distance to the axis',T.sub(T.mul(q['f'],q['f']),r2),pc); ctx.true(n+': distance is not negative',T.le(T.ZERO,q['f']),pc)
        ctx.zero(n+': average from the start',q['a'],pc); ctx.zero(n+': average to the end',T.sub(q['b'],tr(p.path_length)),pc)
        ctx.zero(n+': length along v is the circle of average radius',T.sub(tr(s.path_length2),T.mul(T.R(2),T.PI,T.div(tr(q['v']),tr(p.path_length)))),pc)
    val(ctx,n+': rotation of the path point about the axis',s,spec_rev(ax,p,s.path_length2,a),pc+[offaxis(ax,p)])
    val(ctx,n+': ends on the path rotated by the angle',s,rot(ax,tr(a),vec(p(S(u_)))),pc+[offaxis(ax,p)],v=tr(s.path_length2)); val(ctx,n+': starts on the path',s,vec(p(S(u_))),pc+[offaxis(ax,p)],v=T.ZERO)
    meta(ctx,n,s,p.path_length,None,p.breakpoints,[],name,pc)
def v_sweeps(ctx):
    G,rec=load(); w=V('w'); a=X('angle')
    for nb in(0,2):
        p,pre=gpath(G,'f',nb); q,pre2=gpath(G,'g',1,'other')
        for nm,call in(('array',lambda:p.extrude(w)),('list',lambda:p.extrude(list(w)))):
            def body(n,s,pc): val(ctx,n+': path point displaced along the vector',s,spec_extrude(p,w),pc); val(ctx,n+': starts on the path',s,vec(p(S(u_))),pc,v=T.ZERO); val(ctx,n+': ends on the displaced path',s,add3(p(S(u_)),vec(w)),pc,v=tr(s.path_length2)); meta(ctx,n,s,p.path_length,T.sqrt(sq(vec(w))),p.breakpoints,[],'pname',pc)
            each(ctx,'Path.extrude (%s, %d breakpoints)'%(nm,nb),call,pre+[T.lt(T.ZERO,sq(vec(w)))],body)
        def body(n,s,pc): val(ctx,n+': path point displaced along the second path',s,spec_by_path(p,q),pc); val(ctx,n+': starts on the path',s,vec(p(S(u_))),pc,v=T.ZERO); val(ctx,n+': ends on the displaced path',s,add3(p(S(u_)),sub3(q(q.path_length),q(S(T.ZERO)))),pc,v=tr(s.path_length2)); meta(ctx,n,s,p.path_length,q.path_length,p.breakpoints,q.breakpoints,'pname',pc)
        each(ctx,'Path.extrude_by_path (%d breakpoints)'%nb,lambda:p.extrude_by_path(q),pre+pre2,body)
        for ax in 'xyz':
            each(ctx,'Path.revolve_%s (%d breakpoints)'%(ax,nb),lambda:getattr(p,'revolve_'+ax)(a),pre,lambda n,s,pc:check_rev(ctx,n,s,ax,p,a,pc,rec,'pname'))
            each(ctx,'Path.revolve_%s (default angle)'%ax,lambda:getattr(p,'revolve_'+ax)(),pre,lambda n,s,pc:check_rev(ctx,n,s,ax,p,S(T.mul(T.R(2),T.PI)),pc,rec,'pname'))
            # points on the axis stay on it
            i='xyz'.index(ax)
            def onax(t,i=i):
                o=np.empty(3,object)
                for k in range(3): o[k]=S(T.fun('free_f0',tr(t))) if k==i else 0.
                return o
            def mk():
                z=G.Path(onax,p.path_length,[],None); z.average=lambda f:(f(onax(S(u_))),X('avg'))[1]
                return getattr(z,'revolve_'+ax)(a)
            each(ctx,'Path.revolve_%s (axis points)'%ax,mk,pre+pos(X('avg')),lambda n,s,pc:val(ctx,n+': stay where they are',s,vec(onax(S(u_))),pc))
    ctx.trust('points on the revolution axis are covered for paths lying on the axis; elsewhere the distance to the axis is positive')
def v_collections(ctx):
    G,rec=load(); w=V('w'); a=X('angle')
    ctx.bounded.append('collections of 1 to 3 members')
    q,pre2=gpath(G,'g',1,'other')
    for n_ in(1,2,3):
        ps=[gpath(G,'f%d'%k,1,'m%d'%k) for k in range(n_)]; pre=sum([b for _,b in ps],[])+pre2; ps=[p for p,_ in ps]
        for cn in(None,'cname'):
            def mk():
                c=G.PathCollection(list(ps)); c._name=cn; return c
            for nm,call,chk in(('extrude',lambda c:c.extrude(w),lambda n,s,p,pc:val(ctx,n,s,spec_extrude(p,w),pc+[T.lt(T.ZERO,sq(vec(w)))])),('extrude_by_path',lambda c:c.extrude_by_path(q),lambda n,s,p,pc:val(ctx,n,s,spec_by_path(p,q),pc)))+tuple(('revolve_'+ax,lambda c,ax=ax:getattr(c,'revolve_'+ax)(a),lambda n,s,p,pc,ax=ax:check_rev(ctx,n,s,ax,p,a,pc,rec,p.name)) for ax in 'xyz')+tuple(('revolve_%s()'%ax,lambda c,ax=ax:getattr(c,'revolve_'+ax)(),lambda n,s,p,pc,ax=ax:check_rev(ctx,n,s,ax,p,S(T.mul(T.R(2),T.PI)),pc,rec,p.name)) for ax in 'xyz'):
                def body(n,c,pc):
                    if ctx.check(n+': one surface per path, collection name kept',type(c).__name__=='SurfaceCollection' and len(c.surfaces)==n_ and c.name==cn,bounded=True):
                        for k,(s,p) in enumerate(zip(c.surfaces,ps)): chk('%s: member %d'%(n,k),s,p,list(pc)); ctx.check('%s: member %d name'%(n,k),s.name==p.name)
                each(ctx,'PathCollection.%s (%d members, %s)'%(nm,n_,cn),lambda:call(mk()),pre,body)
    # sums
    for kind in('Path','Surface'):
        mk1=(lambda k:gpath(G,'f%d'%k,0,'m%d'%k)[0]) if kind=='Path' else (lambda k:mksurf_(G,k))
        ms=[mk1(k) for k in range(4)]; C=getattr(G,kind+'Collection'); get=(lambda c:c.paths) if kind=='Path' else (lambda c:c.surfaces)
        for nm,call,want in(('a+b',lambda:ms[0]+ms[1],[0,1]),('a+C',lambda:ms[0]+C([ms[1],ms[2]]),[0,1,2]),('C+a',lambda:C([ms[0],ms[1]])+ms[2],[0,1,2]),('C+C',lambda:C([ms[0],ms[1]])+C([ms[2],ms[3]]),[0,1,2,3])):
            for o in ok(ctx,'%s sum %s'%(kind,nm),explore(call)): ctx.check('%s sum %s: all members in order'%(kind,nm),type(o.val) is C and [id(x) for x in get(o.val)]==[id(ms[k]) for k in want])
        def iadd(other):
            c=C([ms[0],ms[1]]); d=c; c+=other
            return c,d
        for nm,oth,want in(('C+=a',lambda:ms[2],[0,1,2]),('C+=C',lambda:C([ms[2],ms[3]]),[0,1,2,3])):
            for o in ok(ctx,'%s sum %s'%(kind,nm),explore(lambda:iadd(oth()))): ctx.check('%s sum %s: extended in place'%(kind,nm),o.val[0] is o.val[1] and [id(x) for x in get(o.val[0])]==[id(ms[k]) for k in want])
        def name(): c=C(ms[:2]); c.name='nn'; return c
        for o in ok(ctx,kind+'Collection.name',explore(name)): ctx.check(kind+'Collection.name: names the collection and all members',o.val.name=='nn' and all(m.name=='nn' for m in get(o.val)))
def mksurf_(G,k): return G.Surface(FN('s%d'%k,3,2),X('s%d_l1'%k),X('s%d_l2'%k),[],[],'m%d'%k)
def multiset(ctx,name,got,want,pc):
    """the entries of `got` are those of `want`, in increasing order."""
    got=[tr(x) for x in got]; left=[tr(x) for x in want]
    if not ctx.check(name+': number of entries',len(got)==len(left),'%d instead of %d'%(len(got),len(left))): return
    for k,g in enumerate(got):
        m=[w for w in left if P.prove_zero(T.sub(g,w),list(pc),limit=5).status=='proved']
        if m: left.remove(m[0]); ctx.zero('%s: entry %d is expected'%(name,k),T.sub(g,m[0]),pc)
        else:
            num=[w for w in left if P.refute_zero(T.sub(g,w),list(pc),tries=8) is None]
            ctx.rec('%s: entry %d'%(name,k),'unknown' if num else 'refuted','match','%s is none of %s'%(T.show(g,5),[T.show(w,5) for w in left]))
            return
    for k in range(len(got)-1): ctx.true('%s: in order %d'%(name,k),T.le(got[k],got[k+1]),pc)
def v_spanned(ctx):
    G,rec=load()
    for nb,mb in((0,0),(1,0),(1,1),(2,0)):
        p,pre=gpath(G,'f',nb); q,pre2=gpath(G,'g',mb); Lp,Lq=tr(p.path_length),tr(q.path_length)
        d0=sq(sub3(p(S(T.ZERO)),q(S(T.ZERO)))); d1=sq(sub3(p(p.path_length),q(q.path_length)))
        for longer in(0,1):
            L1=(Lp,Lq)[longer]
            def body(n,s,pc):
                l2=T.div(T.add(T.sqrt(d0),T.sqrt(d1)),T.R(2)); same(ctx,n+': length along u is that of the longer path',s.path_length1,L1,pc); same(ctx,n+': length along v is the mean distance of the ends',s.path_length2,l2,pc)
                P1=vec(p(S(T.mul(T.div(u_,L1),Lp)))); P2=vec(q(S(T.mul(T.div(u_,L1),Lq)))); t=T.div(v_,l2)
                val(ctx,n+': straight between corresponding points',s,add3(P1,scale(t,sub3(P2,P1))),pc); val(ctx,n+': first path is a boundary curve',s,P1,pc,v=T.ZERO); val(ctx,n+': second path is a boundary curve',s,P2,pc,v=tr(s.path_length2))
                multiset(ctx,n+': breakpoints of both paths, scaled',s.breakpoints1,[T.div(T.mul(L1,tr(b)),Lp) for b in p.breakpoints]+[T.div(T.mul(L1,tr(b)),Lq) for b in q.breakpoints],pc); ctx.check(n+': no breakpoints along v',len(s.breakpoints2)==0)
            each(ctx,'Surface.spanned_by_paths (%d,%d breakpoints, path %d longer)'%(nb,mb,longer+1),lambda:G.Surface.spanned_by_paths(p,q),pre+pre2+[T.lt(T.ZERO,d0),T.lt(T.ZERO,d1),T.lt(Lq,Lp) if longer==0 else T.lt(Lp,Lq)],body)
def v_patch(ctx):
    G,rec=load()
    for nb in((0,0,0,0),(1,1,0,1),(0,0,1,1)):
        ps=[gpath(G,'f%d'%k,nb[k]) for k in range(4)]; pre=sum([x for _,x in ps],[]); p=[x for x,_ in ps]; Ls=[tr(x.path_length) for x in p]
        meet=sum([eqv(p[k](p[k].path_length),p[(k+1)%4](S(T.ZERO))) for k in range(4)],[])
        def body(n,s,pc):
            l1=T.div(T.add(Ls[0],Ls[2]),T.R(2)); l2=T.div(T.add(Ls[1],Ls[3]),T.R(2))
            same(ctx,n+': length along u is the mean of the two',s.path_length1,l1,pc); same(ctx,n+': length along v is the mean of the two',s.path_length2,l2,pc)
            a,b=T.div(u_,l1),T.div(v_,l2); e=lambda k,t:vec(p[k](S(T.mul(t,Ls[k])))); one=T.ONE
            val(ctx,n+': first path',s,e(0,a),pc,v=T.ZERO); val(ctx,n+': third path, opposite',s,e(2,T.sub(one,a)),pc,v=tr(s.path_length2))
            val(ctx,n+': second path',s,e(1,b),pc,u=tr(s.path_length1)); val(ctx,n+': fourth path, opposite',s,e(3,T.sub(one,b)),pc,u=T.ZERO)
            bp=lambda k,l,rev: [T.mul(l,T.sub(one,T.div(tr(x),Ls[k])) if rev else T.div(tr(x),Ls[k])) for x in p[k].breakpoints]
            multiset(ctx,n+': breakpoints along u',s.breakpoints1,bp(0,l1,False)+bp(2,l1,True),pc); multiset(ctx,n+': breakpoints along v',s.breakpoints2,bp(1,l2,False)+bp(3,l2,True),pc)
        each(ctx,'Surface.from_boundary_paths (%d,%d,%d,%d breakpoints)'%nb,lambda:G.Surface.from_boundary_paths(*p),pre+meet,body)
def v_shapes(ctx):
    G,rec=load(); R,z=X('radius'),T.ZERO
    def body(n,s,pc):
        th,ph=T.div(v_,tr(R)),T.div(u_,tr(R)); r=tr(R); val(ctx,n+': spherical coordinates',s,[r*T.sin(th)*T.cos(ph),r*T.sin(th)*T.sin(ph),r*T.cos(th)],pc); meta(ctx,n,s,T.mul(T.R(2),T.PI,r),T.mul(T.PI,r),[],[],None,pc)
        for k,o in enumerate(explore(lambda:at(s),pc)): ctx.zero(n+': on the sphere',T.sub(sq(vec(o.val)),T.mul(r,r)),pc)
    each(ctx,'Surface.sphere',lambda:G.Surface.sphere(R),pos(R),body)
    lo=[X('lo%d'%k) for k in range(3)]; hi=[X('hi%d'%k) for k in range(3)]; pre=[T.lt(tr(a),tr(b)) for a,b in zip(lo,hi)]; d=[T.sub(tr(b),tr(a)) for a,b in zip(lo,hi)]; l=[tr(x) for x in lo]; h=[tr(x) for x in hi]
    for swap in((0,0,0),(1,1,1),(1,0,1),(0,1,0)):
        p0=[hi[k] if swap[k] else lo[k] for k in range(3)]; p1=[lo[k] if swap[k] else hi[k] for k in range(3)]
        def body(n,c,pc):
            if not ctx.check(n+': two faces and a side',len(c.surfaces)==3): return
            a,b,s=c.surfaces
            val(ctx,n+': face at the lower y',a,[T.add(l[0],u_),l[1],T.sub(h[2],v_)],pc); meta(ctx,n+': face at the lower y',a,d[0],d[2],[],[],None,pc)
            val(ctx,n+': face at the upper y',b,[T.add(l[0],u_),h[1],T.add(l[2],v_)],pc); meta(ctx,n+': face at the upper y',b,d[0],d[2],[],[],None,pc)
            X_,Z_=d[0],d[2]; cum=[T.ZERO,X_,T.add(X_,Z_),T.add(X_,X_,Z_),T.add(X_,X_,Z_,Z_)]
            meta(ctx,n+': side',s,cum[4],d[1],cum[1:4],[],None,pc); y=T.add(l[1],v_)
            for k,w in enumerate(([T.add(l[0],u_),y,l[2]],[h[0],y,T.add(l[2],T.sub(u_,cum[1]))],[T.sub(h[0],T.sub(u_,cum[2])),y,h[2]],[l[0],y,T.sub(h[2],T.sub(u_,cum[3]))])): val(ctx,n+': side %d'%k,s,w,list(pc)+[T.le(cum[k],u_),T.le(u_,cum[k+1])]+([T.lt(cum[k],u_)] if k else []))
        each(ctx,'Surface.box %s'%(swap,),lambda:G.Surface.box(list(p0),list(p1)),pre,body)
    for nm,ix in(('xz',(0,2)),('yz',(1,2)),('xy',(0,1))):
        a0,a1,b0,b1=lo[0],hi[0],lo[1],hi[1]
        def body(n,s,pc):
            f=[z]*3; g=[z]*3; A_,B_=T.sub(tr(a1),tr(a0)),T.sub(tr(b1),tr(b0)); w=[z]*3
            if nm=='yz': w[1]=T.add(tr(a0),v_); w[2]=T.add(tr(b0),u_)
            else: w[ix[0]]=T.add(tr(a0),v_); w[ix[1]]=T.add(tr(b0),u_)
            val(ctx,n+': points of the rectangle',s,w,pc); meta(ctx,n,s,B_,A_,[],[],None,pc)
        each(ctx,'Surface.rectangle_'+nm,lambda:getattr(G.Surface,'rectangle_'+nm)(a0,a1,b0,b1),pre,body)
        c0,c1=X('c0'),X('c1')
        def body(n,s,pc):
            l2=tr(s.path_length2); ang=T.div(T.mul(T.R(2),T.PI,v_),l2); w=[z]*3
            # anticlockwise about the positive normal axis
            i,j=ix; sg=-1 if nm=='xz' else 1
            w[i]=T.add(tr(c0),T.mul(u_,T.cos(ang))); w[j]=T.add(tr(c1),T.mul(T.R(sg),u_,T.sin(ang)))
            val(ctx,n+': points of the disk in polar coordinates',s,w,list(pc)+[T.lt(T.ZERO,l2),T.lt(T.ZERO,u_),T.le(u_,tr(R))]); same(ctx,n+': length along u',s.path_length1,R,pc); ctx.check(n+': no breakpoints',len(s.breakpoints1)==0 and len(s.breakpoints2)==0)
            qs=[q for q in rec if T.occurs(tr(q['v']),l2)]
            if len(qs)!=1: ctx.rec(n+': length along v','unsupported','path','not expressed by one average over the path')
            else:
                q=qs[0]; ctx.zero(n+': average of the radius',T.sub(T.mul(q['f'],q['f']),T.mul(q['x'],q['x'])),pc); ctx.zero(n+': length along v',T.sub(l2,T.mul(T.R(2),T.PI,T.div(tr(q['v']),tr(R)))),pc)
        each(ctx,'Surface.disk_'+nm,lambda:getattr(G.Surface,'disk_'+nm)(c0,c1,R),pos(R),body)
        ok(ctx,'Surface.disk_%s with a radius that is not positive'%nm,explore(lambda:getattr(G.Surface,'disk_'+nm)(c0,c1,R),[T.le(tr(R),T.ZERO)]),'raise')
    # aperture: the aperture path revolved about z
    p,pre=gpath(G,'f',2); args=[]; G.Path.aperture=staticmethod(lambda h,r,e,z=0.:(args.append((h,r,e,z)),p)[1]); hh,e,zz=X('height'),X('extent'),X('z')
    def body(n,s,pc): check_rev(ctx,n,s,'z',p,S(T.mul(T.R(2),T.PI)),pc,rec); ctx.check(n+': path of the given aperture',[tt(x) for x in args[-1]]==[tt(hh),tt(R),tt(e),tt(zz)])
    each(ctx,'Surface.aperture',lambda:G.Surface.aperture(hh,R,e,zz),pre,body)
def v_boundary(ctx):
    G,rec=load(); s,pre=mksurf(Y_(G),'s',1); t=T.var('t')
def Y_(G): return type('M',(),dict(get=lambda self,n:G))()
def v_boundary(ctx):
    G,rec=load(); s,pre=mksurf(Y_(G),'s',1); t=T.var('t'); l1,l2=s.path_length1,s.path_length2
    curves=[(lambda x:s(x,S(T.ZERO)),l1,s.breakpoints1),(lambda x:s(x,l2),l1,s.breakpoints1),(lambda x:s(S(T.ZERO),x),l2,s.breakpoints2),(lambda x:s(l1,x),l2,s.breakpoints2)]
    sig=[tuple(vec(c(S(t)))) for c,_,_ in curves]
    def which(p):
        v=vec(p(S(t)))
        for k,w in enumerate(sig):
            if all(a is b or T.sub(a,b) is T.ZERO for a,b in zip(v,w)): return k
        raise Unsupported('boundary curve not recognised')
    real=G.Path.is_closed; closed=[X('closed%d'%k,'B') for k in range(4)]
    ctx.function('traceon/geometry.py:Surface.get_boundary_paths','against the contract of Path.is_closed','contract')
    G.Path.is_closed=lambda p:closed[which(p)]
    outs=ok(ctx,'Surface.get_boundary_paths',explore(lambda:s.get_boundary_paths(),pre))
    for k,o in enumerate(outs):
        n='Surface.get_boundary_paths path %d'%k; yes=[c.t in o.pc or not P.feasible(o.pc+[T.bnot(c.t)],1000) for c in closed]; no=[not P.feasible(o.pc+[c.t],1000) for c in closed]
        if not all(a or b for a,b in zip(yes,no)):
            if any(yes): ctx.rec(n+': which curves are closed','unsupported','path','not decided on this path'); continue
        want=[i for i in range(4) if yes[i]] or list(range(4))
        if ctx.check(n+': the closed boundary curves if there are any, otherwise all four',type(o.val) is G.PathCollection and sorted(which(p) for p in o.val.paths)==want,'%s instead of %s'%([which(p) for p in o.val.paths],want)):
            for p in o.val.paths:
                c,l,b=curves[which(p)]; same(ctx,n+': length of boundary curve',p.path_length,l,o.pc); eqs(ctx,n+': breakpoints of boundary curve',p.breakpoints,b,o.pc); ctx.check(n+': name',p.name=='sname')
    ctx.check('Surface.get_boundary_paths: every combination of closed curves analysed',len(outs)>=2,str(len(outs)))
    # operations on the boundary, against the contract of get_boundary_paths
    w=V('w'); a=X('angle'); q,pre2=gpath(G,'g',1,'other')
    for nbp in(1,2,4):
        bs=[gpath(G,'b%d'%k,0,'sname') for k in range(nbp)]; pb=pre+sum([x for _,x in bs],[]); bs=[x for x,_ in bs]
        G.Surface.get_boundary_paths=lambda self:G.PathCollection(list(bs))
        def parts(n,c,pc,want):
            if not ctx.check(n+': start, sides%s'%(' and end' if len(want)>nbp+1 else ''),type(c) is G.SurfaceCollection and len(c.surfaces)==len(want),'%d surfaces instead of %d'%(len(c.surfaces),len(want))): return
            for k,(x,f) in enumerate(zip(c.surfaces,want)): f('%s: surface %d'%(n,k),x,list(pc))
        start=lambda n,x,pc:val(ctx,n+' is the surface itself',x,vec(at(s)),pc)
        def side(spec,p): return lambda n,x,pc:(val(ctx,n+' is the swept boundary curve',x,spec(p),pc),val(ctx,n+' starts on the surface',x,vec(p(S(u_))),pc,v=T.ZERO),eqs(ctx,n+' breakpoints',x.breakpoints1,p.breakpoints,pc),same(ctx,n+' length',x.path_length1,p.path_length,pc))
        def cap(f): return lambda n,x,pc:(val(ctx,n+' is the surface carried to the end',x,f(vec(at(s))),pc),meta(ctx,n,x,s.path_length1,s.path_length2,s.breakpoints1,s.breakpoints2,'sname',pc))
        for enc in(True,False):
            want=[start]+[side(lambda p:spec_extrude(p,w),p) for p in bs]+([cap(lambda x:add3(x,vec(w)))] if enc else [])
            each(ctx,'Surface.extrude_boundary (%d curves, enclose=%s)'%(nbp,enc),lambda:s.extrude_boundary(w,enclose=enc),pb+[T.lt(T.ZERO,sq(vec(w)))],lambda n,c,pc:parts(n,c,pc,want))
            want2=[start]+[side(lambda p:spec_by_path(p,q),p) for p in bs]+([cap(lambda x:add3(x,sub3(q(q.path_length),q(S(T.ZERO)))))] if enc else [])
            each(ctx,'Surface.extrude_boundary_by_path (%d curves, enclose=%s)'%(nbp,enc),lambda:s.extrude_boundary_by_path(q,enclose=enc),pb+pre2,lambda n,c,pc:parts(n,c,pc,want2))
            for ax in 'xyz':
                for full in(False,True):
                    ang=S(T.mul(T.R(2),T.PI)) if full else a; ap=[] if full else [T.lt(T.ZERO,tr(a)),T.lt(tr(a),T.R(6))]
                    def rside(p,ax=ax,ang=ang): return lambda n,x,pc:check_rev(ctx,n,x,ax,p,ang,pc,rec)
                    want3=[start]+[rside(p) for p in bs]+([cap(lambda x,ax=ax,ang=ang:rot(ax,ang,x))] if enc and not full else [])
                    kw={} if full else dict(angle=a)
                    each(ctx,'Surface.revolve_boundary_%s (%d curves, enclose=%s, %s)'%(ax,nbp,enc,'full turn' if full else 'less than a full turn'),lambda:getattr(s,'revolve_boundary_'+ax)(enclose=enc,**kw),pb+ap,lambda n,c,pc:parts(n,c,pc,want3))
    for nm,call in(('extrude_boundary',lambda:s.extrude_boundary(w)),('extrude_boundary_by_path',lambda:s.extrude_boundary_by_path(q)),('revolve_boundary_z',lambda:s.revolve_boundary_z(angle=1.))):
        for o in ok(ctx,'Surface.%s (default)'%nm,explore(call,pb+pre2+[T.lt(T.ZERO,sq(vec(w)))])): ctx.check('Surface.%s: encloses by default'%nm,len(o.val.surfaces)==nbp+2)
