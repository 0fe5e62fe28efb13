"""Contracts of the path and surface constructors of traceon/geometry.py (C20, C21, C23)."""
import types
import numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import loader, ok, pos, mkpath, mksurf, is_same, same_list, rot
G_='traceon/geometry.py:'
def sq(v): return T.add(*[T.mul(x,x) for x in v])
def sub3(a,b): return [T.sub(tr(x),tr(y)) for x,y in zip(vec(a),vec(b))]
def add3(a,b): return [T.add(tr(x),tr(y)) for x,y in zip(vec(a),vec(b))]
def scale(k,a): return [T.mul(tr(k),tr(x)) for x in a]
def ne(a,b): return T.lt(T.ZERO,sq(sub3(a,b)))
def inr(t,hi,lo=0): return [T.le(tr(lo),tr(t)),T.le(tr(t),tr(hi))]
def unit_speed(ctx,name,p,pc):
    """|dp/du| = 1 at an arbitrary parameter."""
    u=T.var('u'); v=vec(p(S(u)))
    return ctx.zero(name+': unit speed at arbitrary parameter',T.sub(sq([T.diff(x,u) for x in v]),T.ONE),pc)
def each(ctx,name,fn,pre,body):
    ctx.function(G_+name.split('(')[0].split(' ')[0],name,'contract')
    if pre: ctx.vacuity(name,pre)
    def go():
        outs=ok(ctx,name,explore(fn,pre))
        for k,o in enumerate(outs): body('%s%s'%(name,' path %d'%k if len(outs)>1 else ''),o.val,o.pc)
    ctx.attempt(name,go)
U=X('u'); W=X('w')
def v_line(ctx):
    L=loader(); G=L.get('traceon.geometry'); a,b=V('a'),V('b')
    def body(n,p,pc):
        same(ctx,n+': starts at the first point',p(S(T.ZERO)),a,pc); same(ctx,n+': ends at the second point',p(p.path_length),b,pc)
        ctx.zero(n+': length is the distance',T.sub(T.mul(tr(p.path_length),tr(p.path_length)),sq(sub3(a,b))),pc); ctx.true(n+': length positive',T.lt(T.ZERO,tr(p.path_length)),pc)
        same(ctx,n+': point at u divides the segment',p(U),add3(a,scale(T.div(tr(U),tr(p.path_length)),sub3(b,a))),pc); unit_speed(ctx,n,p,pc)
        ctx.check(n+': no breakpoints, no name',list(p.breakpoints)==[] and p.name is None)
    each(ctx,'Path.line',lambda:G.Path.line(list(a),list(b)),[ne(a,b)],body)
def v_circles(ctx):
    L=loader(); G=L.get('traceon.geometry'); c0,c1,R,ang=X('c0'),X('c1'),X('R'),X('angle')
    for nm,ix in(('circle_xz',(0,2)),('circle_yz',(1,2)),('circle_xy',(0,1))):
        def body(n,p,pc):
            c=[T.ZERO]*3; c[ix[0]]=tr(c0); c[ix[1]]=tr(c1); th=T.div(tr(U),tr(R)); w=list(c); w[ix[0]]=T.add(w[ix[0]],T.mul(tr(R),T.cos(th))); w[ix[1]]=T.add(w[ix[1]],T.mul(tr(R),T.sin(th)))
            same(ctx,n+': point at arc length u',p(U),w,pc); unit_speed(ctx,n,p,pc)
            s=list(c); s[ix[0]]=T.add(s[ix[0]],tr(R)); same(ctx,n+': starts on the positive first axis',p(S(T.ZERO)),s,pc)
        each(ctx,'Path.'+nm,lambda:getattr(G.Path,nm)(c0,c1,R,ang),pos(R,ang),lambda n,p,pc:(body(n,p,pc),ctx.zero(n+': length is radius times angle',T.sub(tr(p.path_length),T.mul(tr(R),tr(ang))),pc)))
        each(ctx,'Path.%s (default angle)'%nm,lambda:getattr(G.Path,nm)(c0,c1,R),pos(R),lambda n,p,pc:(body(n,p,pc),ctx.zero(n+': full circle',T.sub(tr(p.path_length),T.mul(T.R(2),T.PI,tr(R))),pc)))
def v_arc(ctx):
    """centre, start and end are arbitrary points with start and end on a common circle, not collinear with the centre."""
    L=loader(); G=L.get('traceon.geometry'); r,ph=X('r'),X('phi'); cs,sn=T.cos(tr(ph)),T.sin(tr(ph))
    pre=pos(r)+[T.lt(T.ZERO,sn)]
    C=A.AVec(1,[0,0,0]); a=A.AVec(1,[tr(r),0,0]); b=A.AVec(1,[tr(r)*cs,tr(r)*sn,0])
    ctx.trust('atan2(y,x) is the angle with cosine x/sqrt(x^2+y^2) and sine y/sqrt(x^2+y^2), in (-pi,pi], positive when y is')
    for rev in(False,True):
        def body(n,p,pc):
            u=T.var('u'); P_=lambda t:p(S(tt(t)))
            def same3(lab,g,w):
                for i,(x,y) in enumerate(zip([g.base]+g.co,[w.base]+w.co)): ctx.zero('%s: %s [%d]'%(n,lab,i),T.sub(x,y),pc)
            same3('starts at the start point',P_(T.ZERO),a); same3('ends at the end point',P_(p.path_length),b)
            q=P_(u); ctx.zero(n+': unit speed',T.sub(sq([T.diff(x,u) for x in q.co]),T.ONE),pc); ctx.zero(n+': constant distance to the centre',T.sub(sq(q.co),tr(r)*tr(r)),pc)
            ctx.zero(n+': moves around the centre',T.sub(q.base,T.ONE),pc); ctx.zero(n+': stays in the plane of centre, start and end',q.co[2],pc)
            ctx.check(n+': no breakpoints',list(p.breakpoints)==[])
            t0=T.subst(T.diff(q.co[1],u),{u:T.ZERO}); at={x for x in T.walk([t0,tr(p.path_length)]) if x.op=='f' and x.args[0]=='atan2'}
            if len(at)!=1: raise Unsupported('swept angle not recognised')
            th=T.var('theta!'); m={x:th for x in at}; rr=T.mul(tr(r),tr(r))
            ctx.zero(n+': leaves the start %s the end, at unit speed'%('away from' if rev else 'towards'),T.sub(T.subst(t0,m),T.R(-1 if rev else 1)),list(pc)+[T.lt(T.ZERO,th),T.le(th,T.PI)])
            ctx.zero(n+': length is radius times swept angle',T.sub(T.subst(tr(p.path_length),m),T.mul(tr(r),T.sub(T.mul(T.R(2),T.PI),th) if rev else th)),list(pc)+[T.lt(T.ZERO,th),T.le(th,T.PI)])
        each(ctx,'Path.arc reverse=%s'%rev,lambda:G.Path.arc(C,a,b,reverse=rev),pre,body)
# ------------------------------------------------------------------ composition
def gpath(G,name='f',nb=2,nm='pname'):
    """an arbitrary path: any function, positive length, nb increasing breakpoints inside, a name."""
    bs=[X('%s_b%d'%(name,k)) for k in range(nb)]; L=X(name+'_len')
    p=G.Path(FN(name),L,list(bs),nm); ch=[T.ZERO]+[tr(b) for b in bs]+[tr(L)]
    return p,[T.lt(x,y) for x,y in zip(ch,ch[1:])]
def eqv(a,b): return [T.eq(tr(x),tr(y)) for x,y in zip(vec(a),vec(b))]
def piece(ctx,n,r,u,lo,hi,want,pc,bounded=False,each_=None):
    """r(u) for an arbitrary u in [lo,hi] (on every path of the evaluation)."""
    u=S(u) if isinstance(u,T.T) else u
    pre=list(pc)+[T.le(tr(lo),tr(u)),T.le(tr(u),tr(hi))]
    outs=ok(ctx,n,explore(lambda:r(u),pre))
    for k,o in enumerate(outs):
        if not P.feasible(o.pc,2000): continue
        same_ctx(ctx,'%s%s'%(n,' path %d'%k if len(outs)>1 else ''),o.val,want,o.pc)
def same_ctx(ctx,name,got,want,pc):
    g,w=vec(got),vec(want)
    if len(g)!=len(w): return ctx.check(name+': dimension',False,'%d instead of %d'%(len(g),len(w)))
    for i,(a,b) in enumerate(zip(g,w)): eqz(ctx,'%s[%d]'%(name,i),a,b,pc)
def eqz(ctx,name,a,b,pc):
    """a==b; arguments of arbitrary functions are compared first (congruence)."""
    if a is b: return ctx.zero(name,T.ZERO,pc)
    if a.op=='f' and b.op=='f' and a.args[0]==b.args[0] and len(a.args)==len(b.args) and a.args[0].startswith('free_'):
        n=len(ctx.obs)
        for x,y in zip(a.args[1:],b.args[1:]): ctx.zero(name,T.sub(x,y),pc)
        if all(o['status']=='proved' for o in ctx.obs[n:]):
            del ctx.obs[n+1:]; return True
        del ctx.obs[n:]
    return ctx.zero(name,T.sub(a,b),pc)
def v_concat(ctx):
    L=loader(); G=L.get('traceon.geometry'); u=T.var('u')
    ctx.bounded.append('breakpoint lists of 0 to 2 entries (their values and the curves are arbitrary)')
    for nb,mb in((0,0),(1,2),(2,1)):
        p,pre=gpath(G,'f',nb); q,pre2=gpath(G,'g',mb,'other'); Lp,Lq=tr(p.path_length),tr(q.path_length)
        meet=pre+pre2+eqv(p(p.path_length),q(S(T.ZERO)))
        def body(n,r,pc):
            same(ctx,n+': lengths add up',r.path_length,T.add(Lp,Lq),pc); ctx.check(n+': keeps the name of the first path',r.name=='pname')
            piece(ctx,n+': first part',r,u,T.ZERO,Lp,vec(p(S(u))),pc); 
            piece(ctx,n+': second part',r,u,Lp,T.add(Lp,Lq),vec(q(S(T.sub(u,Lp)))),list(pc)+[T.lt(Lp,u)])
            from .pygeo import eqs
            eqs(ctx,n+': breakpoints of the first, the join, breakpoints of the second',r.breakpoints,[tr(b) for b in p.breakpoints]+[Lp]+[T.add(Lp,tr(b)) for b in q.breakpoints],pc)
            ctx.check(n+': operands unchanged',len(p.breakpoints)==nb and len(q.breakpoints)==mb and p.path_length.t is Lp and q.path_length.t is Lq)
        each(ctx,'Path.__rshift__ (%d and %d breakpoints)'%(nb,mb),lambda:p>>q,meet,body)
    e,s=vec(p(p.path_length)),vec(q(S(T.ZERO)))
    ok(ctx,'Path.__rshift__ of paths that do not meet',explore(lambda:p>>q,pre+pre2+[T.lt(T.add(s[1],T.ONE,T.fun('fabs',s[1])),e[1])]),'raise')
def v_extend(ctx):
    """line_to, arc_to and close against the contracts of line, arc and >>."""
    L=loader(); G=L.get('traceon.geometry'); u=T.var('u'); w=V('w'); c=V('c')
    from .pygeo import eqs
    for nb in(0,2):
        p,pre=gpath(G,'f',nb); Lp=tr(p.path_length); E=vec(p(p.path_length)); bs=[tr(b) for b in p.breakpoints]
        for nm,call,end in(('Path.line_to',lambda:p.line_to(w),vec(w)),('Path.line_to (list)',lambda:p.line_to(list(w)),vec(w)),('Path.close',lambda:p.close(),vec(p(S(T.ZERO))))):
            def body(n,r,pc):
                d=T.sqrt(sq(sub3(E,end))); pd=list(pc)+[T.lt(T.ZERO,d)]
                same(ctx,n+': length grows by the length of the edge',r.path_length,T.add(Lp,d),pd); ctx.check(n+': name kept',r.name=='pname')
                piece(ctx,n+': old part',r,u,T.ZERO,Lp,vec(p(S(u))),pd)
                t=T.div(T.sub(u,Lp),d); piece(ctx,n+': straight edge',r,u,Lp,T.add(Lp,d),add3(E,scale(t,sub3(end,E))),pd+[T.lt(Lp,u)])
                eqs(ctx,n+': corner at the join',r.breakpoints,bs+[Lp],pd)
            each(ctx,'%s (%d breakpoints)'%(nm,nb),call,pre+[ne(E,end)],body)
        rec=[]
        def arc_stub(center,start,end,reverse=False):
            rec.append((vec(center),vec(start),vec(end),reverse)); f=FN('arc'); la=X('arc_len')
            Y.assume(S(T.lt(T.ZERO,tr(la))))
            for x,y in zip(vec(f(T.ZERO)),vec(start)): Y.assume(S(T.eq(x,y)))
            return G.Path(f,la)
        G.Path.arc=staticmethod(arc_stub)
        for rev in(False,True):
            def body(n,r,pc):
                la=T.var('arc_len'); ctx.check(n+': one arc',len(rec)>=1)
                ce,st,en,rv=rec[-1]; ctx.check(n+': direction handed on',(Y.tt(rv) if isinstance(rv,S) else rv)==rev)
                same(ctx,n+': arc around the given centre',ce,vec(c),pc); same(ctx,n+': arc starts at the end of the path',st,E,pc); same(ctx,n+': arc to the given end',en,vec(w),pc)
                same(ctx,n+': lengths add up',r.path_length,T.add(Lp,la),pc); piece(ctx,n+': old part',r,u,T.ZERO,Lp,vec(p(S(u))),pc); piece(ctx,n+': arc part',r,u,Lp,T.add(Lp,la),vec(FN('arc')(T.sub(u,Lp))),list(pc)+[T.lt(Lp,u)])
                eqs(ctx,n+': corner at the join',r.breakpoints,bs+[Lp],pc); ctx.check(n+': name kept',r.name=='pname')
            each(ctx,'Path.arc_to reverse=%s (%d breakpoints)'%(rev,nb),lambda:p.arc_to(c,w,reverse=rev),pre,body)
def v_cut(ctx):
    L=loader(); G=L.get('traceon.geometry'); u=T.var('u'); l=X('cut'); from .pygeo import eqs
    for nb in(0,1,2):
        for at in range(nb+1):
            p,pre=gpath(G,'f',nb); Lp=tr(p.path_length); bs=[tr(b) for b in p.breakpoints]; ch=[T.ZERO]+bs+[Lp]
            pre=pre+[T.lt(ch[at],tr(l)),T.lt(tr(l),ch[at+1])]
            def body(n,r,pc):
                if not ctx.check(n+': two parts',len(r)==2): return
                a,b=r
                same(ctx,n+': length of the first part',a.path_length,tr(l),pc); same(ctx,n+': length of the second part',b.path_length,T.sub(Lp,tr(l)),pc)
                piece(ctx,n+': first part of the same curve',a,u,T.ZERO,tr(l),vec(p(S(u))),pc); piece(ctx,n+': second part of the same curve',b,u,T.ZERO,T.sub(Lp,tr(l)),vec(p(S(T.add(u,tr(l))))),pc)
                eqs(ctx,n+': corners of the first part',a.breakpoints,bs[:at],pc); eqs(ctx,n+': corners of the second part',b.breakpoints,[T.sub(x,tr(l)) for x in bs[at:]],pc)
                ctx.check(n+': names kept',a.name=='pname' and b.name=='pname'); ctx.check(n+': path unchanged',same_list(p.breakpoints,[S(b) for b in bs]) and p.path_length.t is Lp)
            each(ctx,'Path.cut (%d breakpoints, cut in piece %d)'%(nb,at),lambda:p.cut(l),pre,body)
def v_phase(ctx):
    L=loader(); G=L.get('traceon.geometry'); u=T.var('u'); l=X('phase'); from .pygeo import eqs
    for nb in(0,1,2):
        for at in range(nb+1):
            p,pre=gpath(G,'f',nb); Lp=tr(p.path_length); bs=[tr(b) for b in p.breakpoints]; ch=[T.ZERO]+bs+[Lp]; lt=tr(l)
            pre=pre+eqv(p(S(T.ZERO)),p(p.path_length))+[T.lt(ch[at],lt),T.lt(lt,ch[at+1])]
            def body(n,r,pc):
                same(ctx,n+': length kept',r.path_length,Lp,pc); ctx.check(n+': name kept',r.name=='pname')
                piece(ctx,n+': curve before the old end',r,u,T.ZERO,T.sub(Lp,lt),vec(p(S(T.add(u,lt)))),list(pc)+[T.lt(T.add(u,lt),Lp)]); piece(ctx,n+': curve after the old end',r,u,T.sub(Lp,lt),Lp,vec(p(S(T.sub(T.add(u,lt),Lp)))),list(pc)+[T.le(Lp,T.add(u,lt)),T.lt(u,Lp)])
                want=[T.sub(b,lt) for b in bs[at:]]+[T.sub(Lp,lt)]+[T.sub(T.add(b,Lp),lt) for b in bs[:at]]
                eqs(ctx,n+': corners shifted, old start becomes a corner, in order',r.breakpoints,want,pc)
            each(ctx,'Path.add_phase (%d breakpoints, phase in piece %d)'%(nb,at),lambda:p.add_phase(l),pre,body)
    for turns in(-1,2):
        p,pre=gpath(G,'f',1); Lp=tr(p.path_length); bs=[tr(b) for b in p.breakpoints]; lt=tr(l); ch=[T.ZERO]+bs+[Lp]
        pre=pre+eqv(p(S(T.ZERO)),p(p.path_length))+[T.lt(ch[0],lt),T.lt(lt,ch[1])]
        def body(n,r,pc):
            same(ctx,n+': length kept',r.path_length,Lp,pc)
            piece(ctx,n+': curve before the old end',r,u,T.ZERO,T.sub(Lp,lt),vec(p(S(T.add(u,lt)))),list(pc)+[T.lt(T.add(u,lt),Lp)]); piece(ctx,n+': curve after the old end',r,u,T.sub(Lp,lt),Lp,vec(p(S(T.sub(T.add(u,lt),Lp)))),list(pc)+[T.le(Lp,T.add(u,lt)),T.lt(u,Lp)])
            eqs(ctx,n+': corners shifted, old start becomes a corner, in order',r.breakpoints,[T.sub(b,lt) for b in bs]+[T.sub(Lp,lt)],pc)
        each(ctx,'Path.add_phase (%d whole turns added)'%turns,lambda:p.add_phase(l+turns*p.path_length),pre,body)
    ctx.bounded.append('Path.add_phase: phases between 0 and the length, and the same with -1 and 2 whole turns added')
    far=[T.lt(T.add(vec(p(p.path_length))[0],T.ONE,T.fun('fabs',vec(p(p.path_length))[0])),vec(p(S(T.ZERO)))[0])]
    ok(ctx,'Path.add_phase of an open path',explore(lambda:p.add_phase(l),pos(p.path_length)+far),'raise')
    for o in ok(ctx,'Path.is_closed (open)',explore(lambda:bool(p.is_closed()),pos(p.path_length)+far)): ctx.check('Path.is_closed: false when the end is far from the start',o.val is False)
    for o in ok(ctx,'Path.is_closed (closed)',explore(lambda:bool(p.is_closed()),pos(p.path_length)+eqv(p(S(T.ZERO)),p(p.path_length)))): ctx.check('Path.is_closed: true when the end is the start',o.val is True)
    for nm,at in(('starting_point',T.ZERO),('middle_point',T.div(tr(p.path_length),T.R(2))),('endpoint',tr(p.path_length))):
        for o in ok(ctx,'Path.'+nm,explore(lambda:getattr(p,nm)())): same_ctx(ctx,'Path.'+nm,o.val,vec(p(S(at))),o.pc)
def pts3(*ps): return [[tr(x) for x in p] for p in ps]
def polygon(ctx,name,call,corners,pre,lens,shift=None):
    """the path visits the corners in order along straight edges of the given lengths."""
    from .pygeo import eqs
    u=T.var('u'); n=len(lens)
    def body(nm,r,pc):
        cum=[T.ZERO]
        for x in lens: cum.append(T.add(cum[-1],x))
        same(ctx,nm+': length is the sum of the edges',r.path_length,cum[-1],pc); eqs(ctx,nm+': breakpoints at the inner corners',r.breakpoints,cum[1:-1],pc)
        for k in range(n):
            a,b=corners[k],corners[k+1]; t=T.div(T.sub(u,cum[k]),lens[k])
            piece(ctx,nm+': edge %d'%k,r,u,cum[k],cum[k+1],add3(a,scale(t,sub3(b,a))),list(pc)+([T.lt(cum[k],u)] if k else []))
    each(ctx,name,call,pre,body)
def v_polygons(ctx):
    L=loader(); G=L.get('traceon.geometry'); a0,a1,b0,b1=[X(n) for n in('lo1','hi1','lo2','hi2')]; z=T.ZERO
    pre=[T.lt(tr(a0),tr(a1)),T.lt(tr(b0),tr(b1))]; A_,B_=T.sub(tr(a1),tr(a0)),T.sub(tr(b1),tr(b0))
    for nm,ix,order in(('rectangle_xz',(0,2),'ab'),('rectangle_yz',(1,2),'ba'),('rectangle_xy',(0,1),'ba')):
        def P_(i,j): q=[z]*3; q[ix[0]]=tr((a0,a1)[i]); q[ix[1]]=tr((b0,b1)[j]); return q
        c=[P_(0,0),P_(1,0),P_(1,1),P_(0,1),P_(0,0)] if order=='ab' else [P_(0,0),P_(0,1),P_(1,1),P_(1,0),P_(0,0)]
        polygon(ctx,'Path.'+nm,lambda:getattr(G.Path,nm)(a0,a1,b0,b1),c,pre,[A_,B_,A_,B_] if order=='ab' else [B_,A_,B_,A_])
    h,r,e,zz=[X(n) for n in('height','radius','extent','z')]; hh=T.div(tr(h),T.R(2))
    for w,kw in(('z given',dict(z=zz)),('default z',{})):
        zt=tr(zz) if kw else z; lo,hi=T.sub(zt,hh),T.add(zt,hh)
        polygon(ctx,'Path.aperture (%s)'%w,lambda:G.Path.aperture(h,r,e,**kw),[[tr(e),z,lo],[tr(r),z,lo],[tr(r),z,hi],[tr(e),z,hi]],pos(h,r)+[T.lt(tr(r),tr(e))],[T.sub(tr(e),tr(r)),tr(h),T.sub(tr(e),tr(r))])
def v_irregular(ctx):
    from . import pyspline as SP
    from .pygeo import eqs
    ctx.trust('scipy CubicSpline at its ideal (interpolation error excluded): interpolant, derivative, antiderivative and inverse are those of the sampled function')
    for nb in(0,2):
        env=SP.Env(); rec=[]; L=loader(); SP.install(L,env,rec); G=L.get('traceon.geometry')
        f=FN('f'); N=X('N','I'); bs=[X('b%d'%k) for k in range(nb)]
        for c in range(3): env.rules['free_f%d'%c]=lambda a,c=c:[T.fun('free_df%d'%c,a)]
        def body(n,p,pc):
            # regular parametrisation: the speed is positive everywhere
            u=T.var('u'); pc=list(pc)+env.facts; L_=tr(p.path_length)
            def sp(x): return sq([T.fun('free_df%d'%c,x) for c in range(3)])
            same_ctx(ctx,n+': starts where the function starts',p(S(T.ZERO)),vec(f(T.ZERO)),pc); same_ctx(ctx,n+': ends where the function ends',p(p.path_length),vec(f(T.ONE)),pc)
            v=vec(p(S(u))); d=[env.diff(x,u) for x in v]
            arg={x.args[1] for x in T.walk(d) if x.op=='f' and x.args[0].startswith('free_df')}
            ctx.zero(n+': unit speed',T.sub(sq(d),T.ONE),pc+[T.lt(T.ZERO,sp(x)) for x in arg])
            # the length is the integral of the speed: derivative of the length with respect to the upper limit
            names=[x.args[0] for x in T.walk([L_]) if x.op=='f' and x.args[0].startswith('free_int')]
            if ctx.check(n+': length is an integral',len(set(names))==1 and L_.op=='f',T.show(L_,4)):
                b=env.rules[names[0]](u)[0]; ctx.zero(n+': integrand is the speed',T.sub(b,T.sqrt(sp(u))),[T.lt(T.ZERO,sp(u))]); ctx.zero(n+': integral up to the end of the parameter range',T.sub(L_.args[1],T.ONE),pc)
                eqs(ctx,n+': breakpoints at the lengths of the given parameters',p.breakpoints,[S(T.fun(names[0],tr(b))) for b in bs],pc)
        each(ctx,'Path.from_irregular_function (%d breakpoints)'%nb,lambda:G.Path.from_irregular_function(f,N=N,breakpoints=list(bs)),[T.le(T.I(2),tt(N))],body)
    env=SP.Env(); L=loader(); SP.install(L,env,[]); G=L.get('traceon.geometry'); got=[]
    def stub(to_point,N=100,breakpoints=[]): got.append((to_point,N,breakpoints)); return 'path'
    G.Path.from_irregular_function=staticmethod(stub)
    mj,mn,u=X('major'),X('minor'),T.var('u')
    def body(n,r,pc):
        ctx.check(n+': returns the path of its parametrisation',r=='path'); g,_,b=got[-1]; th=T.mul(T.R(2),T.PI,u)
        same_ctx(ctx,n+': parametrisation',g(S(u)),[T.mul(tr(mj),T.cos(th)),T.mul(tr(mn),T.sin(th)),T.ZERO],pc); ctx.check(n+': no breakpoints',list(b)==[])
    each(ctx,'Path.ellipse',lambda:G.Path.ellipse(mj,mn),pos(mj,mn),body)
    for k in(2,3,5):
        ps=[V('p%d'%i) for i in range(k)]
        def body(n,r,pc):
            g,_,b=got[-1]
            for i in range(k): same_ctx(ctx,n+': passes through point %d'%i,g(i/(k-1)),vec(ps[i]),list(pc)+env.facts)
            ctx.check(n+': no breakpoints',list(b)==[])
        each(ctx,'Path.spline_through_points (%d points)'%k,lambda:G.Path.spline_through_points([list(p) for p in ps]),[],body)
    # average
    env=SP.Env(); rec=[]; L=loader(); SP.install(L,env,rec); G=L.get('traceon.geometry'); p,pre=gpath(G,'f',2); h=FN('h',1,3)
    ctx.trust('scipy quad returns the integral of its integrand between its limits')
    def body(n,r,pc):
        q=rec[-1]; x=q['x']
        same_ctx(ctx,n+': integrates the function along the path',[q['f']],vec(h(*p(S(x)))),pc); ctx.zero(n+': from the start',q['a'],pc); ctx.zero(n+': to the end',T.sub(q['b'],tr(p.path_length)),pc); ctx.zero(n+': divided by the length',T.sub(tr(r),T.div(tr(q['v']),tr(p.path_length))),pc)
    each(ctx,'Path.average',lambda:p.average(lambda q:h(q[0],q[1],q[2])[0]),pre,body)
