"""Contracts of plane intersection, adaptive integration and the triangle integrals."""
from .cs import *
from .cs import _once
from .cs3 import rd
from .inv import Invariant
from . import term as T, prove as P

# ------------------------------------------------------------------ plane intersection (C14)
def v_plane(ctx):
    f='plane_intersection'
    if not _once(ctx,f): return
    def go():
        R=Run(ctx); p0,n=R.arr('p0',3),R.arr('n',3); Np=T.var('Np','I'); po=R.arr('pos',T.mul(T.I(6),Np),('arr',D,6)); res=R.out('result',6)
        P0=[T.sel('p0',T.I(i)) for i in range(3)]; N_=[T.sel('n',T.I(i)) for i in range(3)]; nn=T.add(*[sq(c) for c in N_]); L=T.sqrt(nn)
        R.assume(T.lt(T.ZERO,nn),T.lt(T.IONE,Np)); ctx.vacuity(f,R.st.pc)
        pos=lambda j,k: T.sel('pos',T.add(T.mul(T.I(6),j),T.I(k)))
        kap=lambda j: T.add(*[N_[c]*P0[c]-N_[c]*pos(j,c) for c in range(3)])/L
        # sign of the (scaled) distance to the plane as used by the library: > 0 or not
        side=lambda j: T.lt(T.ZERO,kap(j))
        opp=lambda j: T.bnot(iff(side(j),side(T.add(j,T.IONE))))
        q=T.fresh('q','I'); last=T.sub(Np,T.I(2))
        idx=lambda v: v['i'] if inv_.alt['i']==0 else T.sub(v['i'],T.IONE)
        def inv(v,arrs):
            i=idx(v); out=[('index in range',T.band(T.le(T.I(-1),i),T.le(i,last))),('no crossing on later segments',T.implies(T.band(T.lt(i,q),T.le(q,last)),T.bnot(opp(q))))]
            if 'kp' in v: out.append(('the carried distance belongs to the end of the segment',T.eq(v['kp'],kap(T.add(i,T.IONE)))))
            return out
        cache={}
        def norm(ts,hv):
            """distances to the plane of the samples involved become plain values."""
            i=idx(hv); js=[i,T.add(i,T.IONE),q,T.add(q,T.IONE)]; m={}
            for u in T.walk(ts):
                if u.op not in('lt','le') or u.args[0].sort!='R': continue
                for x in u.args:
                    if T.isc(x) or x.op=='var': continue
                    if x not in cache:
                        cache[x]=None
                        for j in js:
                            if P.prove_zero(x-kap(j),[],limit=5).status=='proved': cache[x]=T.sel('kappa',j); break
                    if cache[x] is not None: m[x]=cache[x]
            if 'kp' in hv: m[hv['kp']]=T.sel('kappa',T.add(i,T.IONE))
            return [T.subst(t,m) for t in ts]
        inv_=Invariant(ctx,f,{'i':[last,T.sub(Np,T.IONE)],'kp':kap(T.sub(Np,T.IONE))},inv,optional={'kp'},norm=lambda ts,hv: norm(ts,hv) if len(ts) and T.occurs(q,ts[0]) else ts)
        R.eng.loop_handler=inv_
        ps=R.run(f,p0,n,po,Np,res); hv=inv_.head_vals; i=idx(hv); nt=nf=0
        for p in ps:
            if p.outcome!='return': continue
            r=p.ret if p.ret.sort!='B' else T.ite(p.ret,T.IONE,T.IZERO)
            if P.feasible(list(p.pc)+[T.bnot(T.eq(r,T.IZERO))]):
                nt+=1; pc=list(p.pc)+[T.bnot(T.eq(r,T.IZERO))]
                z=norm([T.implies(T.band(T.lt(i,q),T.le(q,last)),T.bnot(opp(q)))]+pc,hv); ctx.true(f+': it is the last such segment',z[0],z[1:])
                z=norm([opp(i)]+pc,hv); ctx.true(f+': an intersection is reported only for samples on opposite sides',z[0],z[1:])
                ka,kb=kap(i),kap(T.add(i,T.IONE)); t=-kb/(ka-kb)
                sub=[T.eq(hv['kp'],kb)] if 'kp' in hv else []
                m={hv['kp']:kb} if 'kp' in hv else {}
                S=lambda x: T.subst(x,m)
                for k in range(6): ctx.zero(f+': result[%d] is on the segment between the two samples'%k,S(getmem(p,res,k))-((1-t)*pos(T.add(i,T.IONE),k)+t*pos(i,k)),[S(x) for x in pc])
                ctx.zero(f+': the intersection lies on the plane',T.add(*[N_[c]*(S(getmem(p,res,c))-P0[c]) for c in range(3)]),[S(x) for x in pc])
                A,B=T.fresh('ka'),T.fresh('kb'); tt=-B/(A-B)
                ctx.true('lemma: the segment parameter of points on opposite sides is in [0,1]',T.band(T.le(T.ZERO,tt),T.le(tt,T.ONE)),[T.bnot(iff(T.lt(T.ZERO,A),T.lt(T.ZERO,B)))])
            if P.feasible(list(p.pc)+[T.eq(r,T.IZERO)]):
                nf+=1; z=norm([T.implies(T.band(T.le(T.IZERO,q),T.le(q,last)),T.bnot(opp(q)))]+list(p.pc)+[T.eq(r,T.IZERO)],hv); ctx.true(f+': "no intersection" is reported only if no segment crosses',z[0],z[1:])
        ctx.check(f+': both outcomes are possible',nt>0 and nf>0)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def iff(a,b): return T.band(T.implies(a,b),T.implies(b,a))

# ------------------------------------------------------------------ adaptive integration (C24)
GK15=[(0.0,'0.209482141084727828012999174891714'),('0.207784955007898467600689403773245','0.204432940075298892414161999234649'),('0.405845151377397166906606412076961','0.190350578064785409913256402421014'),
 ('0.586087235467691130294144838258730','0.169004726639267902826583426598550'),('0.741531185599394439863864773280788','0.140653259715525918745189590510238'),('0.864864423359769072789712788640926','0.104790010322250183839876322541518'),
 ('0.949107912342758524526189684047851','0.063092092629978553290700663189204'),('0.991455371120812639206854697526329','0.022935322010529224963732008058970')]
def tables(ctx):
    g=[T.cv(x) for x in const_array(ctx,'G7_WEIGHTS',4)]; gn=[T.cv(x) for x in const_array(ctx,'G7_NODES',4)]
    k=[T.cv(x) for x in const_array(ctx,'K15_WEIGHTS',8)]; kn=[T.cv(x) for x in const_array(ctx,'K15_NODES',8)]
    return g,gn,k,kn
def v_kronrod_tables(ctx):
    if not _once(ctx,'kronrod tables'): return
    def go():
        g,gn,k,kn=tables(ctx)
        for nm,w,x,deg in(('7 point',g,gn,13),('15 point',k,kn,22)):
            for d in range(0,deg+1,2):
                s=w[0]*(1 if d==0 else 0)*1+sum(2*w[i]*x[i]**d for i in range(1,len(w))) if x[0]==0 else None
                ctx.check('kronrod_adaptive: the %s rule integrates t^%d over [-1,1] exactly (1e-13)'%(nm,d),s is not None and abs(s-Fr(2,d+1))<Fr(1,10**13),str(float(s-Fr(2,d+1))) if s is not None else '',method='exact-rational')
    ctx.attempt('kronrod tables',go)
def c_f(eng,st,args): return T.fun('FF_0',T.R(eng.num(args[0])))
def v_kronrod(ctx):
    f='kronrod_adaptive'; v_kronrod_tables(ctx)
    if not _once(ctx,f): return
    def go():
        g,gn,k,kn=tables(ctx)
        R=Run(ctx,own={'ff!':c_f}); a,b,at,rt=V('a b abs_tol rel_tol'); R.assume(T.le(a,b)); ctx.vacuity(f,R.st.pc); FFv=lambda x: T.fun('FF_0',x)
        def panel(s,e,w,x):
            c,h=(s+e)/2,(e-s)/2
            return h*T.add(T.R(w[0])*FFv(c),*[T.R(w[i])*(FFv(c-h*T.R(x[i]))+FFv(c+h*T.R(x[i]))) for i in range(1,len(w))])
        def inv(v,arrs): return [('a <= start <= b',T.band(T.le(a,v['s']),T.le(v['s'],b))),('the current panel ends inside the interval',T.le(v['e'],b)),('the current panel is not empty',T.implies(T.lt(v['s'],b),T.lt(v['s'],v['e'])))]
        ends=[]; inv_=Invariant(ctx,f,{'r':T.ZERO,'s':a,'e':b},inv,on_end=lambda hv,ev,x: ends.append((hv,ev,x))); R.eng.loop_handler=inv_
        ps=R.run(f,FnPtr('ff!'),a,b,NULL,at,rt); hv=inv_.head_vals; s,e,r=hv['s'],hv['e'],hv['r']
        K,G=panel(s,e,k,kn),panel(s,e,g,gn); Kv,Gv=T.var('K15'),T.var('G7'); ab=lambda x: T.fun('fabs',x)
        acc=T.bor(T.le(ab(Kv-Gv),at),T.le(ab(Kv-Gv),rt*ab(Kv)))
        nacc=nrej=0
        for _,ev,x in ends:
            adv=T.lt(s,ev['s'])      # an iteration that moves on accepts the panel
            # replace the panel estimates by variables where they occur
            A,B_=list(x.pc)+[adv],list(x.pc)+[T.bnot(adv)]
            m={}
            for u in dict.fromkeys(u for t in list(x.pc)+list(ev.values()) for u in T.walk([t]) if u.op=='f' and u.args[0]=='fabs'):
                for w_,v_ in((K-G,Kv-Gv),(K,Kv),(G,Gv)):
                    if any(P.prove_zero(u.args[1]-sg*w_,[],limit=10).status=='proved' for sg in(1,-1)): m[u]=ab(v_); break
            ctx.defs=[T.eq(Kv,K),T.eq(Gv,G)]; A=[T.subst(q_,m) for q_ in A]; B_=[T.subst(q_,m) for q_ in B_]
            ev={k_:T.subst(v_,m) for k_,v_ in ev.items()}
            if not m: ctx.defs=[]
            if P.feasible(A):
                nacc+=1
                ctx.zero(f+': an accepted panel adds its estimate, which is the 15 point rule on [start,end]',ev['r']-r-K,A,funcs=NF1)
                ctx.true(f+': after an accepted panel integration continues exactly at its end',T.eq(ev['s'],e),A); 
                ctx.true(f+': a panel is accepted only if its two estimates agree within the absolute or the relative tolerance',acc,A)
            if P.feasible(B_):
                nrej+=1
                ctx.true(f+': a rejected panel adds nothing and restarts at the same point',T.band(T.eq(ev['s'],s),T.eq(ev['r'],r)),B_)
                ctx.true(f+': a rejected panel is shortened',T.band(T.lt(s,ev['e']),T.lt(ev['e'],e)),B_)
        ctx.defs=[]
        ctx.check(f+': panels can be accepted and rejected',nacc>0 and nrej>0)
        for p in ps:
            ctx.true(f+': on return the panels have reached b',T.eq(s,b),p.pc); ctx.zero(f+': the accumulated sum is returned',p.ret-r,p.pc)
        ctx.trust('termination of the bisection (an integrand for which no panel ever meets the tolerance) is not covered')
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
NF1={'FF_0':lambda x: P.mpmath.sin(3*x)+x*x+P.mpmath.sqrt(1+x*x)*7}

# ------------------------------------------------------------------ triangle integrals (C29)
def frame(v0,v1,v2):
    e1,e2=vsub(v1,v0),vsub(v2,v0); L=norm(e1); Xn=[c/L for c in e1]; cr=cross(e1,e2); A=norm(cr); Z=[c/A for c in cr]
    return e1,e2,L,A,Xn,cross(Z,Xn),Z
def tri_syms(pre=''):
    return [[T.sel(pre+'v%d'%i,T.I(c)) for c in range(3)] for i in range(3)],[T.sel(pre+'t',T.I(c)) for c in range(3)]
def v_triangle_frame(ctx):
    """potential_triangle / flux_triangle hand the integrator the triangle in its own frame."""
    (v0,v1,v2),t=tri_syms(); e1,e2,L,A,X,Y,Z=frame(v0,v1,v2); u=vsub(v0,t)
    spec={'x0':dot(u,X),'y0':dot(u,Y),'a':L,'b':dot(e2,X),'c':dot(e2,Y),'z':-dot(Z,u)}
    for f,fn in(('potential_triangle','_potential_integrand'),('flux_triangle','_flux_integrand')):
        if not _once(ctx,f): continue
        def go():
            seen=[]
            def c(eng,st,args): seen.append((st.copy(),list(args))); return T.var('integral')
            R=Run(ctx,own={'kronrod_adaptive':c}); ps=[R.arr('v%d'%i,3) for i in range(3)]+[R.arr('t',3)]
            if f=='flux_triangle': ps.append(R.arr('nrm',3))
            R.assume(T.lt(T.ZERO,dot(e1,e1)),T.lt(T.ZERO,dot(cross(e1,e2),cross(e1,e2)))); ctx.vacuity(f,R.st.pc)
            for p in R.run(f,*ps): ctx.check(f+': returns the value of the integral',p.ret is T.var('integral'))
            ctx.check(f+': integrates once',len(seen)==1); st,a=seen[0]
            ctx.check(f+': integrates its own integrand over the height of the triangle',isinstance(a[0],FnPtr) and a[0].name==fn)
            sty=('struct','_normalized_triangle'); ctx.zero(f+': lower limit 0',R.eng.num(a[1]),st.pc)
            ctx.zero(f+': upper limit is the height over the first edge',R.eng.num(a[2])-spec['c'],st.pc)
            ctx.check(f+': tolerances at most 1e-9',all(T.isc(R.eng.num(q)) and 0<T.cv(R.eng.num(q))<=Fr(101,10**11) for q in a[4:6]))
            for nm,want in spec.items():
                off,ty=R.eng.field_off(sty,nm); ctx.zero(f+': %s is the coordinate of the triangle in its own frame'%nm,T.R(st.mem[a[3].obj][int(T.cv(a[3].off))+off])-want,st.pc)
            if f=='flux_triangle':
                off,_=R.eng.field_off(sty,'normal'); np_=st.mem[a[3].obj][int(T.cv(a[3].off))+off]; nr=[T.sel('nrm',T.I(i)) for i in range(3)]
                for i,ax in enumerate((X,Y,Z)): ctx.zero(f+': normal component %d in the frame of the triangle'%i,R.eng.read(st,np_.obj,T.add(np_.off,T.I(i)),D)-dot(ax,nr),st.pc)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    if _once(ctx,'triangle frame lemmas'):
        def lem():
            for nm,w in(('X.X=1',dot(X,X)-1),('Y.Y=1',dot(Y,Y)-1),('Z.Z=1',dot(Z,Z)-1),('X.Y=0',dot(X,Y)),('X.Z=0',dot(X,Z)),('Y.Z=0',dot(Y,Z)),('the third vertex lies in the plane of X and Y',dot(e2,Z)),('the height is positive: c |v1-v0| is twice the area',dot(e2,Y)*L-A)): ctx.zero('lemma: triangle frame: '+nm,w,[])
            x,y=V('x y'); m={}
            # coordinates in an orthonormal frame: a point of the triangle at (x,y) relative to the target is (x, y+y0, -z)
            x0,y0,z,a,b,c,s,r=V('x0 y0 z a b c s r')
            xmin,xmax=x0+y/c*b,x0+a+y/c*(b-a)
            for nm,px in(('v0-v2',xmin),('v1-v2',xmax)):
                base=(T.ZERO,T.ZERO) if nm=='v0-v2' else (a,T.ZERO); w=y/c
                ctx.zero('lemma: the integration limit at height y lies on the edge '+nm,(px-x0)-(base[0]+w*(b-base[0])),[T.lt(T.ZERO,c)])
            ctx.trust('integration over a triangle as iterated integral in orthonormal coordinates; fundamental theorem of calculus')
        ctx.attempt('triangle frame lemmas',lem)
def targs(R,fields,nrm=None):
    sty=('struct','_normalized_triangle'); o=R.out('args',R.eng.slots(sty),sty)
    for k,v in fields.items(): R.st.mem[o.obj][R.eng.field_off(sty,k)[0]]=v
    if nrm is not None: R.st.mem[o.obj][R.eng.field_off(sty,'normal')[0]]=nrm
    return o
def v_triangle_integrands(ctx):
    fl=dict(zip('x0 y0 a b c z'.split(),V('x0 y0 a b c z'))); y=T.var('y'); x0,y0,a,b,c,z=fl.values(); x=T.var('x')
    xmin,xmax=x0+y/c*b,x0+a+y/c*(b-a); r2=sq(y+y0)+sq(z); pos=[T.lt(T.ZERO,a),T.lt(T.ZERO,c),T.le(T.ZERO,y),T.le(y,c)]
    f='_potential_integrand'
    if _once(ctx,f):
        def go():
            R=Run(ctx); o=targs(R,fl); R.assume(*pos,T.le(T.R(Fr(1,10**24)),r2)); R.assume(T.le(T.R(Fr(1,10**12)),T.sqrt(r2))); ctx.vacuity(f,R.st.pc); d=T.sqrt(r2); H=lambda v: T.fun('asinh',v/d)
            for p in R.run(f,y,o): ctx.zero(f+': asinh(xmax/d)-asinh(xmin/d), d the distance of the target to the line at height y (for d >= 1e-12)',p.ret-(H(xmax)-H(xmin)),p.pc,env=tri_env)
            ctx.vcs(f,R.eng)
            dd=T.var('d'); ctx.zero('lemma: d/dx asinh(x/d) = 1/sqrt(x^2+d^2), the Coulomb kernel along the line',T.diff(T.fun('asinh',x/dd),x)-1/T.sqrt(sq(x)+sq(dd)),[T.lt(T.ZERO,dd)],env=tri_env)
        ctx.attempt(f,go)
    f='_flux_integrand'
    if _once(ctx,f):
        def go():
            R=Run(ctx); nr=R.arr('nrm',3); o=targs(R,fl,nr); n=[T.sel('nrm',T.I(i)) for i in range(3)]
            S=lambda v: T.sqrt(r2+sq(v)); G=lambda v: v/(r2*S(v))
            want=n[0]*(1/S(xmax)-1/S(xmin))-n[1]*(y+y0)*(G(xmax)-G(xmin))+n[2]*z*(G(xmax)-G(xmin))
            pre=pos+[T.lt(T.ZERO,r2)]; R.assume(*pre); ctx.vacuity(f,R.st.pc)
            lim=T.R(Fr(1,10**20))*sq(xmax-xmin)
            for nm,rg in(('both limits on the right',[T.lt(T.ZERO,xmin),T.lt(T.ZERO,xmax)]),('both limits on the left',[T.lt(xmin,T.ZERO),T.lt(xmax,T.ZERO)]),('limits on either side, target off the triangle',[T.le(xmin,T.ZERO),T.le(T.ZERO,xmax),T.lt(lim,r2)])):
                R2=Run(ctx); nr=R2.arr('nrm',3); o=targs(R2,fl,nr); R2.assume(*pre,*rg); got=0; lo,hi=T.var('lo'),T.var('hi')
                for p in R2.run(f,y,o):
                    if not P.feasible(p.pc): continue
                    got=1; ctx.zero(f+' (%s): normal component of the field of the line at height y'%nm,signs(p.ret-want,rg,xmin,xmax),p.pc,env=tri_env)
                ctx.check(f+' (%s): reachable'%nm,got==1); ctx.vcs(f,R2.eng)
            dd=T.var('d'); s=T.sqrt(sq(dd)+sq(x))
            ctx.zero('lemma: d/dx 1/s = -x/s^3',T.diff(1/s,x)+x/T.power(s,3),[T.lt(T.ZERO,dd)]); ctx.zero('lemma: d/dx x/(d^2 s) = 1/s^3',T.diff(x/(sq(dd)*s),x)-1/T.power(s,3),[T.lt(T.ZERO,dd)])
        ctx.attempt(f,go)
def signs(t,rg,xmin,xmax):
    """|x| = +-x where the precondition fixes the sign."""
    if len(rg)!=2: return t
    sg=1 if rg[0] is T.lt(T.ZERO,xmin) else -1; m={}
    for u in T.walk([t]):
        if u.op=='f' and u.args[0]=='fabs':
            for w in(xmin,xmax):
                if P.prove_zero(u.args[1]-w,[],limit=5).status=='proved': m[u]=w if sg==1 else -w
    return T.subst(t,m)
def tri_env(seed):
    import random; rr=random.Random(seed); m=P.mpmath.mpf
    c=rr.uniform(.3,2); return P.Env(seed,dict(a=m(rr.uniform(.2,2)),b=m(rr.uniform(-1,2)),c=m(c),y=m(rr.uniform(0,c)),d=m(rr.uniform(.1,2))))
def v_self_triangle(ctx):
    f='self_potential_triangle_v0'; (v0,v1,v2),t=tri_syms(); e1,e2,L,A,X,Y,Z=frame(v0,v1,v2)
    if _once(ctx,f):
        def go():
            a,b,c=V('a b c'); names={a:L,b:dot(e2,X),c:dot(e2,Y)}
            def named(w):
                """name the three lengths the rest of the function is written in."""
                full=T.subst(w,names)
                for v,sp in names.items():
                    if P.prove_zero(full-sp,[],limit=20).status=='proved': return v
                return w
            def c_dot(eng,st,args): return named(dot(vec(eng,st,args[0],3),vec(eng,st,args[1],3)))
            def c_nrm(eng,st,args): return named(norm([T.R(eng.num(q)) for q in args[:3]]))
            R=Run(ctx,own={'dot_3d':c_dot,'norm_3d':c_nrm}); ps=[R.arr('v%d'%i,3) for i in range(3)]; R.assume(T.lt(T.ZERO,dot(e1,e1)),T.lt(T.ZERO,dot(cross(e1,e2),cross(e1,e2)))); ctx.vacuity(f,R.st.pc); R.assume(T.lt(T.ZERO,a),T.lt(T.ZERO,c))
            y=T.var('y'); al,be=b/c,(b-a)/c; q=T.sqrt(1+sq(be)); ash=lambda u: T.fun('asinh',u)
            Hy=lambda y: y*ash(a/y+be)+a/q*ash(((1+sq(be))*y+a*be)/a)-y*ash(al)
            integrand=ash((a+y/c*(b-a))/y)-ash(y/c*b/y); P1=a/(y*T.sqrt(1+sq(a/y+be))); P2=q/T.sqrt(1+sq(((1+sq(be))*y+a*be)/a))
            ctx.zero('lemma: antiderivative of the potential integrand for a target at a vertex',T.diff(Hy(y),y)-integrand-(P2-P1),[T.lt(T.ZERO,a),T.lt(T.ZERO,c),T.lt(T.ZERO,y)],env=tri_env)
            ctx.zero('lemma: the two remaining positive terms of the derivative cancel (equal squares)',sq(P1)-sq(P2),[T.lt(T.ZERO,a),T.lt(T.ZERO,c),T.lt(T.ZERO,y)])
            want=Hy(c)-a/q*ash(be)
            ctx.trust('y*asinh(a/y+beta) -> 0 for y -> 0')
            for p in R.run(f,*ps):
                ctx.defs=[T.eq(v,sp) for v,sp in names.items()]
                ctx.zero(f+': integral of 1/distance over the triangle for the target at the first vertex',p.ret-want,[T.lt(T.ZERO,a),T.lt(T.ZERO,c)])
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='self_potential_triangle'
    if _once(ctx,f):
        def go():
            def c(eng,st,args): return T.fun('free_selfpot',*[q for p in args for q in vec(eng,st,p,3)])
            R=Run(ctx,own={'self_potential_triangle_v0':c}); ps=[R.arr('v%d'%i,3) for i in range(3)]+[R.arr('t',3)]; vs=(v0,v1,v2)
            sp=T.add(*[T.fun('free_selfpot',*t,*vs[i],*vs[(i+1)%3]) for i in range(3)])
            for p in R.run(f,*ps): ctx.zero(f+': the sum over the three triangles (target, edge) that tile the triangle',p.ret-sp,p.pc)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)

# ------------------------------------------------------------------ orientation of neighbouring triangles (C18)
def v_orientation(ctx,cases=None):
    f='triangle_orientation_is_equal'
    if not _once(ctx,f): return
    import itertools
    def setup(shared,perm):
        """t1=(P0,P1,P2); t2 holds the two shared vertices and P3 in the order perm."""
        R=Run(ctx,['normal_3d']); M=T.var('M','I'); npn=T.var('Npoints','I')
        tr=R.arr('tris',T.mul(T.I(3),M),('arr',('int',),3),'I'); pt=R.arr('pts',T.mul(T.I(3),npn),('arr',D,3))
        i1,i2=T.var('i1','I'),T.var('i2','I'); ix=IV('a b c d')
        R.assume(T.le(T.IZERO,i1),T.lt(i1,M),T.le(T.IZERO,i2),T.lt(i2,M))
        for k in range(4):
            R.assume(T.le(T.IZERO,ix[k]),T.lt(ix[k],npn))
            for l in range(k): R.assume(T.bnot(T.eq(ix[k],ix[l])))
        t2=[ix[q] for q in perm]
        return R,tr,pt,i1,i2,ix,t2
    def go():
        n=0
        for shared in((0,1),(1,2),(2,0)):
            for perm in itertools.permutations((*shared,3)):
                R,tr,pt,i1,i2,ix,t2=setup(shared,perm)
                # the two rows of the triangle array
                for k in range(3):
                    R.st.log[tr.obj].append(W(T.add(T.mul(T.I(3),i1),T.I(k)),ix[k]))
                R.assume(T.bnot(T.eq(i1,i2)))
                for k in range(3): R.st.log[tr.obj].append(W(T.add(T.mul(T.I(3),i2),T.I(k)),t2[k]))
                pos=lambda q: [T.sel('pts',T.add(T.mul(T.I(3),ix[q]),T.I(c))) for c in range(3)]
                Pv=[pos(q) for q in range(4)]
                dirs=lambda p,q: p  # readability only
                # t1 runs along the shared edge in the direction shared[0]->shared[1]; t2 agrees iff it runs the other way
                k0=perm.index(shared[0]); want=0 if perm[(k0+1)%3]==shared[1] else 1
                yield R,tr,pt,i1,i2,Pv,shared,perm,want
    def run():
        tot=0
        for R,tr,pt,i1,i2,Pv,shared,perm,want in go():
            tag=f+' (shared edge %d%d, second triangle %s)'%(*shared,''.join(map(str,perm)))
            third=({0,1,2}-set(shared)).pop()
            nrm2=lambda v: dot(v,v)
            sub=lambda p,q: vsub(Pv[p],Pv[q])
            ca=cross(sub(1,0),sub(2,0)); cb=cross(sub(perm[1],perm[0]),sub(perm[2],perm[0])); R.assume(T.lt(T.ZERO,nrm2(ca)),T.lt(T.ZERO,nrm2(cb)))
            # unit edge vectors: dot product 1 exactly for the shared edge, below 1-1e-14 otherwise
            units=set()
            def c_unit(eng,st,args):
                w=vec(eng,st,args[0],3); L=norm(w); u=[x/L for x in w]; units.add(tuple(u)); store(eng,st,args[0],u)
            def c_dot(eng,st,args):
                u,v=vec(eng,st,args[0],3),vec(eng,st,args[1],3)
                if tuple(u) in units and tuple(v) in units:
                    if u==v: return T.ONE
                    w=T.fresh('cosine'); st.pc.append(T.lt(w,T.R(1-Fr(2,10**14)))); st.pc.append(T.le(T.R(-1),w)); return w
                return dot(u,v)
            R.eng.contracts['dot_3d']=c_dot; R.eng.contracts['normalize_3d']=c_unit
            for p in R.run(f,i1,i2,tr,pt):
                if not P.feasible(p.pc): continue
                r=p.ret; tot+=1
                atoms=[u for u in T.walk([r]) if u.op in('lt','le') and u.args[0].sort=='R']+[u for q in p.pc for u in T.walk([q]) if u.op in('lt','le') and u.args[0].sort=='R' and any(x.op=='add' for x in u.args)]
                m={}; A,B_=norm(ca),norm(cb); e=sub(shared[1],shared[0]); E_=norm(e)
                for u in dict.fromkeys(atoms):
                    if T.isc(u.args[0]) or T.isc(u.args[1]):
                        x=u.args[1] if T.isc(u.args[0]) else u.args[0]
                        env=P.Env(7,dict(a=0,b=1,c=2,d=3,i1=0,i2=1)); xv=P.evalf(x,env)
                        for K in(A,B_):
                            q=K/(3*E_); qv=P.evalf(q,env); sg=1 if xv>0 else -1
                            if abs(xv-sg*qv)<1e-9 and P.prove_zero(x-sg*q,[],limit=30).status=='proved':
                                m[u]=T.TRUE if ((sg>0)==(x is u.args[1])) else T.FALSE
                rr=T.subst(r,m) if isinstance(r,T.T) else r
                if isinstance(rr,T.T) and rr.sort=='B': rr=T.ite(rr,T.IONE,T.IZERO)
                if T.isc(rr): ctx.check(tag+': equal exactly when the shared edge is traversed in opposite directions',T.cv(rr)==want,'returns %s, expected %d'%(rr,want),method='nf+cases')
                else: ctx.rec(tag+': equal exactly when the shared edge is traversed in opposite directions','unknown','nf','undecided sign in '+T.show(rr,6))
            ctx.vcs(tag,R.eng)
        # the same triangle twice, one common vertex, no common vertex
        cases=[('the same triangle',(0,1,2),True,(0,1))]+[('one common vertex %d%d'%(u,v),tuple(u if k==v else 3+k for k in range(3)),False,(-1,)) for u in range(3) for v in range(3)]+[('no common vertex',(3,4,5),False,(-1,))]
        for nm,perm,same,want in cases:
            tag='%s (%s)'%(f,nm); R=Run(ctx,['normal_3d']); M=T.var('M','I'); npn=T.var('Npoints','I')
            tr=R.arr('tris',T.mul(T.I(3),M),('arr',('int',),3),'I'); pt=R.arr('pts',T.mul(T.I(3),npn),('arr',D,3)); i1,i2=T.var('i1','I'),T.var('i2','I'); ix=IV('a b c d e f')
            R.assume(T.le(T.IZERO,i1),T.lt(i1,M),T.le(T.IZERO,i2),T.lt(i2,M),*[T.band(T.le(T.IZERO,q),T.lt(q,npn)) for q in ix],*[T.bnot(T.eq(ix[k],ix[l])) for k in range(6) for l in range(k)])
            pos=[[T.sel('pts',T.add(T.mul(T.I(3),q),T.I(c))) for c in range(3)] for q in ix]; ds=lambda p,q: vsub(pos[p],pos[q])
            for t in((0,1,2),perm):
                ca=cross(ds(t[1],t[0]),ds(t[2],t[0])); R.assume(T.lt(T.ZERO,dot(ca,ca)))
            for k in range(3): R.st.log[tr.obj].append(W(T.add(T.mul(T.I(3),i1),T.I(k)),ix[k]))
            if not same:
                R.assume(T.bnot(T.eq(i1,i2)))
                for k in range(3): R.st.log[tr.obj].append(W(T.add(T.mul(T.I(3),i2),T.I(k)),ix[perm[k]]))
            un=set()
            def c_unit(eng,st,args):
                w=vec(eng,st,args[0],3); L=norm(w); u=[x/L for x in w]; un.add(tuple(u)); store(eng,st,args[0],u)
            def c_dot(eng,st,args):
                u,v=vec(eng,st,args[0],3),vec(eng,st,args[1],3)
                if tuple(u) in un and tuple(v) in un:
                    if u==v: return T.ONE
                    w=T.fresh('cosine'); st.pc.append(T.lt(w,T.R(1-Fr(2,10**14)))); st.pc.append(T.le(T.R(-1),w)); return w
                return dot(u,v)
            R.eng.contracts['dot_3d']=c_dot; R.eng.contracts['normalize_3d']=c_unit
            for p in R.run(f,i1,i1 if same else i2,tr,pt):
                if not P.feasible(p.pc): continue
                r=p.ret
                if isinstance(r,T.T) and r.sort=='B': r=T.ite(r,T.IONE,T.IZERO)
                lv=[]
                def leaves(u):
                    if u.op=='ite': leaves(u.args[1]); leaves(u.args[2])
                    else: lv.append(u)
                leaves(r)
                if all(T.isc(u) and T.cv(u) in want for u in lv): ctx.check(tag+': returns %s'%' or '.join(map(str,want)),True,method='paths')
                else: ctx.true(tag+': returns %s'%' or '.join(map(str,want)),T.bor(*[T.eq(r,T.I(x)) for x in want]),p.pc)
            ctx.vcs(tag,R.eng)
        ctx.check(f+': every arrangement of a shared edge was decided',tot>=18)
        ctx.trust('triangle_orientation_is_equal: edges from the common vertex that are not shared differ in direction (cosine below 1 - 1e-14)')
    ctx.attempt(f,run)

def v_small3d(ctx):
    """dot, cross product, norm and normalisation helpers."""
    a=[T.sel('a',T.I(i)) for i in range(3)]; b=[T.sel('b',T.I(i)) for i in range(3)]
    def one(f,args,check):
        if not _once(ctx,f) or f not in ctx.unit().funcs: return
        def go():
            R=Run(ctx); A,B_=R.arr('a',3),R.arr('b',3); o=R.out('o',3)
            if f=='normalize_3d': R.assume(T.lt(T.ZERO,dot(a,a)))
            for p in R.run(f,*args(R,A,B_,o)): check(R,p,o,A)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    one('dot_3d',lambda R,A,B_,o:(A,B_),lambda R,p,o,A: ctx.zero('dot_3d: scalar product',p.ret-dot(a,b),p.pc))
    one('cross_product_3d',lambda R,A,B_,o:(A,B_,o),lambda R,p,o,A: [ctx.zero('cross_product_3d: component %d'%i,getmem(p,o,i)-w,p.pc) for i,w in enumerate(cross(a,b))])
    one('norm_3d',lambda R,A,B_,o:tuple(V('x y z')),lambda R,p,o,A: ctx.zero('norm_3d: Euclidean norm',p.ret-norm(V('x y z')),p.pc))
    one('normalize_3d',lambda R,A,B_,o:(A,),lambda R,p,o,A: [ctx.zero('normalize_3d: component %d'%i,R.eng.read(p.st,A.obj,T.I(i),D)-a[i]/norm(a),p.pc) for i in range(3)])
