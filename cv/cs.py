"""Sidecar contracts of the C functions and helpers to check bodies against them.

A kernel contract is a pure specification term; callers are executed against the
specification of the callee, never its body, and every contract used is itself
discharged against the real body (obligations '<function>: ...')."""
from fractions import Fraction as Fr
from . import term as T, prove as P
from .cexec import *

D=('double',); INT=('int',)
NQ2,NQ3=16,12
MINAX=Fr('1e-10')
def V(*names): return [T.var(n) for n in ' '.join(names).split()]
def IV(*names): return [T.var(n,'I') for n in ' '.join(names).split()]
def sq(x): return T.power(x,2)

# ------------------------------------------------------------------ specifications
def K1(p): return T.fun('ellipkm1',T.R(p))   # complete elliptic integral K, complementary parameter
def E1(p): return T.fun('ellipem1',T.R(p))
def s_point(x0,y0,z0,x,y,z): return 1/(4*T.PI*T.sqrt(sq(x-x0)+sq(y-y0)+sq(z-z0)))
_cache={}
def memo(f):
    def g(*a):
        k=(f.__name__,)+a
        if k not in _cache: _cache[k]=f(*a)
        return _cache[k]
    g.__name__=f.__name__
    return g
def grad(f,i):
    """derivative of spec f with respect to its i-th argument, as a spec."""
    vs=[T.fresh('g') for _ in range(f.arity)]
    cell=[]
    def g(*a):
        if not cell: cell.append(T.diff(f(*vs),vs[i]))
        return T.subst(cell[0],dict(zip(vs,[T.R(x) for x in a])))
    g.arity=f.arity
    return g
s_point.arity=6
s_dpoint=[grad(s_point,i) for i in range(3)]
def s_ring(r0,z0,r,z):
    S=sq(z-z0)+sq(r+r0)
    return r*K1((sq(z-z0)+sq(r-r0))/S)/(T.PI*T.sqrt(S))
s_ring.arity=4
s_dr=grad(s_ring,0); s_dz=grad(s_ring,1)
def s_dr_axis(r0,z0,r,z): return T.ite(T.lt(r0,T.R(MINAX)),T.ZERO,s_dr(r0,z0,r,z))
def s_axis(z0,r,z): return r/(2*T.sqrt(sq(z0-z)+sq(r)))
def s_caxis(z0,r,z): return -(z0-z)/(2*T.sqrt(sq(z0-z)+sq(r)))
s_axis.arity=s_caxis.arity=3
def derivs(f,n):
    out=[f]
    for _ in range(n): out.append(grad(out[-1],0))
    return out
S_AX=derivs(s_axis,8); S_CAX=derivs(s_caxis,8)
def s_cring(r0,z0,r,z):
    """(Hr,Hz) of a unit current ring of radius r at z, from the Biot-Savart law."""
    zz=z0-z; A=sq(zz)+sq(r+r0); B=sq(zz)+sq(r0-r); p=B/A
    hr=T.ite(T.lt(r0,T.R(MINAX)),T.ZERO,zz/(2*T.PI*r0*T.sqrt(A))*((sq(zz)+sq(r0)+sq(r))/B*E1(p)-K1(p)))
    hz=1/(2*T.PI*T.sqrt(A))*((sq(r)-sq(zz)-sq(r0))/B*E1(p)+K1(p))
    small=T.lt(r,T.R(MINAX))
    return T.ite(small,T.ZERO,hr),T.ite(small,T.ZERO,hz)
def s_pos(al,v1,v2,v3,v4):
    """cubic through v1..v4 at -1,-1/3,1/3,1 (Lagrange form)."""
    nodes=[Fr(-1),Fr(-1,3),Fr(1,3),Fr(1)]; out=T.ZERO
    for i,v in enumerate((v1,v2,v3,v4)):
        t=T.R(v)
        for j,n in enumerate(nodes):
            if j!=i: t=t*(al-T.R(n))*T.R(1/(nodes[i]-n))
        out=out+t
    return out
def s_dpos(al,v1,v2,v3,v4):
    a=T.fresh('al'); return T.subst(T.diff(s_pos(a,v1,v2,v3,v4),a),{a:T.R(al)})
def s_jac(al,px,py):
    return T.sqrt(sq(s_dpos(al,*px))+sq(s_dpos(al,*py)))
def s_factor(K): return 2*(K-1)/(K+1)

# ------------------------------------------------------------------ call-site contracts
def pure(spec,n):
    def c(eng,st,args): return spec(*[T.R(eng.num(a)) for a in args[:n]])
    return c
def outvec(spec,n,out,cnt):
    """spec(args[:n]) -> tuple written to pointer args[out]."""
    def c(eng,st,args):
        vals=spec(*[T.R(eng.num(a)) for a in args[:n]])
        p=args[out]
        for i,v in enumerate(vals): eng.write(st,p.obj,T.add(p.off,T.I(i)),v,'contract')
        return None
    return c
def vec(eng,st,p,n,stride=1): return [eng.read(st,p.obj,T.add(p.off,T.I(i*stride)),D) for i in range(n)]
def store(eng,st,p,vals):
    for i,v in enumerate(vals): eng.write(st,p.obj,T.add(p.off,T.I(i)),v,'contract')
def c_posjac(eng,st,args):
    al=T.R(eng.num(args[0])); vs=[vec(eng,st,p,3) for p in args[1:5]]
    px=[v[0] for v in vs]; py=[v[2] for v in vs]
    store(eng,st,args[5],[s_pos(al,*px),s_pos(al,*py)]); store(eng,st,args[6],[s_jac(al,px,py)])
def s_honormal(al,px,py):
    dx,dy=s_dpos(al,*px),s_dpos(al,*py); L=T.sqrt(sq(dx)+sq(dy)); return [dy/L,-dx/L]
def c_honormal(eng,st,args):
    al=T.R(eng.num(args[0])); vs=[vec(eng,st,p,3) for p in args[1:5]]
    store(eng,st,args[5],s_honormal(al,[v[0] for v in vs],[v[2] for v in vs]))
def cross(a,b): return [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
def dot(a,b): return T.add(*[x*y for x,y in zip(a,b)])
def vsub(a,b): return [x-y for x,y in zip(a,b)]
def norm(a): return T.sqrt(dot(a,a))
def s_area(v0,v1,v2): return norm(cross(vsub(v1,v0),vsub(v2,v0)))*T.R(Fr(1,2))
def s_normal3(t):
    c=cross(vsub(t[1],t[0]),vsub(t[2],t[0])); L=norm(c); return [x/L for x in c]
def c_area(eng,st,args): return s_area(*[vec(eng,st,p,3) for p in args[:3]])
def tri(eng,st,p): return [vec(eng,st,Ptr(p.obj,T.add(p.off,T.I(3*i)),D),3) for i in range(3)]
def c_normal3(eng,st,args): store(eng,st,args[1],s_normal3(tri(eng,st,args[0])))
def c_posjac3(eng,st,args):
    a,b=T.R(eng.num(args[0])),T.R(eng.num(args[1])); t=tri(eng,st,args[2])
    store(eng,st,args[3],[t[0][i]+a*(t[1][i]-t[0][i])+b*(t[2][i]-t[0][i]) for i in range(3)]); store(eng,st,args[4],[2*s_area(*t)])
KERNELS={
 'potential_3d_point':pure(s_point,6),
 'dx1_potential_3d_point':pure(s_dpoint[0],6),'dy1_potential_3d_point':pure(s_dpoint[1],6),'dz1_potential_3d_point':pure(s_dpoint[2],6),
 'potential_radial_ring':pure(s_ring,4),'dr1_potential_radial_ring':pure(s_dr_axis,4),'dz1_potential_radial_ring':pure(s_dz,4),
 'current_potential_axial_radial_ring':pure(s_caxis,3),
 'current_field_radial_ring':outvec(s_cring,4,4,2),
 'axial_derivatives_radial_ring':outvec(lambda *a:[f(*a) for f in S_AX],3,3,9),
 'current_axial_derivatives_radial_ring':outvec(lambda *a:[f(*a) for f in S_CAX],3,3,9),
 'position_and_jacobian_radial':c_posjac,'higher_order_normal_radial':c_honormal,
 'triangle_area':c_area,'normal_3d':c_normal3,'position_and_jacobian_3d':c_posjac3,
 'flux_density_to_charge_factor':pure(s_factor,1),
}
def _ell(spec,name,comp):
    """contract of the elliptic integrals: requires a parameter below one (C25 proves the bodies on that domain)"""
    def go(e,st,a):
        p=T.R(a[0]) if comp else 1-T.R(a[0])
        e.vc(st,'argument-domain',T.band(T.lt(T.ZERO,p),T.le(p,T.R(1))) if comp else T.lt(T.ZERO,p),name+' '+T.show(p,3))
        return spec(p)
    return go
ELL={'ellipkm1':_ell(K1,'ellipkm1',True),'ellipem1':_ell(E1,'ellipem1',True),'ellipk':_ell(K1,'ellipk',False),'ellipe':_ell(E1,'ellipe',False)}
FILES={}

# ------------------------------------------------------------------ running bodies
class Run:
    def __init__(s,ctx,contracts=(),own=None,**kw):
        s.ctx=ctx; s.u=ctx.unit()
        c=dict(ELL)
        for n in contracts: c[n]=KERNELS[n]
        if own: c.update(own)
        s.eng=Engine(s.u,c,**kw); s.st=s.eng.start()
    def arr(s,name,size,ty=D,sort='R'):
        o=s.eng.sym_array(s.st,name,size if isinstance(size,T.T) else T.I(size),sort); return Ptr(o,T.IZERO,ty)
    def out(s,name,n,ty=D):
        o=s.eng.new_obj(s.st,name,T.I(n)); return Ptr(o,T.IZERO,ty)
    def local(s,name,vals,ty=D):
        o=s.eng.new_obj(s.st,name,T.I(len(vals)))
        for i,v in enumerate(vals): s.st.mem[o][i]=T.R(v) if ty==D and isinstance(v,(int,float,Fr)) else v
        return Ptr(o,T.IZERO,ty)
    def assume(s,*c): s.st.pc+=[x for x in c]
    def run(s,f,*args):
        s.ctx.function(f,'traceon/backend (C, clang AST)')
        ps=s.eng.run(f,[T.R(a) if isinstance(a,(float,Fr)) else (T.I(a) if isinstance(a,int) else a) for a in args],s.st)
        return ps
def getmem(p,ptr,i): return p.st.mem[ptr.obj].get(i)
def const_array(ctx,name,n):
    """values of a constant table in the translation unit, as exact rationals of the literals."""
    e=Engine(ctx.unit()); st=e.start()
    for k,(oid,ty) in st.env.items():
        if e.objs[oid].name==name: return [st.mem[oid][i] for i in range(n)]
    raise Unsupported('constant table '+name)

# ------------------------------------------------------------------ bodies against kernel contracts
def _once(ctx,name):
    done=ctx.__dict__.setdefault('_done',set())
    if name in done: return False
    done.add(name); return True
def v_point(ctx):
    a=V('x0 y0 z0 x y z'); pos=[T.lt(T.ZERO,sq(a[3]-a[0])+sq(a[4]-a[1])+sq(a[5]-a[2]))]
    for f,s in (('potential_3d_point',s_point),('dx1_potential_3d_point',s_dpoint[0]),('dy1_potential_3d_point',s_dpoint[1]),('dz1_potential_3d_point',s_dpoint[2])):
        if not _once(ctx,f): continue
        if f not in ctx.unit().funcs: continue
        def go():
            R=Run(ctx); R.assume(*pos)
            for p in R.run(f,*a,NULL): ctx.zero(f+': returns '+('1/(4 pi |x-x0|)' if s is s_point else 'the partial derivative of 1/(4 pi |x-x0|) in the target coordinate'),T.sub(p.ret,s(*a)),p.pc)
        ctx.attempt(f,go)
def v_ring(ctx):
    r0,z0,r,z=V('r0 z0 r z'); base=[T.lt(T.ZERO,r),T.lt(T.ZERO,sq(z-z0)+sq(r-r0))]
    for f,s,pre in (('potential_radial_ring',s_ring,[T.le(T.ZERO,r0)]),('dr1_potential_radial_ring',s_dr_axis,[T.le(T.ZERO,r0)]),('dz1_potential_radial_ring',s_dz,[T.le(T.ZERO,r0)])):
        if not _once(ctx,f) or f not in ctx.unit().funcs: continue
        def go():
            R=Run(ctx); R.assume(*base,*pre); ctx.vacuity(f,base+pre)
            for p in R.run(f,r0,z0,r,z,NULL): ctx.zero(f+': returns '+('the ring potential' if s is s_ring else 'the exact partial derivative of the ring potential'),T.sub(p.ret,s(r0,z0,r,z)),p.pc,env=ring_env)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
def ring_env(seed):
    import random; rr=random.Random(seed)
    m=P.mpmath.mpf
    return P.Env(seed,dict(r0=m(rr.uniform(0.1,3)),z0=m(rr.uniform(-2,2)),r=m(rr.uniform(0.1,3)),z=m(rr.uniform(-2,2)),x=m(rr.uniform(.1,3)),y=m(rr.uniform(-2,2))))
def v_axial(ctx):
    z0,r,z=V('z0 r z')
    for f,S in (('axial_derivatives_radial_ring',S_AX),('current_axial_derivatives_radial_ring',S_CAX)):
        if not _once(ctx,f) or f not in ctx.unit().funcs: continue
        def go():
            R=Run(ctx); R.assume(T.lt(T.ZERO,r)); o=R.out('derivs',9)
            for p in R.run(f,z0,r,z,o):
                d=[getmem(p,o,i) for i in range(9)]
                ctx.zero(f+': derivs[0] is the axial potential',T.sub(d[0],S[0](z0,r,z)),p.pc)
                for n in range(8):
                    ctx.zero(f+': derivs[%d] = d/dz derivs[%d]'%(n+1,n),T.sub(d[n+1],T.diff(d[n],z0)),p.pc)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='current_potential_axial_radial_ring'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx); R.assume(T.lt(T.ZERO,r))
            for p in R.run(f,z0,r,z): ctx.zero(f+': axial scalar potential of a unit current ring',T.sub(p.ret,s_caxis(z0,r,z)),p.pc)
        ctx.attempt(f,go)
def v_cring(ctx):
    f='current_field_radial_ring'
    if not _once(ctx,f) or f not in ctx.unit().funcs: return
    r0,z0,r,z=V('r0 z0 r z')
    def go():
        R=Run(ctx); pre=[T.lt(T.ZERO,r),T.le(T.ZERO,r0),T.lt(T.ZERO,sq(z-z0)+sq(r-r0))]; R.assume(*pre); o=R.out('result',2)
        hr,hz=s_cring(r0,z0,r,z)
        for p in R.run(f,r0,z0,r,z,o):
            ctx.zero(f+': Hr is the Biot-Savart radial field',T.sub(getmem(p,o,0),hr),p.pc,env=ring_env)
            ctx.zero(f+': Hz is the Biot-Savart axial field',T.sub(getmem(p,o,1),hz),p.pc,env=ring_env)
        ctx.vcs(f,R.eng)
        # the specification itself is curl free, divergence free and has the right axial value
        pc=pre+[T.le(T.R(MINAX),r0),T.le(T.R(MINAX),r)]
        hr2=P._assume_cond(P._assume_cond(hr,T.lt(r,T.R(MINAX)),False),T.lt(r0,T.R(MINAX)),False); hz2=P._assume_cond(hz,T.lt(r,T.R(MINAX)),False)
        ctx.zero('lemma: the ring field is curl free',T.sub(T.diff(hz2,r0),T.diff(hr2,z0)),pc,env=ring_env)
        ctx.zero('lemma: the ring field is divergence free',T.add(T.diff(hr2,r0),hr2/r0,T.diff(hz2,z0)),pc,env=ring_env)
        h0=T.subst(hz2,{r0:T.ZERO}); h0=T.subst(h0,{K1(T.ONE):T.PI/2,E1(T.ONE):T.PI/2})
        h0=fold_axis(h0)
        ctx.zero('lemma: on the axis the ring field is minus the derivative of the axial potential',T.add(h0,T.diff(s_caxis(z0,r,z),z0)),[T.lt(T.ZERO,r)])
    ctx.attempt(f,go)
def fold_axis(t):
    """K and E at complementary parameter 1 are pi/2."""
    m={}
    for u in T.walk([t]):
        if u.op=='f' and u.args[0] in('ellipkm1','ellipem1'): m[u]=T.PI/2
    return T.subst(t,m)
def v_posjac(ctx):
    al=T.var('alpha'); 
    f='position_and_jacobian_radial'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx); vs=[R.arr('v%d'%i,3) for i in range(1,5)]; po=R.out('pos',2); ja=R.out('jac',1)
            px=[T.sel('v%d'%i,T.I(0)) for i in range(1,5)]; py=[T.sel('v%d'%i,T.I(2)) for i in range(1,5)]
            for p in R.run(f,al,*vs,po,ja):
                ctx.zero(f+': x is the cubic through the four nodes',T.sub(getmem(p,po,0),s_pos(al,*px)),p.pc)
                ctx.zero(f+': z is the cubic through the four nodes',T.sub(getmem(p,po,1),s_pos(al,*py)),p.pc)
                j=getmem(p,ja,0)
                ctx.zero(f+': jacobian is |d position/d alpha|',T.sub(j,s_jac(al,px,py)),p.pc)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='higher_order_normal_radial'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx); vs=[R.arr('v%d'%i,3) for i in range(1,5)]; no=R.out('normal',2)
            px=[T.sel('v%d'%i,T.I(0)) for i in range(1,5)]; py=[T.sel('v%d'%i,T.I(2)) for i in range(1,5)]
            dx,dy=s_dpos(al,*px),s_dpos(al,*py)
            R.assume(T.lt(T.ZERO,sq(dx)+sq(dy)))
            n=s_honormal(al,px,py)
            for p in R.run(f,al,*vs,no):
                for i in range(2): ctx.zero(f+': normal[%d] is the unit normal (tangent turned clockwise)'%i,T.sub(getmem(p,no,i),n[i]),[])
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='normal_2d'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx); a,b=R.arr('p1',2),R.arr('p2',2); no=R.out('normal',2)
            tx=T.sel('p2',T.I(0))-T.sel('p1',T.I(0)); ty=T.sel('p2',T.I(1))-T.sel('p1',T.I(1)); L=T.sqrt(sq(tx)+sq(ty)); R.assume(T.lt(T.ZERO,sq(tx)+sq(ty)))
            for p in R.run(f,a,b,no):
                ctx.zero(f+': normal[0]',T.sub(getmem(p,no,0),ty/L),[]); ctx.zero(f+': normal[1]',T.sub(getmem(p,no,1),-tx/L),[])
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
def v_tri(ctx):
    tv=[[T.sel('t',T.I(3*i+j)) for j in range(3)] for i in range(3)]
    f='triangle_area'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx); t=R.arr('t',9); ps=[Ptr(t.obj,T.I(3*i),D) for i in range(3)]
            for p in R.run(f,*ps): ctx.zero(f+': half the norm of the cross product',T.sub(p.ret,s_area(*tv)),[])
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='normal_3d'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx); t=R.arr('t',9,('arr',D,3)); o=R.out('normal',3); n=s_normal3(tv); c=cross(vsub(tv[1],tv[0]),vsub(tv[2],tv[0])); R.assume(T.lt(T.ZERO,dot(c,c)))
            for p in R.run(f,t,o):
                for i in range(3): ctx.zero(f+': normal[%d] is the right-handed unit normal'%i,T.sub(getmem(p,o,i),n[i]),[])
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='position_and_jacobian_3d'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            R=Run(ctx,['triangle_area']); t=R.arr('t',9,('arr',D,3)); po=R.out('pos',3); ja=R.out('jac',1); a,b=V('alpha beta')
            for p in R.run(f,a,b,t,po,ja):
                for i in range(3): ctx.zero(f+': pos[%d] is the affine map of (alpha,beta)'%i,T.sub(getmem(p,po,i),tv[0][i]+a*(tv[1][i]-tv[0][i])+b*(tv[2][i]-tv[0][i])),[])
                ctx.zero(f+': jacobian is twice the area',T.sub(getmem(p,ja,0),2*s_area(*tv)),[])
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='flux_density_to_charge_factor'
    if _once(ctx,f) and f in ctx.unit().funcs:
        def go():
            K=T.var('K'); R=Run(ctx); R.assume(T.lt(T.ZERO,K+1))
            for p in R.run(f,K): ctx.zero(f+': 2(K-1)/(K+1)',T.sub(p.ret,s_factor(K)),p.pc)
        ctx.attempt(f,go)
