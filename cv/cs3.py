"""Contracts of quadrature buffers, areas, charges, matrices and Lorentz combination."""
from .cs import *
from .cs import _once
from .cs2 import NQ2,NQ3,AT,X
from . import term as T
from fractions import Fraction as Fr

LINE=['position_and_jacobian_radial','higher_order_normal_radial']
def nodes_radial(name,i,ns=4):
    """(px,py) of the four nodes in parameter order of row i of a (N,4,3) vertex array (line4 order 0,2,3,1)."""
    o=[0,2,3,1]
    return ([AT(name,(i,12),(T.I(3*k),1)) for k in o],[AT(name,(i,12),(T.I(3*k+2),1)) for k in o])
def ctable(ctx,name,n): return const_array(ctx,name,n)
def gp(ctx): return const_array(ctx,'GAUSS_QUAD_POINTS',NQ2),const_array(ctx,'GAUSS_QUAD_WEIGHTS',NQ2)
def qt(ctx): return [const_array(ctx,n,NQ3) for n in('QUAD_B1','QUAD_B2','QUAD_WEIGHTS')]
def q3(ctx,N=None):
    q=T.fresh('q','I'); return q
def rd(R,p,ptr,off,pc=()):
    s=p.st.copy(); s.pc+=list(pc); rec=R.eng.record; R.eng.record=False
    try: return R.eng.read(s,ptr.obj,off,D)
    finally: R.eng.record=rec

def v_tables(ctx):
    """the quadrature tables integrate polynomials exactly (tabulated decimals: to 1e-13)."""
    if not _once(ctx,'tables'): return
    def val(t): return T.cv(t)
    def go():
        P_,W_=gp(ctx); P_=[val(x) for x in P_]; W_=[val(x) for x in W_]
        for d in range(2*NQ2):
            e=sum(w*p**d for p,w in zip(P_,W_))-(Fr(2,d+1) if d%2==0 else 0)
            ctx.check('GAUSS_QUAD tables: integral of x^%d over [-1,1] is exact to 2e-14'%d,abs(e)<Fr(2,10**14),str(float(e)),method='exact-rational')
        b1,b2,w=[[val(x) for x in t] for t in qt(ctx)]
        import math
        for a in range(7):
            for b in range(7-a):
                e=sum(ww*x**a*y**b for x,y,ww in zip(b1,b2,w))-Fr(math.factorial(a)*math.factorial(b),math.factorial(a+b+2))
                ctx.check('QUAD tables: integral of b1^%d b2^%d over the unit triangle is exact to 2e-14'%(a,b),abs(e)<Fr(2,10**14),str(float(e)),method='exact-rational')
        for k in range(NQ3): ctx.check('QUAD tables: point %d inside the triangle, weight positive'%k,b1[k]>0 and b2[k]>0 and b1[k]+b2[k]<1 and w[k]>0,method='exact-rational')
        for k in range(NQ2): ctx.check('GAUSS_QUAD tables: point %d inside, weight positive'%k,-1<P_[k]<1 and W_[k]>0,method='exact-rational')
    ctx.attempt('quadrature tables',go)

def v_fill_jac_radial(ctx):
    f='fill_jacobian_buffer_radial'
    if not _once(ctx,f): return
    def go():
        R=Run(ctx,LINE); N=T.var('N','I'); R.assume(T.le(T.IZERO,N)); ctx.vacuity(f,R.st.pc)
        ja=R.arr('jac',T.mul(T.I(NQ2),N),('arr',D,NQ2)); po=R.arr('pos',T.mul(T.I(NQ2*2),N),('arr',('arr',D,2),NQ2)); ve=R.arr('verts',T.mul(T.I(12),N),('arr',('arr',D,3),4))
        q=T.fresh('q','I'); rng=[T.le(T.IZERO,q),T.lt(q,N)]; P_,W_=gp(ctx); px,py=nodes_radial('verts',q)
        for p in R.run(f,ja,po,ve,N):
            for k in range(NQ2):
                ctx.zero(f+': weight of row q, point %d is Gauss weight times speed'%k,T.sub(rd(R,p,ja,T.add(T.mul(T.I(NQ2),q),T.I(k)),rng),W_[k]*s_jac(P_[k],px,py)),p.pc+rng)
                for c,pp in((0,px),(1,py)): ctx.zero(f+': point of row q, point %d, coordinate %d lies on the element at the Gauss parameter'%(k,c),T.sub(rd(R,p,po,T.add(T.mul(T.I(2*NQ2),q),T.I(2*k+c)),rng),s_pos(P_[k],*pp)),p.pc+rng)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def tri_at(name,i): return [[AT(name,(i,9),(T.I(3*a+b),1)) for b in range(3)] for a in range(3)]
def v_fill_jac_3d(ctx):
    f='fill_jacobian_buffer_3d'
    if not _once(ctx,f): return
    def go():
        R=Run(ctx,['triangle_area','position_and_jacobian_3d']); N=T.var('N','I'); R.assume(T.le(T.IZERO,N)); ctx.vacuity(f,R.st.pc)
        ja=R.arr('jac',T.mul(T.I(NQ3),N),('arr',D,NQ3)); po=R.arr('pos',T.mul(T.I(NQ3*3),N),('arr',('arr',D,3),NQ3)); ve=R.arr('verts',T.mul(T.I(9),N),('arr',('arr',D,3),3))
        q=T.fresh('q','I'); rng=[T.le(T.IZERO,q),T.lt(q,N)]; b1,b2,w=qt(ctx); t=tri_at('verts',q)
        for p in R.run(f,ja,po,ve,N):
            for k in range(NQ3):
                ctx.zero(f+': weight of row q, point %d is twice the area times the table weight'%k,T.sub(rd(R,p,ja,T.add(T.mul(T.I(NQ3),q),T.I(k)),rng),2*w[k]*s_area(*t)),p.pc+rng)
                for c in range(3): ctx.zero(f+': point of row q, point %d, coordinate %d is the affine image of the table point'%(k,c),T.sub(rd(R,p,po,T.add(T.mul(T.I(3*NQ3),q),T.I(3*k+c)),rng),t[0][c]+b1[k]*(t[1][c]-t[0][c])+b2[k]*(t[2][c]-t[0][c])),p.pc+rng)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def v_areas(ctx):
    f='triangle_areas'
    if not _once(ctx,f): return
    def go():
        R=Run(ctx,['triangle_area']); N=T.var('N','I'); R.assume(T.le(T.IZERO,N))
        ve=R.arr('verts',T.mul(T.I(9),N),('arr',('arr',D,3),3)); o=R.arr('out',N); q=T.fresh('q','I'); rng=[T.le(T.IZERO,q),T.lt(q,N)]
        for p in R.run(f,ve,o,N): ctx.zero(f+': out[q] is the area of triangle q',T.sub(rd(R,p,o,q,rng),s_area(*tri_at('verts',q))),p.pc+rng)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def v_charge_radial(ctx):
    f='charge_radial'
    if not _once(ctx,f): return
    def go():
        R=Run(ctx,LINE); ve=R.arr('v',12); ch=T.var('charge'); P_,W_=gp(ctx); px,py=nodes_radial('v',T.IZERO)
        sp=T.add(*[2*T.PI*s_pos(P_[k],*px)*W_[k]*s_jac(P_[k],px,py)*ch for k in range(NQ2)])
        for p in R.run(f,ve,ch): ctx.zero(f+': sum of 2 pi r dl weight times the density',T.sub(p.ret,sp),p.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def mu0c(ctx):
    m=T.R(const_array(ctx,'MU_0',1)[0])
    if _once(ctx,'mu0'): ctx.check('MU_0 is the vacuum permeability to 1e-9',abs(T.cv(m)/Fr('1.25663706212e-06')-1)<Fr(1,10**9),str(float(T.cv(m))),method='exact-rational')
    return m
def v_lorentz(ctx):
    f='combine_elec_magnetic_field'
    if not _once(ctx,f): return
    def go():
        R=Run(ctx); v,e,m,c=[R.arr(n,3) for n in('v','e','m','c')]; o=R.out('res',3)
        S=lambda n,i: T.sel(n,T.I(i))
        mu0=mu0c(ctx); B=[mu0*(S('m',i)+S('c',i)) for i in range(3)]; V_=[S('v',i) for i in range(3)]; cr=cross(V_,B)
        for p in R.run(f,v,e,m,c,o):
            for i in range(3): ctx.zero(f+': result[%d] = E + v x mu0 (H_charges + H_currents)'%i,T.sub(getmem(p,o,i),S('e',i)+cr[i]),p.pc,rtol=1e-9)
        ctx.vcs(f,R.eng)
        # in-place use by the tracers: result may alias elec_field's neighbour `field`, never an input
    ctx.attempt(f,go)
def lorentz(mu0,v,e,m,c):
    B=[mu0*(m[i]+c[i]) for i in range(3)]; cr=cross(v,B)
    return [e[i]+cr[i] for i in range(3)]

# ---------------------------------------------------------------- 2D field dot normal, self terms
def s_fdn2(x0,y0,x,y,nx,ny,K): return -s_factor(K)*(nx*s_dr_axis(x0,y0,x,y)+ny*s_dz(x0,y0,x,y))
def c_fdn2(eng,st,args):
    a=[T.R(eng.num(x)) for x in args[:4]]; p=args[4]
    n=eng.read(st,p.obj,p.off,('ptr',D)); K=T.R(eng.read(st,p.obj,T.add(p.off,T.IONE),D)); nx,ny=vec(eng,st,n,2)
    return s_fdn2(*a,nx,ny,K)
def v_fdn2(ctx):
    f='field_dot_normal_radial'
    if not _once(ctx,f) or f not in ctx.unit().funcs: return
    def go():
        R=Run(ctx,['dr1_potential_radial_ring','dz1_potential_radial_ring','flux_density_to_charge_factor']); x0,y0,x,y,K=V('x0 y0 x y K')
        n=R.arr('n',2); a=R.out('args',2,('struct','?')); R.st.mem[a.obj][0]=n; R.st.mem[a.obj][1]=K
        R.assume(T.lt(T.ZERO,K+1))
        for p in R.run(f,x0,y0,x,y,a): ctx.zero(f+': 2(K-1)/(K+1) times minus the normal component of the potential gradient',T.sub(p.ret,s_fdn2(x0,y0,x,y,T.sel('n',T.IZERO),T.sel('n',T.IONE),K)),p.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def s_fdn3(x0,x,n): return T.add(*[-n[c]*s_dpoint[c](*x0,*x) for c in range(3)])
def c_fdn3(eng,st,args):
    a=[T.R(eng.num(x)) for x in args[:6]]; return s_fdn3(a[:3],a[3:],vec(eng,st,args[6],3))
def v_fdn3(ctx):
    f='field_dot_normal_3d'
    if not _once(ctx,f) or f not in ctx.unit().funcs: return
    def go():
        R=Run(ctx,['dx1_potential_3d_point','dy1_potential_3d_point','dz1_potential_3d_point']); a=V('x0 y0 z0 x y z'); n=R.arr('n',3)
        for p in R.run(f,*a,n): ctx.zero(f+': minus the normal component of the kernel gradient',T.sub(p.ret,s_fdn3(a[:3],a[3:],[T.sel('n',T.I(i)) for i in range(3)])),p.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def v_self_radial(ctx):
    """integrands used for the diagonal of the radial matrix."""
    al=T.var('alpha'); px,py=nodes_radial('v',T.IZERO)
    f='self_potential_radial'
    tx,ty=s_pos(T.ZERO,*px),s_pos(T.ZERO,*py); X_,Y_=s_pos(al,*px),s_pos(al,*py); J=s_jac(al,px,py)
    if _once(ctx,f):
        def go():
            R=Run(ctx,LINE+['potential_radial_ring']); v=R.arr('v',12,('arr',D,3))
            for p in R.run(f,al,v): ctx.zero(f+': speed times the ring potential at the element center',T.sub(p.ret,J*s_ring(tx,ty,X_,Y_)),p.pc)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='self_field_dot_normal_radial'
    if _once(ctx,f):
        def go():
            R=Run(ctx,LINE,own={'field_dot_normal_radial':c_fdn2}); v=R.arr('v',12,('arr',D,3)); K=T.var('K')
            a=R.out('args',2,('struct','self_field_dot_normal_radial_args')); R.st.mem[a.obj][0]=v; R.st.mem[a.obj][1]=K
            n=s_honormal(T.ZERO,px,py)
            for p in R.run(f,al,a): ctx.zero(f+': speed times the normal field at the element center',T.sub(p.ret,J*s_fdn2(tx,ty,X_,Y_,n[0],n[1],K)),p.pc)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)

# ---------------------------------------------------------------- system matrices
class Generic:
    """loop_handler: executes one arbitrary iteration of the outermost loop.  Sound for the whole loop when
    (checked here) iterations change no local state that survives and (obligation) write only their own row."""
    def __init__(s,extra): s.extra=extra; s.done=False; s.i=None
    def __call__(s,eng,st,n,kind,cond,inc,body):
        if s.done: return None
        s.done=True
        if kind!='for' or inc is None: raise Unsupported('outer loop form')
        x=st.copy(); eng.ev(x,inc); ch=[(o,k) for o in x.mem for k in x.mem[o] if x.mem[o][k] is not st.mem.get(o,{}).get(k)]
        if len(ch)!=1: raise Unsupported('outer loop variable')
        o,k=ch[0]; start=st.mem[o][k]
        if x.mem[o][k] is not T.add(start,T.IONE): raise Unsupported('outer loop step')
        i=T.fresh('i','I'); h=st.copy(); h.mem[o][k]=i; c=eng.cond(h,cond); hi=eng.upper(c,i)
        if hi is None: raise Unsupported('outer loop bound')
        s.i,s.lo,s.hi=i,start,hi
        h.pc+=[T.le(start,i),T.lt(i,hi)]+s.extra(i)
        pre={(a,b):v for a in h.mem for b,v in h.mem[a].items()}
        out=[]
        for y,oc,v in eng.stmt(h,body):
            if oc in('exit',): raise Unsupported('exit on a valid type')
            if oc not in('normal','continue'): raise Unsupported('early exit of the outer loop')
            for (a,b),v in pre.items():
                w=y.mem.get(a,{}).get(b)
                if w is not v and not(isinstance(v,Ptr) and v.same(w)) and not isinstance(w,type(UNDEF)): raise Unsupported('iteration changes a surviving local')
            out.append((y,'normal',None))
        return out
def frame_row(ctx,R,p,ptr,i,N,Nm,label):
    """every write of the iteration hits i*Nm+j with 0<=j<N."""
    for e in p.st.log[ptr.obj]:
        if not hasattr(e,'off'): raise Unsupported('unknown write')
        rng=[]
        for v,lo,hi in getattr(e,'vars',[]): rng+=[T.le(lo,v),T.lt(v,hi)]
        d=T.sub(e.off,T.mul(i,Nm))
        ctx.true(label+': rows other than i are left untouched',T.band(T.le(T.IZERO,d),T.lt(d,N)),list(p.pc)+rng)
def v_matrix_radial(ctx):
    f='fill_matrix_radial'
    if not _once(ctx,f): return
    for ty,name in((1,'fixed voltage'),(2,'voltage function'),(5,'magnetostatic potential'),(3,'dielectric'),(6,'magnetizable')):
        def go():
            R=Run(ctx,LINE+['potential_radial_ring'],own={'field_dot_normal_radial':c_fdn2}); N,Nm,a,b=IV('N Nm a b')
            R.assume(T.lt(T.IZERO,N),T.le(N,Nm),T.le(T.IZERO,a),T.lt(a,N),T.le(T.IZERO,b),T.lt(b,N))
            m=R.arr('matrix',T.mul(Nm,Nm)); ve=R.arr('verts',T.mul(T.I(12),N),('arr',('arr',D,3),4)); et=R.arr('types',N,INT,'I'); ev=R.arr('values',N)
            ja=R.arr('jac',T.mul(T.I(NQ2),N),('arr',D,NQ2)); po=R.arr('pos',T.mul(T.I(NQ2*2),N),('arr',('arr',D,2),NQ2))
            g=R.eng.loop_handler=Generic(lambda i:[T.eq(T.sel('types',i,'I'),T.I(ty))])
            if ty==1: ctx.vacuity(f,R.st.pc)
            for p in R.run(f,m,ve,et,ev,ja,po,N,Nm,a,b):
                i=g.i; R.ctx.true(f+' (%s): the outer loop covers exactly rows a..b'%name,T.band(T.eq(g.lo,a),T.eq(g.hi,T.add(b,T.IONE))),R.st.pc)
                q=T.fresh('q','I'); rng=[T.le(T.IZERO,q),T.lt(q,N)]; off=T.add(T.mul(i,Nm),q)
                v=T.subst(rd(R,p,m,off,rng),{T.sel('matrix',off):T.ZERO})
                px,py=nodes_radial('verts',i); tx,ty_=s_pos(T.ZERO,*px),s_pos(T.ZERO,*py); nrm=s_honormal(T.ZERO,px,py); K=T.sel('values',i)
                def term(k):
                    x,y=[AT('pos',(q,NQ2*2),(T.I(k),2),(T.I(c),1)) for c in(0,1)]
                    return AT('jac',(q,NQ2),(T.I(k),1))*(s_ring(tx,ty_,x,y) if ty in(1,2,5) else s_fdn2(tx,ty_,x,y,nrm[0],nrm[1],K))
                ctx.zero(f+' (%s): entry (i,j) is the weighted sum of the response at the center of element i'%name,T.sub(v,T.add(*[term(k) for k in range(NQ2)])),p.pc+rng)
                frame_row(ctx,R,p,m,i,N,Nm,f+' (%s)'%name)
            if ty in(1,3):
                R.eng.vcs=[x for x in R.eng.vcs if not x[3].startswith('matrix[')]; ctx.vcs(f,R.eng)
        ctx.attempt(f+' (%s)'%name,go)
TRI=('potential_triangle','flux_triangle','self_potential_triangle')
def c_tri(name):
    def c(eng,st,args):
        v=[]
        for p in args: v+=vec(eng,st,p,3)
        return T.fun(name,*v)
    return c
def n_tri(vals):
    """numeric value of the integral of 1/|x-p| over a triangle, and its gradient in p."""
    from mpmath import mpf,sqrt,log,fabs,atan2,asinh
    v=[vals[3*i:3*i+3] for i in range(4)]; p=v[3]
    sub=lambda a,b:[x-y for x,y in zip(a,b)]; dt=lambda a,b:sum(x*y for x,y in zip(a,b)); cr=lambda a,b:[a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
    nn=lambda a:sqrt(dt(a,a))
    n=cr(sub(v[1],v[0]),sub(v[2],v[0])); L=nn(n); n=[x/L for x in n]
    h=dt(sub(p,v[0]),n); pot=mpf(0); grad=[mpf(0)]*3; om=0
    for i in range(3):
        a,b=v[i],v[(i+1)%3]; e=sub(b,a); le=nn(e); t=[x/le for x in e]; u=cr(t,n)      # u: outward in-plane normal
        d=dt(sub(a,p),u); lm,lp=dt(sub(a,p),t),dt(sub(b,p),t); r02=d*d+h*h
        if r02<mpf(10)**-60: continue
        g=asinh(lp/sqrt(r02))-asinh(lm/sqrt(r02))
        pot+=d*g; grad=[x-y*g for x,y in zip(grad,u)]
        om+=0
    R_=[sub(x,p) for x in v[:3]]; r=[nn(x) for x in R_]
    num=dt(R_[0],cr(R_[1],R_[2])); den=r[0]*r[1]*r[2]+dt(R_[0],R_[1])*r[2]+dt(R_[0],R_[2])*r[1]+dt(R_[1],R_[2])*r[0]
    om=2*atan2(num,den)        # signed solid angle
    # pot = sum d*g - |h|*|omega| ; gradient = -sum u*g + ... - n*omega_sign
    pot-=fabs(h)*fabs(om); s=-1 if h>0 else 1
    grad=[x-y*fabs(om)*(-s) for x,y in zip(grad,n)]
    return pot,grad
NTRI={'potential_triangle':lambda *a:n_tri(a)[0],'self_potential_triangle':lambda *a:n_tri(a)[0],'flux_triangle':lambda *a:-sum(x*y for x,y in zip(n_tri(a[:12])[1],a[12:15]))}
def v_matrix_3d(ctx):
    f='fill_matrix_3d'
    if not _once(ctx,f): return
    for ty,name in((1,'fixed voltage'),(2,'voltage function'),(5,'magnetostatic potential'),(3,'dielectric'),(6,'magnetizable')):
        def go():
            R=Run(ctx,['position_and_jacobian_3d','normal_3d','triangle_area','potential_3d_point','flux_density_to_charge_factor'],own={**{n:c_tri(n) for n in TRI},'field_dot_normal_3d':c_fdn3}); N,Nm,a,b=IV('N Nm a b')
            R.assume(T.lt(T.IZERO,N),T.le(N,Nm),T.le(T.IZERO,a),T.lt(a,N),T.le(T.IZERO,b),T.lt(b,N))
            m=R.arr('matrix',T.mul(Nm,Nm)); ve=R.arr('verts',T.mul(T.I(9),N),('arr',('arr',D,3),3)); et=R.arr('types',N,INT,'I'); ev=R.arr('values',N)
            ja=R.arr('jac',T.mul(T.I(NQ3),N),('arr',D,NQ3)); po=R.arr('pos',T.mul(T.I(NQ3*3),N),('arr',('arr',D,3),NQ3))
            g=R.eng.loop_handler=Generic(lambda i:[T.eq(T.sel('types',i,'I'),T.I(ty))])
            if ty==1: ctx.vacuity(f,R.st.pc)
            for p in R.run(f,m,ve,et,ev,ja,po,N,Nm,a,b):
                i=g.i; R.ctx.true(f+' (%s): the outer loop covers exactly rows a..b'%name,T.band(T.eq(g.lo,a),T.eq(g.hi,T.add(b,T.IONE))),R.st.pc)
                q=T.fresh('q','I'); rng=[T.le(T.IZERO,q),T.lt(q,N)]; off=T.add(T.mul(i,Nm),q)
                v=T.subst(rd(R,p,m,off,rng),{T.sel('matrix',off):T.ZERO})
                t=tri_at('verts',i); s=tri_at('verts',q); third=T.R(Fr(1,3)); c=[t[0][k]+third*(t[1][k]-t[0][k])+third*(t[2][k]-t[0][k]) for k in range(3)]
                P3=lambda k:[AT('pos',(q,NQ3*3),(T.I(k),3),(T.I(d),1)) for d in range(3)]; J=lambda k:AT('jac',(q,NQ3),(T.I(k),1))
                far=T.lt(5*norm(vsub(s[0],s[1])),norm(vsub(s[0],c)))
                flat=[x for w in s for x in w]
                if ty in(1,2,5):
                    sp=T.ite(T.band(T.bnot(T.eq(i,q)),far),T.add(*[J(k)*s_point(*c,*P3(k)) for k in range(NQ3)]),T.fun('potential_triangle',*flat,*c)/(4*T.PI))
                else:
                    n=s_normal3(t); F=s_factor(T.sel('values',i))
                    sp=T.ite(T.eq(i,q),T.R(-1),T.ite(far,T.add(*[F*J(k)*s_fdn3(c,P3(k),n) for k in range(NQ3)]),F*T.fun('flux_triangle',*flat,*c,*n)/(4*T.PI)))
                lbl='entry (i,j) is the potential at the center of element i of unit charge on element j' if ty in(1,2,5) else 'entry (i,j) is factor times the normal field at the center of element i, -1 on the diagonal'
                for cs_,nm in((T.eq(i,q),'diagonal'),(T.band(T.bnot(T.eq(i,q)),far),'far pair'),(T.band(T.bnot(T.eq(i,q)),T.bnot(far)),'near pair')):
                    d_=T.sub(v,sp)
                    pc=p.pc+rng+[cs_]
                    ctx.zero(f+' (%s): %s (%s)'%(name,lbl,nm),d_,pc,funcs=NTRI,rtol=1e-4,env=lambda sd: mat_env(sd,i,q,nm))
                frame_row(ctx,R,p,m,i,N,Nm,f+' (%s)'%name)
            if ty in(1,3):
                R.eng.vcs=[x for x in R.eng.vcs if not x[3].startswith('matrix[')]; ctx.vcs(f,R.eng)
        ctx.attempt(f+' (%s)'%name,go)
def mat_env(seed,i,q,nm):
    """a consistent mesh: buffers filled from the vertices."""
    import random; rr=random.Random(seed); m=P.mpmath.mpf
    e=P.Env(seed,funcs=NTRI); e.vals={'N':2,'Nm':2,'a':0,'b':1,i.args[0]:0,q.args[0]:0 if nm=='diagonal' else 1}
    from cv.cs3 import QTAB
    for t in range(2):
        v=[[m(rr.uniform(-1,1)) for _ in range(3)] for _ in range(3)]
        if t==1 and nm=='far pair': v=[[m(.02)*x+(10 if k==0 else 0) for k,x in enumerate(w)] for w in v]
        if t==1 and nm=='near pair' and rr.random()<.6: v=[[m(rr.uniform(.15,.5))*x+(m(rr.uniform(.3,1.5)) if k==0 else 0) for k,x in enumerate(w)] for w in v]
        for a in range(3):
            for b in range(3): e.arr['verts',9*t+3*a+b]=v[a][b]
        c=[(v[1][1]-v[0][1])*(v[2][2]-v[0][2])-(v[1][2]-v[0][2])*(v[2][1]-v[0][1]),(v[1][2]-v[0][2])*(v[2][0]-v[0][0])-(v[1][0]-v[0][0])*(v[2][2]-v[0][2]),(v[1][0]-v[0][0])*(v[2][1]-v[0][1])-(v[1][1]-v[0][1])*(v[2][0]-v[0][0])]
        ar2=P.mpmath.sqrt(sum(x*x for x in c))
        for k,(b1,b2,w) in enumerate(QTAB):
            e.arr['jac',NQ3*t+k]=ar2*w
            for d in range(3): e.arr['pos',3*NQ3*t+3*k+d]=v[0][d]+b1*(v[1][d]-v[0][d])+b2*(v[2][d]-v[0][d])
        e.arr['values',t]=m(rr.uniform(1,10))
    return e
def _dunavant():
    m=P.mpmath.mpf; a=[(m('0.063089014491502'),m('0.0254224531851035')),(m('0.249286745170910'),m('0.0583931378631895'))]; out=[]
    for x,w in a:
        for p_ in((1-2*x,x),(x,1-2*x),(x,x)): out.append((*p_,w))
    x,y=m('0.310352451033785'),m('0.053145049844816'); z=1-x-y
    import itertools
    for p_ in itertools.permutations((x,y,z)): out.append((p_[0],p_[1],m('0.041425537809187')))
    return out
QTAB=_dunavant()
