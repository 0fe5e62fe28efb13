"""Contracts of the thin wrappers of the compiled library (traceon/backend/__init__.py): every wrapper hands its arguments to the
library function in the order of the C prototype, with the sizes of its arrays, and returns what the function wrote."""
import numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, explore, tr, tb, tn, tt, Unsupported, fresh
from .pygeo import ok
from .pylib import full_loader, PtrTo, CVal, TABLES, need, _pt, OArr
F='traceon/backend/__init__.py:'
def ov(name,*shape):
    a=np.empty(shape,object)
    for k,ix in enumerate(np.ndindex(*shape)): a[ix]=S(T.var('free_%s_%s'%(name,'_'.join(map(str,ix)))))
    return a.view(OArr)
def fl(x):
    if isinstance(x,PtrTo): x=x.target
    if isinstance(x,CVal): x=x.value
    if isinstance(x,np.ndarray): return [tr(q) for q in x.ravel()]
    if isinstance(x,(list,tuple)): return [q for y in x for q in fl(y)]
    if isinstance(x,(bool,np.bool_)): return [T.R(int(x))]
    return [tr(x)]
def F_(name,c,ins): return T.fun('free_%s_%d'%(name,c),*ins)
def con(name,nin,shapes,ret=False,order=None):
    """contract: the outputs are functions of the inputs (in this order)."""
    def f(*a):
        ins=[q for k in nin for q in fl(a[k])]
        for k,sh in shapes.items():
            o=a[k]; o=o.target if isinstance(o,PtrTo) else o
            if isinstance(o,CVal): o.value=S(F_(name+'_v',k,ins)); continue
            if tuple(int(x) for x in o.shape)!=sh: raise ValueError('result of shape %r passed to %s'%(o.shape,name))
            for c,ix in enumerate(np.ndindex(*sh)): o[ix]=S(F_(name,c,ins))
        if ret=='bool': return Y.S(T.eq(T.fun_i('free_found_'+name,*ins),T.IONE))
        if ret: return S(F_(name,0,ins))
    return f
def wv(name,ins,n): return [F_(name,c,[q for x in ins for q in fl(x)]) for c in range(n)]
def case(ctx,fname,unit,contracts,args,want,pre=(),tag=''):
    name=fname+tag; ctx.function(F+fname,'the library function is called with the given arguments and its result is returned','contract')
    def go():
        L,B,lib=full_loader(unit,contracts)
        outs=ok(ctx,name,explore(lambda:getattr(B,fname)(*args),list(pre)))
        for k,o in enumerate(outs):
            v=o.val; got=[q for x in (v if isinstance(v,tuple) else (v,)) for q in fl(x)]
            if not ctx.check(name+': number of values',len(got)==len(want),'%d, expected %d'%(len(got),len(want))): continue
            A.prove(ctx,name+': the values written by the library for these arguments',T.band(*[T.eq(x,y) for x,y in zip(got,want)]),o.pc)
    ctx.attempt(name,go)
def v_small(ctx,only=None):
    u=ctx.unit(); al,be=V('alpha'),V('beta'); v2=[ov('p%d'%k,2) for k in range(4)]; v3=[ov('v%d'%k,3) for k in range(3)]; tri=ov('tri',3,3)
    def do(n,*a,**k):
        if only is None or n in only: case(ctx,n,u,*a,**k)
    do('normal_2d',{'normal_2d':con('normal_2d',(0,1),{2:(2,)})},(v2[0],v2[1]),wv('normal_2d',v2[:2],2))
    do('normal_3d',{'normal_3d':con('normal_3d',(0,),{1:(3,)})},(tri,),wv('normal_3d',[tri],3))
    do('position_and_jacobian_3d',{'position_and_jacobian_3d':con('paj3',(0,1,2),{3:(3,),4:()})},(al,be,tri),[F_('paj3_v',4,[q for x in(al,be,tri) for q in fl(x)])]+wv('paj3',[al,be,tri],3))
    do('combine_elec_magnetic_field',{'combine_elec_magnetic_field':con('comb',(0,1,2,3),{4:(3,)})},(v3[0],v3[1],v3[2],ov('cur',3)),wv('comb',v3+[ov('cur',3)],3))
    x0,y0,x,y=[V(n) for n in('x0','y0','x','y')]
    do('current_field_radial_ring',{'current_field_radial_ring':con('cfr',(0,1,2,3),{4:(2,)})},(x0,y0,x,y),wv('cfr',[x0,y0,x,y],2))
    vt=ov('vt',3,3)
    do('charge_radial',{'charge_radial':con('chr',(0,1),{},True)},(vt,al),wv('chr',[vt,al],1))
    do('potential_radial_ring',{'potential_radial_ring':con('prr',(0,1,2,3),{},True)},(x0,y0,x,y),wv('prr',[x0,y0,x,y],1))
    do('dr1_potential_radial_ring',{'dr1_potential_radial_ring':con('drr',(0,1,2,3),{},True)},(x0,y0,x,y),wv('drr',[x0,y0,x,y],1))
    do('dz1_potential_radial_ring',{'dz1_potential_radial_ring':con('dzr',(0,1,2,3),{},True)},(x0,y0,x,y),wv('dzr',[x0,y0,x,y],1))
    # the integration routine: the callback evaluates the given function, limits and tolerances are passed on
    if only is None or 'kronrod_adaptive' in only:
        def k(cb,a,b,d,ea,er): return S(F_('kron',0,[tr(cb(S(T.var('x_at')),None)),*fl([a,b,ea,er])]))
        xx=T.var('x_at'); f=lambda t: S(T.fun('free_integrand',tr(t)))
        ea,er=V('epsabs'),V('epsrel'); a,b=V('a'),V('b')
        case(ctx,'kronrod_adaptive',u,{'kronrod_adaptive':k},(f,a,b,ea,er),[F_('kron',0,[T.fun('free_integrand',xx)]+fl([a,b,ea,er]))])
def v_tables3d(ctx,only=None):
    """evaluation of tabulated three-dimensional axial series."""
    u=ctx.unit(); tb3=TABLES(); pt=ov('point',3); n=T.var('nz','I'); z=A.arr('z',n); co=A.arr('co',T.sub(n,T.IONE),(2,4,8,4))
    for f,vec in(('potential_3d_derivs',False),('field_3d_derivs',True)):
        if only and f not in only: continue
        name=f; ctx.function(F+f,'the library function is called with the given point and table and its result is returned','contract')
        def go():
            L,B,lib=full_loader(u,tb3)
            def want():
                if vec:
                    r=np.zeros(3,object).view(OArr); tb3[f](pt,r,z,co,S(n)); return list(r)
                return [tb3[f](pt,z,co,S(n))]
            outs=ok(ctx,name,explore(lambda:(getattr(B,f)(pt,z,co),want()),[T.le(T.I(2),n)]))
            for o in outs:
                got,w=o.val; A.prove_eq(ctx,name+': the value of the library function for these arguments',np.array(fl(got),object) if vec else [got],w,o.pc)
            A.events(ctx,name,outs)
        ctx.attempt(name,go)
def v_coefficients3d(ctx):
    """axial_coefficients_3d: zero-initialised output, buffers of the right size."""
    u=ctx.unit(); f='axial_coefficients_3d'; ctx.function(F+f,'charges, buffers, axis points and their numbers are passed on; the output starts at zero','contract')
    def go():
        N,Z=T.var('N','I'),T.var('Nz','I'); q=A.arr('q',N); j=A.arr('jac',N,(12,)); p=A.arr('pos',N,(12,3)); z=A.arr('z',Z); K=T.var('k','I')
        def c(qq,jj,pp,co,si,n,zz,out,nz):
            tag=lambda a,b:all(tt(x) is tt(y) for x,y in zip(np.ravel(a.elem(K)),np.ravel(b.elem(K)))) and a.tail==b.tail
            rec=dict(q=tag(qq,q),j=tag(jj,j),p=tag(pp,p),z=tag(zz,z),bufs=co is not si and co.tail==(12,8) and si.tail==(12,8),out=out.tail==(2,4,8),zero=all(T.isc(tt(x)) and T.cv(tt(x))==0 for x in np.ravel(out.elem(K))))
            st['rec']=rec; st['n']=T.band(T.eq(tt(n),N),T.eq(tt(nz),Z),T.eq(co.n,N),T.eq(si.n,N),T.eq(out.n,Z)); st['out']=out
            out.elem=lambda i:np.array([S(T.fun('free_coef_%d'%k,i)) for k in range(64)],object).reshape(2,4,8)
        st={}
        L,B,lib=full_loader(u,{f:c})
        def body(): st.clear(); r=getattr(B,f)(q,j,p,z); return r,dict(st)
        outs=ok(ctx,f,explore(body,[T.le(T.IZERO,N),T.le(T.IZERO,Z)]))
        for o in outs:
            r,s=o.val
            for k,v in s['rec'].items(): ctx.check(f+': '+dict(q='charges',j='jacobians',p='positions',z='axis points',bufs='trigonometric buffers',out='shape of the output',zero='the output starts at zero')[k],bool(v))
            A.prove(ctx,f+': numbers of elements and axis points',s['n'],o.pc)
            A.prove_eq(ctx,f+': the output is returned',r.elem(K),[S(T.fun('free_coef_%d'%k,K)) for k in range(64)],o.pc+[A.inrange(K,Z)]); A.prove(ctx,f+': its length',T.eq(r.n,Z),o.pc)
    ctx.attempt(f,go)
def v_areas(ctx):
    u=ctx.unit(); f='triangle_areas'; ctx.function(F+f,'the areas of all triangles','contract')
    def go():
        N=T.var('N','I'); t=A.arr('tri',N,(3,3)); K=T.var('k','I'); g=lambda i:T.fun('free_area',*[tr(x) for x in np.ravel(t.elem(i))])
        def c(a,out,n):
            need(f+': number of triangles',T.band(T.eq(tt(n),a.n),T.eq(out.n,a.n)))
            e=a.elem; out.elem=lambda i:S(T.fun('free_area',*[tr(x) for x in np.ravel(e(i))]))
        L,B,lib=full_loader(u,{f:c}); outs=ok(ctx,f,explore(lambda:B.triangle_areas(t),[T.le(T.IZERO,N)]))
        for o in outs: A.prove(ctx,f+': length',T.eq(o.val.n,N),o.pc); A.prove_eq(ctx,f+': every area',o.val.elem(K),S(g(K)),o.pc+[A.inrange(K,N)])
        A.events(ctx,f,outs)
    ctx.attempt(f,go)
def v_trace_field(ctx):
    """trace_particle: the callback hands position and velocity to the given field and stores its three components."""
    u=ctx.unit(); f='trace_particle'; ctx.function(F+f,'the acceleration callback evaluates the given field at position and velocity; bounds and tolerance are passed on','contract'); ctx.function(F+'wrap_field_fun','callback','contract')
    def go():
        st={}; y=ov('y',6); b=ov('b',3,2); atol=V('atol'); p0,v0=ov('p0',3),ov('v0',3)
        def c(t,p,cb,bb,at,d):
            r=np.zeros(3,object); cb(y,r,None); st['acc']=fl(r); st['b']=fl(bb); st['at']=fl(at); st['T']=t; st['P']=p
            return S(T.var('free_steps','I'))
        L,B,lib=full_loader(u,{f:c}); tm,ps=object(),object()
        B.trace_particle_wrapper=lambda p,v,fill: (p,v,fill(tm,ps))
        fld=lambda *a: np.array([S(T.fun('free_field_%d'%k,*[tr(x) for x in a])) for k in range(3)],object) if len(a)==6 else (_ for _ in ()).throw(TypeError('six arguments'))
        def body(): st.clear(); r=B.trace_particle(p0,v0,fld,b,atol); return r,dict(st)
        outs=ok(ctx,f,explore(body,[]))
        for o in outs:
            (p,v,n),s=o.val
            ctx.check(f+': starting position and velocity',fl(p)==fl(p0) and fl(v)==fl(v0)); ctx.check(f+': buffers and number of steps',s['T'] is tm and s['P'] is ps and tt(n) is T.var('free_steps','I'))
            A.prove(ctx,f+': acceleration is the field at position and velocity',T.band(*[T.eq(s['acc'][k],T.fun('free_field_%d'%k,*fl(y))) for k in range(3)]),o.pc)
            A.prove(ctx,f+': bounds and tolerance',T.band(*[T.eq(x,q) for x,q in zip(s['b']+s['at'],fl(b)+fl(atol))]),o.pc)
    ctx.attempt(f,go)
