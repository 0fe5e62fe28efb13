"""Contracts of the field classes: superposition (C04), bounds (C13), accessors (C03)."""
import types, numpy as np
from fractions import Fraction as Fr
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import ok
from .pylib import full_loader, SUMS, TABLES, NQ2, NQ3, PtrTo
K=T.var('k','I'); L_=A.lift_arr
# ------------------------------------------------------------------ arrays found equal on a path
def renames(pc):
    """substitution function f -> f' justified by 'these arrays are equal' on this path."""
    fm={}; vm={}
    for q in pc:
        if q.op=='eq' and q.args[0].sort=='I' and q.args[0].op=='var' and q.args[1].op=='var' : vm[q.args[1]]=q.args[0]
        if q in A.FORALL:
            a=A.FORALL[q]
            for u in A._np.ravel(A._arr(a.elem(A.CAN))):
                u=tb(u)
                for e in (u.args if u.op=='and' else (u,)):
                    if e.op=='eq' and all(x.op=='f' and str(x.args[0]).startswith('free_') and x.args[1:]==(A.CAN,) for x in e.args): fm[e.args[1].args[0]]=e.args[0].args[0]
    def go(t,memo={}):
        memo={}
        def g(u):
            r=memo.get(u)
            if r is not None: return r
            if u in vm: r=g(vm[u])
            else:
                ch=T.children(u); n=tuple(g(x) for x in ch)
                if u.op=='f' and str(u.args[0])[:9]=='interval_' and u.args[0][9:] in fm: r=T.mk('f',('interval_'+fm[u.args[0][9:]],)+n,u.sort)
                elif u.op=='f' and u.args[0] in fm: r=T.mk('f',(fm[u.args[0]],)+n,u.sort)
                else: r=u if all(x is y for x,y in zip(n,ch)) else T.rebuild(u,n)
            memo[u]=r
            return r
        return g(t)
    return go
def zero(ctx,name,t,pc):
    t=renames(pc)(t)
    return ctx.zero(name,t,pc)
def epc(M,tag,nq,dim,flat_y=False):
    """an arbitrary set of element charges."""
    e=M.EffectivePointCharges.__new__(M.EffectivePointCharges); n=X(tag+'_N','I')
    e.charges=A.arr(tag+'_q',n); e.jacobians=A.arr(tag+'_jac',n,(nq,)); e.positions=A.arr(tag+'_pos',n,(nq,dim))
    if flat_y:
        el=e.positions.elem
        def f(i):
            r=el(i).copy(); r[:,1]=0.0
            return r
        e.positions.elem=f
    return e,[T.le(T.IZERO,tt(n))]
def value(e,nq,dim,c=0):
    """sum over the elements of charge times an arbitrary function of the element."""
    from .pylib import total
    return total('G',[X('p0'),X('p1'),X('p2')],e.charges,e.jacobians,e.positions,S(A.lift_arr(e.charges).n),nq,dim,c)
def state(e): return [(k,getattr(e,k),L_(getattr(e,k)).n,tuple(tt(x) for x in np.ravel(L_(getattr(e,k)).elem(A.CAN)))) for k in('charges','jacobians','positions')]
def unchanged(e,s): return all(getattr(e,k) is a and L_(a).n is n and tuple(tt(x) for x in np.ravel(L_(a).elem(A.CAN)))==t for k,a,n,t in s)
def v_epc(ctx):
    """EffectivePointCharges: sums, multiples."""
    for nq,dim in((NQ2,2),(NQ3,3)):
        L,B,lib=full_loader(ctx.unit(),SUMS()); M=L.get('traceon.solver'); d='%dD'%(2 if nq==NQ2 else 3)
        (e1,p1),(e2,p2)=epc(M,'f',nq,dim),epc(M,'g',nq,dim); a=X('a'); st=[state(e1),state(e2)]; pre=p1+p2
        F='traceon/solver.py:EffectivePointCharges.'
        for nm,fn,w in(('__add__',lambda:e1+e2,lambda:value(e1,nq,dim)+value(e2,nq,dim)),('__mul__',lambda:e1*a,lambda:a*value(e1,nq,dim)),('__rmul__',lambda:a*e1,lambda:a*value(e1,nq,dim)),
                       ('__mul__ (integer)',lambda:e1*3,lambda:3*value(e1,nq,dim)),('__neg__',lambda:-e1,lambda:-value(e1,nq,dim))):
            ctx.function(F+nm.split(' ')[0],'any sum over the elements is the corresponding combination','contract'); lab='EffectivePointCharges.%s %s'%(nm,d)
            outs=ok(ctx,lab,explore(fn,pre))
            for k,o in enumerate(outs):
                def go():
                    r=o.val
                    if not ctx.check('%s path %d: result is a set of element charges'%(lab,k),isinstance(r,M.EffectivePointCharges)): return
                    ns=[L_(getattr(r,x)).n for x in('charges','jacobians','positions')]
                    for n in ns[1:]: A.prove(ctx,'%s path %d: as many positions and weights as charges'%(lab,k),T.eq(ns[0],n),o.pc)
                    zero(ctx,'%s path %d: sum over the elements of charge times any function of the element'%(lab,k),T.sub(tr(value(r,nq,dim)),tr(w())),o.pc)
                    ctx.check('%s path %d: operands unchanged'%(lab,k),unchanged(e1,st[0]) and unchanged(e2,st[1]) and r is not e1 and r is not e2)
                ctx.attempt(lab,go)
            A.events(ctx,lab,outs)
def concat(M):
    """contract of EffectivePointCharges.__add__ (proved above): equivalent to listing the elements of both."""
    def add(s,o):
        r=M.EffectivePointCharges.__new__(M.EffectivePointCharges)
        for k in('charges','jacobians','positions'):
            a,b=L_(getattr(s,k)),L_(getattr(o,k))
            if a.tail!=b.tail: raise ValueError('different kinds of elements added')
            setattr(r,k,A.s_concat([a,b]))
        return r
    M.EffectivePointCharges.__add__=add
def mkbem(M,kind,tag):
    if kind=='radial':
        (e,p1),(m_,p2),(c,p3)=epc(M,tag+'e',NQ2,2),epc(M,tag+'m',NQ2,2),epc(M,tag+'c',NQ3,3,True)
        return M.FieldRadialBEM(e,m_,c),p1+p2+p3
    (e,p1),(m_,p2)=epc(M,tag+'e',NQ3,3),epc(M,tag+'m',NQ3,3)
    return M.Field3D_BEM(e,m_),p1+p2
def quantities(kind):
    p=lambda:[X('p0'),X('p1'),X('p2')]
    q=[(n,lambda f,n=n:getattr(f,n)(p())) for n in('electrostatic_potential_at_point','electrostatic_field_at_point','magnetostatic_potential_at_point','magnetostatic_field_at_point')]
    if kind=='radial': q+=[('current_field_at_point',lambda f:f.current_field_at_point(p()))]+[(n,lambda f,n=n:L_(getattr(f,n)(A.arr('z',X('nz','I')))).elem(K)) for n in('get_electrostatic_axial_potential_derivatives','get_magnetostatic_axial_potential_derivatives','get_current_axial_potential_derivatives')]
    if kind=='radial': q+=[('current_potential_axial',lambda f:f.current_potential_axial(X('z')))]
    return q
OPS=[('f+g',lambda f,g,a:f+g,(1,1)),('f-g',lambda f,g,a:f-g,(1,-1)),('a*f',lambda f,g,a:a*f,('a',0)),('f*a',lambda f,g,a:f*a,('a',0)),('-f',lambda f,g,a:-f,(-1,0)),('2*f',lambda f,g,a:2*f,(2,0)),('f*0.5',lambda f,g,a:f*0.5,(0.5,0)),('a*f-g+f',lambda f,g,a:a*f-g+f,('a+1',-1))]
def comb(co,x,y,a):
    k=[{'a':tr(a),'a+1':T.add(tr(a),T.ONE)}.get(c) if isinstance(c,str) else T.R(c) for c in co]
    return T.add(T.mul(k[0],x),T.mul(k[1],y))
def v_bem(ctx):
    for kind in('radial','3d'):
        L,B,lib=full_loader(ctx.unit(),SUMS()); M=L.get('traceon.solver'); concat(M)
        a=X('a'); cls={'radial':'FieldRadialBEM','3d':'Field3D_BEM'}[kind]
        f,p1=mkbem(M,kind,'f'); g,p2=mkbem(M,kind,'g'); pre=p1+p2+[T.le(T.IZERO,T.var('nz','I'))]
        ctx.vacuity(cls,pre)
        parts=('electrostatic_point_charges','magnetostatic_point_charges','current_point_charges')
        st=[(getattr(h,k),state(getattr(h,k)) if hasattr(L_(getattr(h,k).charges),'elem') else None,h,k) for h in(f,g) for k in parts]
        for nm,op,co in OPS:
            ctx.function('traceon/solver.py:FieldBEM.%s (%s)'%({'f+g':'__add__','f-g':'__sub__','a*f':'__rmul__','f*a':'__mul__','-f':'__neg__'}.get(nm,nm),cls),'pointwise superposition of every quantity','contract')
            for qn,q in quantities(kind):
                def run(): 
                    r=op(f,g,a)
                    return r,vec(q(r)),vec(q(f)),vec(q(g))
                lab='%s %s: %s'%(cls,nm,qn)
                def body():
                    outs=ok(ctx,lab,explore(run,pre))
                    for i,o in enumerate(outs):
                        r,v,x,y=o.val
                        ctx.check(lab+': a field of the same kind',type(r) is type(f))
                        ctx.check(lab+': operands unchanged',all(getattr(h,k) is e and unchanged(e,s) for e,s,h,k in st))
                        if ctx.check(lab+': shape',len(v)==len(x)==len(y)):
                            for c in range(len(v)): ctx.zero('%s[%d] path %d'%(lab,c,i) if len(v)>1 else '%s path %d'%(lab,i),T.sub(v[c],comb(co,x[c],y[c],a)),o.pc)
                    A.events(ctx,lab,outs)
                ctx.attempt(lab,body)
def v_axial(ctx):
    """axially interpolated fields."""
    L,B,lib=full_loader(ctx.unit(),{**SUMS(),**TABLES()}); L.stub('scipy.interpolate',CubicSpline=Y.OpaqueFn('CubicSpline'),BPoly=Y.OpaqueFn('BPoly'),PPoly=Y.OpaqueFn('PPoly'))
    for mod in('interpolation','solver'): _v_axial(ctx,L,mod)
def _v_axial(ctx,L,mod):
    I=L.get('traceon.'+mod); a=X('a')
    if not hasattr(I,'FieldRadialAxial'): return
    def mk(tag,z):
        f=I.FieldRadialAxial.__new__(I.FieldRadialAxial); n=T.sub(z.n,T.IONE)
        f.z=z; f.electrostatic_coeffs=A.arr(tag+'ec',n,(9,6)); f.magnetostatic_coeffs=A.arr(tag+'mc',n,(9,6)); f.has_electrostatic=S(T.predv(tag+'he',T.IZERO)); f.has_magnetostatic=S(T.predv(tag+'hm',T.IZERO))
        return f
    nz=X('nz','I'); z=A.arr('z',nz); pre=[T.le(T.I(2),tt(nz)),T.lt(tr(z.elem(T.IZERO)),tr(z.elem(T.sub(tt(nz),T.IONE))))]
    for zmode in('same samples','equal samples'):
        z2=z if zmode=='same samples' else A.arr('z2',X('nz2','I'))
        f,g=mk('f',z),mk('g',z2)
        pre2=pre+([] if z2 is z else [T.le(T.I(2),z2.n),T.lt(tr(z2.elem(T.IZERO)),tr(z2.elem(T.sub(z2.n,T.IONE))))])
        keys=('z','electrostatic_coeffs','magnetostatic_coeffs'); snap=[(h,k,getattr(h,k),tuple(tt(x) for x in np.ravel(getattr(h,k).elem(A.CAN)))) for h in(f,g) for k in keys]
        for nm,op,co in OPS:
            if zmode!='same samples' and 'g' not in nm: continue
            if zmode!='same samples' and nm=='a*f-g+f': continue
            ctx.function('traceon/%s.py:FieldAxial.%s'%(mod,{'f+g':'__add__','f-g':'__sub__','a*f':'__rmul__','f*a':'__mul__','-f':'__neg__'}.get(nm,nm)),'pointwise superposition of every quantity','contract')
            lab='%s.FieldRadialAxial %s (%s)'%(mod,nm,zmode); p=[X('p0'),X('p1'),X('p2')]
            qs=('electrostatic_potential_at_point','electrostatic_field_at_point','magnetostatic_potential_at_point','magnetostatic_field_at_point')
            def run():
                r=op(f,g,a)
                return r,[[vec(getattr(h,q)(p)) for h in(r,f,g)] for q in qs]
            def body():
                outs=explore(run,pre2)
                if zmode!='same samples':
                    # differently sampled fields are refused
                    for o in outs:
                        if o.kind!='ok': ctx.check(lab+': refused only with an assertion',isinstance(o.val,AssertionError),repr(o.val))
                    outs=[o for o in outs if o.kind=='ok']
                    ctx.check(lab+': some path succeeds',bool(outs))
                else: outs=ok(ctx,lab,outs)
                for i,o in enumerate(outs):
                    r,vs=o.val
                    ctx.check(lab+': a field of the same kind',type(r) is type(f))
                    ctx.check(lab+': operands unchanged',all(getattr(h,k) is v and tuple(tt(x) for x in np.ravel(v.elem(A.CAN)))==t for h,k,v,t in snap) and not any(r is h for h in(f,g)))
                    for q,(v,x,y) in zip(qs,vs):
                        for c in range(len(v)): zero(ctx,'%s: %s[%d] path %d'%(lab,q,c,i),T.sub(v[c],comb(co,x[c],y[c],a)),o.pc)
                A.events(ctx,lab,outs)
            ctx.attempt(lab,body)
# ------------------------------------------------------------------ accessors (C03) and tracers (C12, C13)
def v_access(ctx):
    """every accessor is the sum over the elements of its own set of charges; magnetic fields add the current contribution."""
    from .pylib import total
    for kind in('radial','3d'):
        L,B,lib=full_loader(ctx.unit(),SUMS()); M=L.get('traceon.solver'); cls={'radial':'FieldRadialBEM','3d':'Field3D_BEM'}[kind]
        f,pre=mkbem(M,kind,'f'); pre=pre+[T.le(T.IZERO,T.var('nz','I'))]; nq,dim=(NQ2,2) if kind=='radial' else (NQ3,3); sfx='radial' if kind=='radial' else '3d'
        P3=[X('p0'),X('p1'),X('p2')]; e,m_,c=f.electrostatic_point_charges,f.magnetostatic_point_charges,f.current_point_charges
        N=lambda q:S(L_(q.charges).n)
        tot=lambda nm,q,pt=P3,k=0,nq=nq,dim=dim: tr(total(nm,pt,q.charges,q.jacobians,q.positions,N(q),nq,dim,k))
        z=A.arr('z',X('nz','I')); zk=[z.elem(K)]
        exp={'electrostatic_potential_at_point':(lambda:[tot('potential_'+sfx,e)]),'magnetostatic_potential_at_point':(lambda:[tot('potential_'+sfx,m_)]),
             'electrostatic_field_at_point':(lambda:[tot('field_'+sfx,e,k=k) for k in range(3)]),
             'magnetostatic_field_at_point':(lambda:[T.add(tot('field_'+sfx,m_,k=k),tot('current_field',c,k=k,nq=NQ3,dim=3) if kind=='radial' else T.ZERO) for k in range(3)])}
        if kind=='radial':
            exp.update({'current_field_at_point':(lambda:[tot('current_field',c,k=k,nq=NQ3,dim=3) for k in range(3)]),'current_potential_axial':(lambda:[tot('current_potential_axial',c,[X('z')],nq=NQ3,dim=3)]),
                'get_electrostatic_axial_potential_derivatives':(lambda:[tot('axial_derivatives_radial',e,zk,k) for k in range(9)]),
                'get_current_axial_potential_derivatives':(lambda:[tot('current_axial_derivatives_radial',c,zk,k,NQ3,3) for k in range(9)]),
                'get_magnetostatic_axial_potential_derivatives':(lambda:[T.add(tot('axial_derivatives_radial',m_,zk,k),tot('current_axial_derivatives_radial',c,zk,k,NQ3,3)) for k in range(9)])})
        for qn,q in quantities(kind):
            ctx.function('traceon/solver.py:%s.%s'%(cls,qn),'sum over all elements of its own charges','contract'); lab='%s.%s'%(cls,qn)
            def body():
                outs=ok(ctx,lab,explore(lambda:vec(q(f)),pre))
                for i,o in enumerate(outs):
                    w=exp[qn]()
                    if ctx.check(lab+': shape',len(o.val)==len(w)):
                        for k,(a,b) in enumerate(zip(o.val,w)): ctx.zero('%s[%d] path %d'%(lab,k,i) if len(w)>1 else '%s path %d'%(lab,i),T.sub(a,b),o.pc)
                A.events(ctx,lab,outs)
            ctx.attempt(lab,body)
        # the generic accessors select the part that is present
        for nm,el,mg in(('field_at_point','electrostatic_field_at_point','magnetostatic_field_at_point'),('potential_at_point','electrostatic_potential_at_point','magnetostatic_potential_at_point')):
            ctx.function('traceon/solver.py:Field.'+nm,'the field (potential) of the part that is present','contract'); lab='%s.%s'%(cls,nm)
            def body():
                he,hm=T.lt(T.IZERO,L_(e.charges).n),T.bor(*[T.lt(T.IZERO,L_(x.charges).n) for x in(m_,c)])
                for case,cond,want in(('electrostatic',[he,T.bnot(hm)],el),('magnetostatic',[T.bnot(he),hm],mg)):
                    outs=ok(ctx,'%s (%s only)'%(lab,case),explore(lambda:vec(getattr(f,nm)(P3)),pre+cond))
                    for i,o in enumerate(outs):
                        for k,(a,b) in enumerate(zip(o.val,exp[want]())): ctx.zero('%s (%s only)[%d] path %d'%(lab,case,k,i),T.sub(a,b),o.pc)
                ok(ctx,lab+' (both or none) is refused',explore(lambda:getattr(f,nm)(P3),pre+[T.bor(T.band(he,hm),T.band(T.bnot(he),T.bnot(hm)))]),'raise')
            ctx.attempt(lab,body)
def v_axial_access(ctx):
    L,B,lib=full_loader(ctx.unit(),{**SUMS(),**TABLES()}); L.stub('scipy.interpolate',CubicSpline=Y.OpaqueFn('CubicSpline'),BPoly=Y.OpaqueFn('BPoly'),PPoly=Y.OpaqueFn('PPoly'))
    con={**SUMS(),**TABLES()}
    for mod in('interpolation','solver'):
        I=L.get('traceon.'+mod)
        if not hasattr(I,'FieldRadialAxial'): continue
        f=I.FieldRadialAxial.__new__(I.FieldRadialAxial); nz=X('nz','I'); z=A.arr('z',nz); n=T.sub(z.n,T.IONE); p=[X('p0'),X('p1'),X('p2')]
        f.z=z; f.electrostatic_coeffs=A.arr('fec',n,(9,6)); f.magnetostatic_coeffs=A.arr('fmc',n,(9,6)); pre=[T.le(T.I(2),z.n)]
        for q,co,fn in(('electrostatic_potential_at_point','electrostatic_coeffs','potential_radial_derivs'),('magnetostatic_potential_at_point','magnetostatic_coeffs','potential_radial_derivs'),
                       ('electrostatic_field_at_point','electrostatic_coeffs','field_radial_derivs'),('magnetostatic_field_at_point','magnetostatic_coeffs','field_radial_derivs')):
            lab='%s.FieldRadialAxial.%s'%(mod,q); ctx.function('traceon/%s.py:FieldRadialAxial.%s'%(mod,q),'evaluates its own table over the whole range','contract')
            def body():
                outs=ok(ctx,lab,explore(lambda:vec(getattr(f,q)(p)),pre))
                for i,o in enumerate(outs):
                    if fn.startswith('pot'): w=[tr(con[fn](p,z,getattr(f,co),S(z.n)))]
                    else:
                        r=np.zeros(3,object); con[fn](p,r,z,getattr(f,co),S(z.n)); w=vec(r)
                    if ctx.check(lab+': shape',len(w)==len(o.val)):
                        for k,(a,b) in enumerate(zip(o.val,w)): ctx.zero('%s[%d] path %d'%(lab,k,i),T.sub(a,b),o.pc)
                A.events(ctx,lab,outs)
            ctx.attempt(lab,body)
def arr_same(ctx,n,a,b,pc):
    """two arrays agree in length and every entry."""
    if isinstance(a,PtrTo): a=a.target
    a,b=L_(a),L_(b)
    if not ctx.check(n+': shape',a.tail==b.tail,'%s %s'%(a.tail,b.tail)): return
    A.prove(ctx,n+': length',T.eq(a.n,b.n),pc); kk=T.var('k','I')
    for u,v in zip(np.ravel(A._arr(a.elem(kk))),np.ravel(A._arr(b.elem(kk)))):
        if tt(u) is tt(v): continue
        A.prove(ctx,n+': every entry',T.eq(tn(u),tn(v)),list(pc)+[A.inrange(kk,a.n)]); 
    ctx.check(n+': compared',True)
ME,QE=Fr('9.1093837139e-31'),Fr('1.602176634e-19')
def v_tracers(ctx):
    """what each tracer hands to the library: converted velocity, tracing bounds, field bounds, the field's own arrays."""
    from .pylib import Struct
    rec={}
    def capture(name):
        def f(T_,P_,*a):
            rec['row0']=[tr(x) for x in L_(P_).elem(T.IZERO)]; rec['t0']=tr(L_(T_).elem(T.IZERO)); rec['args']=a; rec['name']=name
            return 7
        return f
    names=('trace_particle_radial','trace_particle_radial_derivs','trace_particle_3d','trace_particle_3d_derivs')
    L,B,lib=full_loader(ctx.unit(),{**SUMS(),**TABLES(),**{n:capture(n) for n in names}}); L.stub('scipy.interpolate',CubicSpline=Y.OpaqueFn('CubicSpline'),BPoly=Y.OpaqueFn('BPoly'),PPoly=Y.OpaqueFn('PPoly'))
    L.stub('scipy.constants',m_e=ME,e=QE); M=L.get('traceon.solver'); TR=L.get('traceon.tracing'); I=L.get('traceon.interpolation')
    pos,v,at=V('r'),V('v'),X('atol'); bd=np.array([[X('b%d%d'%(i,j)) for j in range(2)] for i in range(3)],object); fb=np.array([[X('fb%d%d'%(i,j)) for j in range(2)] for i in range(3)],object)
    speed2=T.add(*[T.mul(tr(x),tr(x)) for x in v]); E=T.sqrt(speed2); pre0=[T.lt(T.ZERO,speed2),T.lt(T.ZERO,E)]
    sp=T.sqrt(T.mul(T.R(2*QE/ME),E)); vel=[T.mul(sp,T.div(tr(x),E)) for x in v]
    def common(lab,o):
        for k in range(3):
            ctx.zero('%s: starts at the given position [%d]'%(lab,k),T.sub(rec['row0'][k],tr(pos[k])),o.pc)
            ctx.zero('%s: starts with the velocity of the given energy and direction [%d]'%(lab,k),T.sub(rec['row0'][3+k],vel[k]),o.pc)
        ctx.zero(lab+': starts at time zero',rec['t0'],o.pc)
    def nums(x): return [tr(y) for y in np.ravel(x.target if isinstance(x,PtrTo) else x)]
    def eff(lab,s,e,o):
        if not ctx.check(lab+': passed as element charges',isinstance(s,Struct)): return
        for fld in('charges','jacobians','positions'): arr_same(ctx,'%s: %s'%(lab,fld),getattr(s,fld),getattr(e,fld),o.pc)
        ctx.zero(lab+': number of elements',T.sub(tr(s.N),tr(S(L_(e.charges).n))),o.pc)
    def eqn(lab,a,b,o):
        a,b=nums(a),nums(b)
        if ctx.check(lab+': shape',len(a)==len(b)):
            for k,(x,y) in enumerate(zip(a,b)): ctx.zero('%s[%d]'%(lab,k),T.sub(x,y),o.pc)
    for kind in('radial','3d'):
        f,pre=mkbem(M,kind,'f'); cls={'radial':'FieldRadialBEM','3d':'Field3D_BEM'}[kind]
        for bounded in(False,True):
            lab='%s tracer%s'%(cls,' with field bounds' if bounded else ''); ctx.function('traceon/tracing.py:Tracer%s.__call__'%('RadialBEM' if kind=='radial' else '3D_BEM'),'position, SI velocity, tracing bounds, tolerance, field bounds, charges','contract')
            def run():
                rec.clear(); f.field_bounds=None
                if bounded: f.set_bounds(fb)
                f.get_tracer(bd)(pos,v,atol=at); return dict(rec)
            def body():
                outs=ok(ctx,lab,explore(run,pre+pre0))
                for o in outs:
                    rec.clear(); rec.update(o.val); common(lab,o); a=rec['args']
                    if not ctx.check(lab+': library function',rec['name']=='trace_particle_'+kind,rec['name']): continue
                    eqn(lab+': tracing bounds',a[0],bd,o); eqn(lab+': tolerance',np.array([a[1]],object),np.array([at],object),o)
                    if kind=='radial': fbp,es=a[2],a[3:]
                    else: es,fbp=a[2:4],a[4]
                    if bounded: ctx.check(lab+': field bounds passed',fbp is not None) and eqn(lab+': field bounds',fbp,fb,o)
                    else: ctx.check(lab+': no field bounds passed',fbp is None)
                    for s,k in zip(es,('electrostatic_point_charges','magnetostatic_point_charges','current_point_charges')): eff('%s: %s'%(lab,k),s,getattr(f,k),o)
                    ctx.check(lab+': number of charge sets',len(es)==(3 if kind=='radial' else 2))
                A.events(ctx,lab,outs)
            ctx.attempt(lab,body)
    nz=X('nz','I'); z=A.arr('z',nz); n=T.sub(z.n,T.IONE)
    f=I.FieldRadialAxial.__new__(I.FieldRadialAxial); f.z=z; f.electrostatic_coeffs=A.arr('fec',n,(9,6)); f.magnetostatic_coeffs=A.arr('fmc',n,(9,6))
    g=types.SimpleNamespace(z=z,electrostatic_coeffs=A.arr('gec',n,(2,4,8,4)),magnetostatic_coeffs=A.arr('gmc',n,(2,4,8,4)))
    fs=M.FieldRadialAxial.__new__(M.FieldRadialAxial) if hasattr(M,'FieldRadialAxial') else f; fs.z=z; fs.electrostatic_coeffs=A.arr('hec',n,(9,6)); fs.magnetostatic_coeffs=A.arr('hmc',n,(9,6))
    for lab,mk,h,nm in(('FieldRadialAxial tracer',lambda:f.get_tracer(bd),f,'trace_particle_radial_derivs'),('solver.FieldRadialAxial tracer',lambda:fs.get_tracer(bd),fs,'trace_particle_radial_derivs'),('Tracer3DAxial',lambda:TR.Tracer3DAxial(g,bd),g,'trace_particle_3d_derivs')):
        ctx.function('traceon/tracing.py:Tracer%s.__call__'%('3DAxial' if h is g else 'RadialAxial'),'position, SI velocity, tracing bounds, tolerance, tables','contract')
        def run():
            rec.clear(); mk()(pos,v,atol=at); return dict(rec)
        def body():
            outs=ok(ctx,lab,explore(run,[T.le(T.I(2),z.n)]+pre0))
            for o in outs:
                rec.clear(); rec.update(o.val); common(lab,o); a=rec['args']
                if not ctx.check(lab+': library function',rec['name']==nm,rec['name']): continue
                eqn(lab+': tracing bounds',a[0],bd,o); eqn(lab+': tolerance',np.array([a[1]],object),np.array([at],object),o)
                arr_same(ctx,lab+': axis samples',a[2],z,o.pc); arr_same(ctx,lab+': electrostatic table',a[3],h.electrostatic_coeffs,o.pc); arr_same(ctx,lab+': magnetostatic table',a[4],h.magnetostatic_coeffs,o.pc)
                ctx.zero(lab+': number of samples',T.sub(tr(a[5]),tr(S(z.n))),o.pc)
            A.events(ctx,lab,outs)
        ctx.attempt(lab,body)
def v_blocks(ctx,most=4):
    """trace_particle_wrapper: the storage blocks are joined without a lost, repeated or altered sample."""
    ctx.function('traceon/backend/__init__.py:trace_particle_wrapper','starts with the given state at time zero; each block continues from the last sample of the previous one; the joined arrays are the samples in order','contract')
    ctx.trust('trace_particle (C10, discharged on the C code): fills samples 0..N-1 of the block it is given, N <= block size, keeps sample 0, and returns the block size exactly when the block is full')
    ctx.bounded.append('trajectories of 1..%d storage blocks (each of any length)'%most)
    pos,vel=V('r'),V('v'); Bs=X('Bs','I'); start=[tr(x) for x in list(pos)+list(vel)]
    for nb in range(1,most+1):
        lab='%d block%s'%(nb,'s' if nb>1 else '')
        L,B,lib=full_loader(ctx.unit(),SUMS()); B.TRACING_BLOCK_SIZE=Bs; rec={}
        last=X('Nlast','I'); sizes=[Bs]*(nb-1)+[last]
        def fill(T_,P_):
            b=rec['k']; rec['k']+=1
            if b>=nb: raise RuntimeError('the library is called again although the block was not full')
            T_,P_=L_(T_),L_(P_); N=sizes[b]
            rec['in'].append((tr(T_.elem(T.IZERO)),[tr(x) for x in P_.elem(T.IZERO)],T_.n,P_.n,P_.tail))
            T_[1:N]=A.arr('t%d'%b,N-1); P_[1:N]=A.arr('p%d'%b,N-1,(6,))
            return N
        def run():
            rec.clear(); rec.update(k=0); rec['in']=[]
            r=B.trace_particle_wrapper(pos,vel,fill); return r,dict(rec)
        def body():
            pre=[T.le(T.I(2),tt(Bs)),T.le(T.IONE,tt(last)),T.lt(tt(last),tt(Bs))]
            for o in ok(ctx,lab,explore(run,pre)):
                (ts,ps),r=o.val; ts,ps=L_(ts),L_(ps)
                if not ctx.check(lab+': every block is filled once',r['k']==nb,str(r['k'])): continue
                # expected sample i: walk through the blocks
                def sample(b,i): # sample i of block b, i>=1
                    i1=T.sub(i,T.IONE)
                    return [T.fun('free_t%d'%b,i1)]+[T.fun('free_p%d_%d'%(b,c),i1) for c in range(6)]
                prev=[T.ZERO]+start
                for b,(t0,p0,nt,np_,tail) in enumerate(r['in']):
                    ctx.true('%s: block %d has room for the stated number of samples'%(lab,b),T.band(T.eq(nt,tt(Bs)),T.eq(np_,tt(Bs))),o.pc); ctx.check('%s: block %d shape'%(lab,b),tail==(6,))
                    for c,(x,y) in enumerate(zip([t0]+p0,prev)): ctx.zero('%s: block %d continues from the previous sample [%d]'%(lab,b,c),T.sub(x,y),o.pc)
                    prev=[tr(A.arr('t%d'%b,Bs-1).elem(T.sub(tt(Bs),T.I(2))))]+[tr(x) for x in A.arr('p%d'%b,Bs-1,(6,)).elem(T.sub(tt(Bs),T.I(2)))]
                total_n=T.add(*[T.sub(tt(s),T.IONE) for s in sizes],T.IONE)
                for w,a in(('times',ts),('states',ps)): ctx.true('%s: number of %s'%(lab,w),T.eq(a.n,total_n),o.pc)
                row=lambda i:[tr(ts.elem(i))]+[tr(x) for x in ps.elem(i)]
                for c,(x,y) in enumerate(zip(row(T.IZERO),[T.ZERO]+start)): ctx.zero('%s: first sample [%d]'%(lab,c),T.sub(x,y),o.pc)
                off=T.IONE
                for b,s in enumerate(sizes):
                    j=T.var('j','I'); pcj=o.pc+[T.le(T.IZERO,j),T.lt(j,T.sub(tt(s),T.IONE))]
                    want=[tr(A.arr('t%d'%b,s-1).elem(j))]+[tr(x) for x in A.arr('p%d'%b,s-1,(6,)).elem(j)]
                    for c,(x,y) in enumerate(zip(row(T.add(off,j)),want)): A.prove_eq(ctx,'%s: sample of block %d [%d]'%(lab,b,c),x,y,pcj)
                    off=T.add(off,T.sub(tt(s),T.IONE))
        ctx.attempt(lab,body)
def v_velocity(ctx):
    """velocity_vec, velocity_vec_spherical, velocity_vec_xz_plane, _convert_velocity_to_SI."""
    L,B,lib=full_loader(ctx.unit(),SUMS()); L.stub('scipy.constants',m_e=ME,e=QE); TR=L.get('traceon.tracing'); where='traceon/tracing.py:'
    eV=X('eV'); d=V('d'); pos=[T.lt(T.ZERO,tr(eV))]; n2=T.add(*[T.mul(tr(x),tr(x)) for x in d]); nz=[T.lt(T.ZERO,n2)]
    def direction(lab,v,u,pc,unit=False):
        """v = eV*u/|u|: parallel to u, along it, of magnitude eV."""
        uu=T.add(*[T.mul(x,x) for x in u])
        for k in range(3): ctx.zero('%s: energy times unit direction [%d]'%(lab,k),T.sub(tr(v[k]),T.mul(tr(eV),u[k] if unit else T.div(u[k],T.sqrt(uu)))),pc)
        ctx.zero(lab+': magnitude is the energy',T.sub(T.add(*[T.mul(tr(x),tr(x)) for x in v]),T.mul(tr(eV),tr(eV))),pc)
    for form,w in((lambda:d,'array'),(lambda:list(d),'list')):
        lab='velocity_vec (%s)'%w; ctx.function(where+'velocity_vec','energy times the unit vector along the direction','contract')
        for o in ok(ctx,lab,explore(lambda:TR.velocity_vec(eV,form()),pos+nz)): direction(lab,o.val,[tr(x) for x in d],o.pc)
    th,ph=X('theta'),X('phi'); c,s=T.fun('cos',tr(th)),T.fun('sin',tr(th)); cp,sp=T.fun('cos',tr(ph)),T.fun('sin',tr(ph))
    for lab,f,u in(('velocity_vec_spherical',lambda:TR.velocity_vec_spherical(eV,th,ph),[T.mul(s,cp),T.mul(s,sp),c]),('velocity_vec_xz_plane downward',lambda:TR.velocity_vec_xz_plane(eV,th),[s,T.ZERO,T.neg(c)]),('velocity_vec_xz_plane upward',lambda:TR.velocity_vec_xz_plane(eV,th,downward=False),[s,T.ZERO,c])):
        ctx.function(where+lab.split()[0],'energy times the unit vector of the stated angles','contract')
        for o in ok(ctx,lab,explore(f,pos)): direction(lab,o.val,u,o.pc,True)
    v=V('v'); w2=T.add(*[T.mul(tr(x),tr(x)) for x in v]); E=T.sqrt(w2)
    ctx.function(where+'_convert_velocity_to_SI','|v|^2 = 2 e E/m along the given direction; inverse of v -> (m/(2e)) |v| v','contract')
    for o in ok(ctx,'conversion',explore(lambda:TR._convert_velocity_to_SI(v),[T.lt(T.ZERO,w2),T.lt(T.ZERO,E)])):
        r=[tr(x) for x in o.val]; r2=T.add(*[T.mul(x,x) for x in r])
        ctx.zero('conversion: |v|^2 = 2 e E / m',T.sub(r2,T.mul(T.R(2*QE/ME),E)),o.pc)
        for k in range(3): ctx.zero('conversion: along the direction [%d]'%k,T.sub(T.mul(r[k],E),T.mul(T.sqrt(T.mul(T.R(2*QE/ME),E)),tr(v[k]))),o.pc)
def v_planes(ctx):
    """plane_intersection and its axis-aligned variants: what is handed to the library, and 'no crossing' becomes an error."""
    where='traceon/tracing.py:'; rec={}
    def stub(found):
        def plane(p0,nrm,ps,n,res):
            rec.update(p0=[tr(x) for x in p0],n=[tr(x) for x in nrm],ps=ps,N=tr(n) if isinstance(n,S) else T.R(n))
            if found:
                for c in range(6): res[c]=X('hit%d'%c)
            return found
        return plane
    N=X('N','I'); ps=A.arr('ps',N,(6,)); p0,nv=V('p'),V('nn'); s=X('s'); one=[T.ZERO,T.ZERO,T.ZERO]
    ax=lambda k,x:[x if i==k else T.ZERO for i in range(3)]
    for found in(True,False):
        L,B,lib=full_loader(ctx.unit(),{**SUMS(),'plane_intersection':stub(found)}); TR=L.get('traceon.tracing')
        cases=[('plane_intersection',lambda:TR.plane_intersection(ps,p0,nv),[tr(x) for x in p0],[tr(x) for x in nv])]
        for nm,k in(('xy',2),('xz',1),('yz',0)): cases.append((nm+'_plane_intersection',lambda nm=nm:getattr(TR,nm+'_plane_intersection')(ps,s),ax(k,tr(s)),ax(k,T.ONE)))
        cases.append(('axis_intersection',lambda:TR.axis_intersection(ps),[T.ZERO]*3,ax(0,T.ONE)))
        for lab,f,ep,en in cases:
            lab+=' (crossing)' if found else ' (no crossing)'; ctx.function(where+lab.split()[0],'plane through the point with the normal, all samples; error if nothing crosses','contract')
            def run(): rec.clear(); r=f(); return r,dict(rec)
            def body():
                outs=explore(run,[T.le(T.I(2),tt(N))])
                if not found:
                    for o in outs: ctx.check(lab+': an error is raised',o.kind=='exc' or o.kind=='raise' or isinstance(o.val,Exception),repr(o.val)[:200])
                    ctx.check(lab+': reached the library',bool(outs)); return
                for o in ok(ctx,lab,outs):
                    r,q=o.val; ctx.check(lab+': whole trajectory',q['ps'] is ps or L_(q['ps']).elem(K)[0] is ps.elem(K)[0]); ctx.zero(lab+': number of samples',T.sub(q['N'],tr(N)),o.pc)
                    # same plane: the normals parallel and nonzero, the offsets equal
                    for i in range(3):
                        ctx.zero('%s: point [%d]'%(lab,i),T.sub(q['p0'][i],ep[i]),o.pc); ctx.zero('%s: normal [%d]'%(lab,i),T.sub(q['n'][i],en[i]),o.pc)
                    if lab.startswith('axis'): ctx.zero(lab+': z of the hit',T.sub(tr(r),tr(X('hit2'))),o.pc)
                    else:
                        for c in range(6): ctx.zero('%s: returned state [%d]'%(lab,c),T.sub(tr(r[c]),tr(X('hit%d'%c))),o.pc)
            ctx.attempt(lab,body)
