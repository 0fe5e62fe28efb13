"""Contracts of Excitation and of the solver set-up (C07, C08, C09, C30)."""
import types, numpy as np
from fractions import Fraction as Fr
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import loader, ok
from .pymesh import mesh, L_, K, Q, RNG
W='traceon/excitation.py:'
LG=('va','vb','fu','di','co','mp','mz','fr')     # names of the groups of an excitation exercising every type
def excite(E,m,sym,func=None,skip=()):
    """an excitation with every type of entry, made through the public methods."""
    x=E.Excitation(m,sym)
    f=func or FN('vfun',1,3)
    if 'va' not in skip: x.add_voltage(va=X('va'))
    if 'fu' not in skip: x.add_voltage(fu=f)
    x.add_dielectric(di=X('kdi'))
    if 'co' in m.physical_to_triangles and sym==E.Symmetry.RADIAL: x.add_current(co=X('cur'))
    x.add_magnetostatic_potential(mp=X('vmp')); x.add_magnetizable(mz=X('kmz'))
    if 'vb' not in skip: x.add_voltage(vb=X('vb'))
    return x
def flat_points(m):
    el=m.points.elem
    def f(i):
        r=el(i).copy(); r[1]=S(T.ZERO); return r
    m.points.elem=f
def setup(L,sym,tag=''):
    M=L.get('traceon.mesher'); E=L.get('traceon.excitation')
    radial=sym=='RADIAL'; names=LG if radial else tuple(n for n in LG if n!='co')
    m,pre=mesh(M,tag,4 if radial else 2,3,names if radial else('x',),('co','cq') if radial else names)
    if radial: flat_points(m)
    return M,E,m,pre,getattr(E.Symmetry,sym)
def v_active(ctx):
    """Excitation._get_active_elements: the active elements are exactly those of the excited groups, once."""
    for sym in('RADIAL','THREE_D'):
        for which in('electrostatic','magnetostatic'):
            L=loader(); M,E,m,pre,sy=setup(L,sym); kind='lines' if sym=='RADIAL' else 'triangles'
            act=('va','fu','di','vb') if which=='electrostatic' else('mp','mz')
            lab='%s active elements (%s)'%(which,sym); ctx.function(W+'Excitation.get_%s_active_elements'%which,'exactly the elements of the groups with a %s surface excitation, each once; the name map leads to the rows of its own elements'%which,'contract')
            def go():
                x=excite(E,m,sy); types0=dict(x.excitation_types); r=getattr(x,'get_%s_active_elements'%which)()
                return r,types0==x.excitation_types
            def body():
                outs=ok(ctx,lab,explore(go,pre))
                for o in outs:
                    (vs,names),kept=o.val; vs=L_(vs); ctx.check(lab+': excitation unchanged',kept)
                    el,pt=getattr(m,kind),m.points; grp=m.physical_to_lines if kind=='lines' else m.physical_to_triangles
                    if not ctx.check(lab+': the names are exactly those of the excited groups',sorted(names)==sorted(act),str(sorted(names))): continue
                    inr=lambda g,k:A.inrange(k,grp[g].n)
                    for g in act:
                        r=L_(names[g]); row=tn(r.elem(K)); e=tn(grp[g].elem(K)); pc=o.pc+[inr(g,K)]
                        A.prove(ctx,lab+': %s: one row per element of the group'%g,T.eq(r.n,grp[g].n),o.pc)
                        A.prove(ctx,lab+': %s: rows exist'%g,A.inrange(row,vs.n),pc,hits=[K])
                        want=np.array([x for c in el.elem(e) for x in pt.elem(tn(c))],object); got=np.ravel(vs.elem(row))
                        if ctx.check(lab+': %s: shape'%g,len(want)==len(got)): A.prove_eq(ctx,lab+': %s: the row holds the vertices of its element'%g,got,want,pc,hits=[K])
                        for h in act:
                            rq=L_(names[h]); A.prove(ctx,lab+': rows of %s and %s coincide only for the same element'%(g,h),T.implies(T.eq(row,tn(rq.elem(Q))),T.eq(e,tn(grp[h].elem(Q)))),pc+[inr(h,Q)],hits=[K,Q])
                    # every row is a row of some excited group: element nth(k) of the mesh, in one of the groups
                    masks={u.args[0][4:] for u in T.walk([tt(x) for x in np.ravel(vs.elem(K))]) if u.op=='f' and str(u.args[0]).startswith('nth_')}
                    if len(masks)!=1: raise Unsupported('selection not recognised')
                    nm=masks.pop(); nth=T.fun_i('nth_'+nm,K); pcK=o.pc+[A.inrange(K,vs.n)]
                    A.prove_eq(ctx,lab+': every row holds the vertices of one element',np.ravel(vs.elem(K)),np.array([x for c in el.elem(nth) for x in pt.elem(tn(c))],object),pcK)
                    A.prove(ctx,lab+': that element exists',A.inrange(nth,el.n),pcK)
                    # some member of an excited group refers to it (the ghost writers of the stores)
                    alts=[T.band(A.inrange(T.fun_i('wr_'+s,nth),n),T.eq(tn(f(T.fun_i('wr_'+s,nth))),nth)) for s,(n,f,tl) in A.SCAT.items() for g in act if n is grp[g].n and not tl and tn(f(A.CAN)) is tn(grp[g].elem(A.CAN))]
                    A.prove(ctx,lab+': every row belongs to an excited group',T.bor(*alts),pcK) if alts else ctx.rec(lab+': stores recognised','unsupported','structure','no index stores recognised')
                A.events(ctx,lab,outs)
            ctx.attempt(lab,body)
# ------------------------------------------------------------------ the solver set-up
from .pylib import full_loader, SUMS, NQ2, NQ3, PtrTo
OWN={}
def ax_own(u):
    """every row belongs to one group (the groups of the mesh are disjoint; discharged for _get_active_elements)."""
    if u.args[0] in OWN: g,N=OWN[u.args[0]]; return [T.band(T.le(T.IZERO,u),T.lt(u,N)),T.eq(T.fun_i('group_of',u),T.I(g))]
A.AXIOMS.append(ax_own)
def xz(v):
    """the three consecutive numbers in memory behind a pointer (rows of vertices have three coordinates)."""
    if isinstance(v,PtrTo): v=v.target
    root=v
    while isinstance(root.base,np.ndarray): root=root.base
    if not root.flags.c_contiguous: raise Unsupported('memory layout')
    k=(v.__array_interface__['data'][0]-root.__array_interface__['data'][0])//root.itemsize; f=root.reshape(-1)
    if k+3>f.size: raise Unsupported('a pointer to two coordinates')
    return f[k:k+3]
def lagrange(al):
    n=[Fr(-1),Fr(-1,3),Fr(1,3),Fr(1)]; a=tr(al); r=[]
    for i in range(4):
        t=T.ONE
        for j in range(4):
            if j!=i: t=T.mul(t,T.mul(T.sub(a,T.R(n[j])),T.R(1/(n[i]-n[j]))))
        r.append(t)
    return r
REC={}
def GEOM():
    def fjr(jac,po,vs,N):
        REC['jac']=(jac,po,vs,N); vs=L_(vs); e=vs.elem
        def mk(nm,tail,i):
            o=np.empty(tail,object); av=[tr(x) for x in np.ravel(e(i))]
            for c,ix in enumerate(np.ndindex(tail)): o[ix]=S(T.fun('free_%s_%d'%(nm,c),*av))
            return o
        jac.elem=lambda i,t=jac.tail:mk('jacobian',t,i); po.elem=lambda i,t=po.tail:mk('position',t,i)
    def pj(al,v1,v2,v3,v4,po,j):
        w=lagrange(al); vs=[xz(v) for v in(v1,v2,v3,v4)]
        po[0]=S(T.add(*[T.mul(a,tr(v[0])) for a,v in zip(w,vs)])); po[1]=S(T.add(*[T.mul(a,tr(v[2])) for a,v in zip(w,vs)]))
    def hn(al,v1,v2,v3,v4,n):
        args=[tr(al)]+[tr(x) for v in(v1,v2,v3,v4) for x in xz(v)]; th=T.fun('free_angle',*args); n[0]=S(T.fun('cos',th)); n[1]=S(T.fun('sin',th))
    def n3(tri,n):
        for c in range(3): n[c]=S(T.fun('free_normal3_%d'%c,*[tr(x) for x in np.ravel(tri)]))
    return {'fill_jacobian_buffer_radial':fjr,'fill_jacobian_buffer_3d':fjr,'position_and_jacobian_radial':pj,'higher_order_normal_radial':hn,'normal_3d':n3,'flux_density_to_charge_factor':lambda K:S(T.fun('free_factor',tr(K)))}
def center(vs,radial):
    if not radial: return [T.mul(T.R(Fr(1,3)),T.add(*[tr(vs[a][c]) for a in range(3)])) for c in range(3)]
    w=lagrange(0); p=lambda c:T.add(*[T.mul(a,tr(vs[k][c])) for a,k in zip(w,(0,2,3,1))])
    return [p(0),T.ZERO,p(2)]
def solver_env(ctx,sym,which,extra=None):
    radial=sym=='RADIAL'
    L,B,lib=full_loader(ctx.unit(),{**SUMS(),**GEOM(),**(extra or {})}); L.stub('scipy.interpolate',CubicSpline=Y.OpaqueFn('CubicSpline'),BPoly=Y.OpaqueFn('BPoly'),PPoly=Y.OpaqueFn('PPoly')); L.stub('scipy.constants',m_e=1.,e=1.,mu_0=1.,epsilon_0=1.)
    E=L.get('traceon.excitation'); M=L.get('traceon.solver'); N=X('N','I'); sy=getattr(E.Symmetry,sym); ET=E.ExcitationType
    vs=A.arr('vert',N,(4,3) if radial else(3,3))
    if radial:
        el=vs.elem
        def f(i):
            r=el(i).copy(); r[:,1]=S(T.ZERO); return r
        vs.elem=f
    act=('va','fu','di','vb') if which=='electrostatic' else('mp','mz','mq')
    names={}; pre=[T.le(T.IZERO,tt(N))]
    for g,n in enumerate(act):
        names[n]=A.arr('row_'+n,X('len_'+n,'I'),(),np.int64); OWN['free_row_%s_0'%n]=(g,tt(N)); pre.append(T.le(T.IZERO,names[n].n)); known(names[n],N)
    vf=lambda x,y,z:S(T.fun('free_vfun',tr(x),tr(y),tr(z)))
    types={'va':(ET.VOLTAGE_FIXED,X('va')),'fu':(ET.VOLTAGE_FUN,vf),'di':(ET.DIELECTRIC,X('kdi')),'co':(ET.CURRENT,X('cur')),'mp':(ET.MAGNETOSTATIC_POT,X('vmp')),'mz':(ET.MAGNETIZABLE,X('kmz')),'vb':(ET.VOLTAGE_FIXED,X('vb')),'mq':(ET.MAGNETIZABLE,X('kmq'))}
    if not radial: types.pop('co')
    m=types_ns(is_3d=lambda:not radial,is_2d=lambda:radial,is_higher_order=lambda:radial,points=A.arr('pts',X('np','I'),(3,)),triangles=A.arr('tri',X('nt','I'),(3,),np.uint64),physical_to_triangles={'co':A.arr('coil',X('nc','I'),(),np.int64),'cq':A.arr('coil2',X('nc2','I'),(),np.int64)} if radial else {})
    ex=E.Excitation.__new__(E.Excitation); ex.mesh=m; ex.symmetry=sy; ex.electrodes=[]; ex.excitation_types=types
    setattr(ex,'get_%s_active_elements'%which,lambda:(vs,names))
    for c in range(3): RNG['free_tri_%d'%c]=m.points.n
    RNG['free_coil_0']=RNG['free_coil2_0']=m.triangles.n
    pre+=[T.le(T.IZERO,a.n) for a in(m.points,m.triangles)]+[T.le(T.IZERO,g.n) for g in m.physical_to_triangles.values()]
    cls=getattr(M,'ElectrostaticSolver' if which=='electrostatic' else 'MagnetostaticSolver')
    return types_ns(L=L,B=B,M=M,E=E,ET=ET,ex=ex,vs=vs,names=names,act=act,pre=pre,cls=cls,N=N,radial=radial,vf=vf,m=m)
def known(a,N):
    """the entries of this index array are known to be indices below N."""
    def at(i):
        r=a.elem(i); Y.assume(S(T.implies(A.inrange(i,a.n),A.inrange(tn(r),tt(N))))); return r
    a.at=at
def types_ns(**k): return types.SimpleNamespace(**k)
def v_setup(ctx):
    """Solver.__init__: each row carries the type and the value given for its group."""
    for sym in('RADIAL','THREE_D'):
        for which in('electrostatic','magnetostatic'):
            e=solver_env(ctx,sym,which); lab='%s set-up (%s)'%(e.cls.__name__,sym); ctx.function('traceon/solver.py:Solver.__init__','every row has the type and value of its group; quadrature data of the active elements','contract'); ctx.function('traceon/solver.py:%s.get_active_elements'%e.cls.__name__,'the elements of its own kind','contract')
            e.cls.get_current_charges=lambda s:e.M.EffectivePointCharges.empty_3d()      # its own contract: v_coils
            def go(): REC.clear(); s=e.cls(e.ex); return s,dict(REC)
            def body():
                outs=ok(ctx,lab,explore(go,e.pre))
                for o in outs:
                    s,rec=o.val; ty,va=L_(s.excitation_types),L_(s.excitation_values)
                    A.prove(ctx,lab+': one type and value per row',T.band(T.eq(ty.n,tt(e.N)),T.eq(va.n,tt(e.N))),o.pc); ctx.check(lab+': its elements',s.vertices is e.vs and s.names is e.names)
                    for g in e.act:
                        r=tn(e.names[g].elem(K)); pc=o.pc+[A.inrange(K,e.names[g].n)]; t,v=e.ex.excitation_types[g]
                        A.prove(ctx,lab+': type of the rows of '+g,T.eq(tn(ty.elem(r)),T.I(int(t))),pc,hits=[K])
                        if callable(v):
                            want=v(*[S(x) for x in center(e.vs.elem(r),e.radial)]); A.prove(ctx,lab+': value of the rows of %s: the function at the centre of the element'%g,T.eq(tr(va.elem(r)),tr(want)),pc,hits=[K])
                        else: A.prove(ctx,lab+': value of the rows of '+g,T.eq(tr(va.elem(r)),tr(v)),pc,hits=[K])
                    jac,po,vv,n=rec['jac']; ctx.check(lab+': quadrature of its own elements',vv is e.vs and s.jac_buffer is jac and s.pos_buffer is po); A.prove(ctx,lab+': quadrature of every element',T.eq(tt(n),tt(e.N)),o.pc)
                    if which=='magnetostatic' :
                        nn=L_(s.normals); i=T.var('i','I'); pc=o.pc+[A.inrange(i,tt(e.N))]; row=e.vs.elem(i)
                        if e.radial: th=T.fun('free_angle',T.ZERO,*[tr(x) for k in(0,2,3,1) for x in row[k]]); want=[T.fun('cos',th),T.fun('sin',th)]
                        else: want=[T.fun('free_normal3_%d'%c,*[tr(x) for x in np.ravel(row)]) for c in range(3)]
                        A.prove(ctx,lab+': one normal per row',T.eq(nn.n,tt(e.N)),o.pc)
                        if not any(q is T.eq(tt(e.N),T.IZERO) for q in o.pc): A.prove_eq(ctx,lab+': the normal of its element',nn.elem(i),np.array([S(w) for w in want],object),pc)
                A.events(ctx,lab,outs)
            ctx.attempt(lab,body)
# ------------------------------------------------------------------ right hand sides
def generic(o):
    """the arbitrary iterations performed on this path."""
    return [ev[1] for ev in o.events if ev[0]=='generic']
def covered(ctx,lab,o,gs,n):
    """the loop that stores the rows visits every row."""
    if not gs: return A.prove(ctx,lab+': every row is visited',T.eq(tt(n),T.IZERO),o.pc)
    ls={ev[1] for ev in o.events if ev[0]=='genloop'}
    if len(ls)!=1: return ctx.rec(lab+': every row is visited','unsupported','structure','several loops over rows')
    _,lo,hi=ls.pop()
    return A.prove(ctx,lab+': every row is visited',T.band(T.eq(lo,T.IZERO),T.eq(hi,tt(n))),o.pc)
def bare(e,tag=''):
    """a solver in the state its constructor leaves behind (v_setup): any type and value per row."""
    s=e.cls.__new__(e.cls); s.excitation=e.ex; s.vertices=e.vs; s.names=e.names; nq=NQ2 if e.radial else NQ3
    s.excitation_types=A.arr('ty'+tag,e.N,(),np.uint8); s.excitation_values=A.arr('val'+tag,e.N)
    s.jac_buffer=A.arr('jb',e.N,(nq,)); s.pos_buffer=A.arr('pb',e.N,(nq,2 if e.radial else 3))
    if e.cls is e.M.MagnetostaticSolver:
        s.normals=A.arr('nrm',e.N,(2 if e.radial else 3,)); c=e.M.EffectivePointCharges.empty_3d(); s.current_charges=c; s.current_field=curfield(e,s)
    return s
def curfield(e,s):
    """the current field of the solver (C03): any field at any point; none where there are no currents."""
    def at(p):
        p=Y.toarr(p)
        if p.shape!=(3,): raise ValueError('a point has three coordinates')
        return np.array([S(T.fun('free_Hcur_%d'%c,*[tr(x) for x in p])) if e.radial else S(T.ZERO) for c in range(3)],object)
    return types_ns(current_field_at_point=at)
def v_rhs(ctx):
    """get_right_hand_side: prescribed potential, 0, or minus the charge factor times the normal component of the coils' field."""
    for sym in('RADIAL','THREE_D'):
        for which in('electrostatic','magnetostatic'):
            e=solver_env(ctx,sym,which); lab='%s right hand side (%s)'%(e.cls.__name__,sym); ET=e.ET; NM=e.cls.__name__
            ctx.function('traceon/solver.py:%s.get_right_hand_side'%NM,'row i: the prescribed value for potential rows, 0 for dielectrics, minus the charge factor times the normal component of the current field for magnetizable rows','contract')
            def go(): s=bare(e); e.s=s; tv=(s.excitation_types.elem,s.excitation_values.elem); F=s.get_right_hand_side(); return F,s,(s.excitation_types.elem,s.excitation_values.elem)==tv
            ok_t=lambda t:T.bor(*[T.eq(t,T.I(int(x))) for x in((ET.VOLTAGE_FIXED,ET.VOLTAGE_FUN,ET.DIELECTRIC) if which=='electrostatic' else(ET.MAGNETOSTATIC_POT,ET.MAGNETIZABLE))])
            def body():
                seen=set(); n=0
                for o in ok(ctx,lab,explore(go,e.pre)):
                    F,s,kept=o.val; F=L_(F); ctx.check(lab+': set-up unchanged',kept); A.prove(ctx,lab+': one value per row',T.eq(F.n,tt(e.N)),o.pc)
                    gs=generic(o); i0=T.var('i','I')
                    if gs: covered(ctx,lab,o,gs,e.N)
                    for i in gs or [i0]:
                        t=tn(s.excitation_types.elem(i)); v=tr(s.excitation_values.elem(i)); pc=o.pc+[ok_t(t)]+([] if gs else [A.inrange(i,tt(e.N))])
                        for k in(ET.VOLTAGE_FIXED,ET.VOLTAGE_FUN,ET.DIELECTRIC) if which=='electrostatic' else(ET.MAGNETOSTATIC_POT,ET.MAGNETIZABLE):
                            p=pc+[T.eq(t,T.I(int(k)))]
                            if not P.feasible(p): continue
                            if k==ET.DIELECTRIC: want=T.ZERO
                            elif k==ET.MAGNETIZABLE:
                                c=center(e.vs.elem(i),e.radial); nr=s.normals.elem(i); h=[T.fun('free_Hcur_%d'%q,*c) if e.radial else T.ZERO for q in range(3)]; want=T.neg(T.mul(T.fun('free_factor',v),T.add(T.mul(h[0],tr(nr[0])),T.mul(h[2],tr(nr[1])))))
                            else: want=v
                            seen.add(int(k)); n+=1; A.prove_eq(ctx,lab+': row of type %s'%k.name,F.elem(i),np.array([S(want)],object),p)
                ctx.check(lab+': every type occurs',n>0 and seen=={int(k) for k in((ET.VOLTAGE_FIXED,ET.VOLTAGE_FUN,ET.DIELECTRIC) if which=='electrostatic' else(ET.MAGNETOSTATIC_POT,ET.MAGNETIZABLE))},str(seen))
            ctx.attempt(lab,body)
# ------------------------------------------------------------------ currents
def v_coils(ctx):
    """get_current_charges: every triangle of every coil once, with the coil's current divided by the coil's area."""
    e=solver_env(ctx,'RADIAL','magnetostatic'); W='traceon/solver.py:MagnetostaticSolver.get_current_charges'; ctx.function(W,'per coil: its triangles, with charge I / (sum of their quadrature weights); nothing else','contract')
    ET=e.ET; tri,pts=e.m.triangles,e.m.points; grp=e.m.physical_to_triangles
    cur={'co':X('I1'),'cq':X('I2')}; e.ex.excitation_types=dict(e.ex.excitation_types); e.ex.excitation_types.update(co=(ET.CURRENT,cur['co']),zz=(ET.CURRENT,X('I3')),cq=(ET.CURRENT,cur['cq']))
    lab='get_current_charges'; fn={'co':'free_coil_0','cq':'free_coil2_0'}
    nq=NQ3; jname=lambda c,t:T.fun('free_jacobian_%d'%c,*[tr(x) for q in range(3) for x in np.ravel(pts.elem(tn(tri.elem(t)[q])))]); pname=lambda c,t:T.fun('free_position_%d'%c,*[tr(x) for q in range(3) for x in np.ravel(pts.elem(tn(tri.elem(t)[q])))])
    area=lambda g:(lambda v:T.Sum(v,T.IZERO,grp[g].n,T.add(*[jname(c,tn(grp[g].elem(v))) for c in range(nq)])))(T.fresh('a','I'))
    e.m.physical_to_triangles['mp']=A.arr('other',X('nc3','I'),(),np.int64); RNG['free_other_0']=tri.n; e.pre.append(T.le(T.IZERO,e.m.physical_to_triangles['mp'].n)); grp={k:grp[k] for k in fn}
    def go(): s=e.cls.__new__(e.cls); s.excitation=e.ex; s.vertices=e.vs; return s.get_current_charges()
    def body():
        outs=ok(ctx,lab,explore(go,e.pre)); seen=set()
        for o in outs:
            r=o.val; ch,jb,pb=L_(r.charges),L_(r.jacobians),L_(r.positions)
            pres=[g for g in grp if P.prove_bool(T.lt(T.IZERO,grp[g].n),o.pc+[]).status=='proved' and P.prove_bool(T.lt(T.IZERO,tri.n),o.pc).status=='proved']
            if not pres:
                A.prove(ctx,lab+': no current without triangles',T.bor(T.eq(ch.n,T.IZERO)),o.pc); continue
            seen.add(tuple(pres))
            leavesc=[(off,m,x) for off,m,x in (ch.parts or [(T.IZERO,ch.n,ch)])]
            # the order of the coils: by the triangles the positions refer to
            pp=pb.parts or [(T.IZERO,pb.n,pb)]; order=[]
            for off,m,x in pp:
                names={u.args[0] for u in T.walk([tt(y) for y in np.ravel(x.elem(A.CAN))]) if u.op=='f'}
                order+=[g for g in grp if fn[g] in names]
            if not ctx.check(lab+': one part per coil',sorted(order)==sorted(pres),str(order)): continue
            off=T.IZERO; A.prove(ctx,lab+': one source per triangle',T.eq(ch.n,T.add(*[grp[g].n for g in pres]) if len(pres)>1 else grp[pres[0]].n),o.pc)
            for a in(jb,pb): A.prove(ctx,lab+': arrays of equal length',T.eq(a.n,ch.n),o.pc)
            for g in order:
                k=T.add(off,K); pc=o.pc+[A.inrange(K,grp[g].n)]; t=tn(grp[g].elem(K))
                A.prove_eq(ctx,lab+': %s: weights of its triangle'%g,np.ravel(jb.elem(k)),np.array([S(jname(c,t)) for c in range(nq)],object),pc)
                A.prove_eq(ctx,lab+': %s: quadrature points of its triangle'%g,np.ravel(pb.elem(k)),np.array([S(pname(c,t)) for c in range(3*nq)],object),pc)
                q=tr(ch.elem(k)); q=T.simplify_under(q,pc) if hasattr(T,'simplify_under') else q
                ratio(ctx,lab+': %s: current density is the current over the area'%g,cases(q,pc),tr(cur[g]),area(g),pc)
                off=T.add(off,grp[g].n)
        ctx.check(lab+': all combinations of coils explored',{frozenset(s) for s in seen}=={frozenset(x) for x in(('co',),('cq',),('co','cq'))},str(seen))
    ctx.attempt(lab,body)
def ratio(ctx,name,q,num,den,pc):
    """q == num/den, where q is written with a single denominator."""
    ds=[u for u in T.walk([q]) if u.op=='pow' and not T.isc(u.args[0]) and u.args[1]==-1]
    if len(ds)!=1: return ctx.zero(name,T.sub(q,T.div(num,den)),pc)
    d=ds[0]; x=T.fresh('den','R')
    return ctx.zero(name+' (denominator)',T.sub(d.args[0],den),pc) and ctx.zero(name,T.sub(T.subst(q,{d:T.div(T.ONE,x)}),T.div(num,x)),pc+[T.lt(T.ZERO,x)])
def cases(t,pc):
    """choose the branch of a conditional that the path fixes."""
    while True:
        it=[u for u in T.walk([t]) if u.op=='ite']
        for u in it:
            c=u.args[0]
            if u.args[1] is u.args[2]: r=u.args[1]
            elif P.prove_bool(c,pc).status=='proved': r=u.args[1]
            elif P.prove_bool(T.bnot(c),pc).status=='proved': r=u.args[2]
            else: continue
            t=T.subst(t,{u:r}); break
        else: return t
# ------------------------------------------------------------------ the system matrix
class Mat:
    """a square matrix of arbitrary size: entry(r,c) after the stores performed so far."""
    __array_ufunc__=None; __nosnap__=True; nbytes=8.0; dtype=np.dtype(float)
    def __init__(s,n): s.n=n; s.entry=lambda r,c:T.ZERO; s.log=[]
    @property
    def shape(s): return (S(tt(s.n)),S(tt(s.n)))
    def __setitem__(s,k,v):
        if not(isinstance(k,tuple) and len(k)==2): raise Unsupported('matrix store')
        if not all(isinstance(x,(S,int)) for x in k): raise Unsupported('matrix store')
        a,b=tn(k[0]),tn(k[1]); e=s.entry; v=tr(v); Y.cur.events.append(('index',T.band(A.inrange(a,tt(s.n)),A.inrange(b,tt(s.n))),list(Y.cur.pc)))
        gens=[l.i for l in A.loops]
        if not gens or len(gens)>1 or any(x in gens for x in(a,b))==False: raise Unsupported('matrix store outside a loop over the rows')
        s.log.append((gens[0],a,b,v)); s.entry=lambda r,c:T.ite(T.band(T.eq(r,a),T.eq(c,b)),v,e(r,c))
    def fill(s,name,a,b,args):
        e=s.entry; s.log.append(('fill',name,a,b,args)); s.entry=lambda r,c:T.ite(T.band(T.le(a,r),T.le(r,b),A.inrange(c,tt(s.n))),T.fun('free_entry_'+name,r,c),e(r,c))
class Row(np.ndarray):
    """rows of float64 arrays handed to code that looks at the element type or the memory."""
    @property
    def dtype(s): return np.dtype(float)
    @property
    def ctypes(s):
        from .pylib import View
        return View(s)
def v_matrix(ctx):
    """Solver.get_matrix."""
    for sym in('RADIAL','THREE_D'):
        for which in('electrostatic','magnetostatic'):
            cname='fill_matrix_radial' if sym=='RADIAL' else 'fill_matrix_3d'; e0={}
            def cfill(mat,vs,ty,va,jb,pb,N,Nm,a,b):
                need=lambda w,g: Y.cur.events.append(('precondition of '+w,g,list(Y.cur.pc)))
                need(cname,T.band(T.le(T.IZERO,tn(a)),T.le(tn(a),tn(b)),T.lt(tn(b),tt(N)),T.eq(tt(Nm),tt(mat.n)),T.eq(tt(N),tt(mat.n)))); mat.fill(cname,tn(a),tn(b),(vs,ty,va,jb,pb))
            e=solver_env(ctx,sym,which,{cname:cfill}); NM=e.cls.__name__; lab='%s matrix (%s)'%(NM,sym); ET=e.ET; fname=getattr(e.B.backend_lib,cname)
            ctx.function('traceon/solver.py:Solver.get_matrix','every block of rows is filled from the data of this solver; in radial symmetry the diagonal is the self term of its type; other entries untouched','contract'); ctx.function('traceon/backend/__init__.py:'+cname,'arguments passed on unchanged, its own rows only','contract')
            zeros=e.L.np.extra['zeros']; e.L.np.extra['zeros']=lambda shape,dtype=float,**k: Mat(shape[0]) if isinstance(shape,tuple) and len(shape)==2 and all(isinstance(x,S) and not T.isc(x.t) for x in shape) and T.eq(tt(shape[0]),tt(shape[1])) is T.TRUE else zeros(shape,dtype,**k)
            fin=e.L.np.extra['isfinite']; e.L.np.extra['isfinite']=lambda a: True if isinstance(a,Mat) else fin(a)
            if e.radial: selfterms(e)
            chunks=[]
            def split(f,a):
                # contract (C28): consecutive non-empty parts, each handed over once; one arbitrary part here
                a=L_(a); lo,hi=(S(T.fresh('part','I')) for _ in range(2)); Y.assume(S(T.band(T.le(T.IZERO,lo.t),T.lt(lo.t,hi.t),T.le(hi.t,a.n)))); chunks.append((a,lo.t,hi.t)); return [f(a[lo:hi])]
            e.M.util.split_collect=split
            def go():
                chunks.clear(); s=bare(e); el=e.vs.elem
                s.vertices=e.vs.copy(); s.vertices.elem=lambda i:el(i).view(Row)
                m=s.get_matrix(); return s,m,list(chunks)
            def body():
                outs=ok(ctx,lab,explore(go,e.pre+[T.lt(T.IZERO,tt(e.N))])); kinds=set(); r,c=T.var('r','I'),T.var('c','I')
                for o in outs:
                    s,m,ch=o.val
                    if not ctx.check(lab+': a matrix, filled in parts',isinstance(m,Mat) and len(ch)==1): continue
                    a,lo,hi=ch[0]; A.prove(ctx,lab+': the parts cover all rows',T.eq(a.n,tt(e.N)),o.pc); A.prove(ctx,lab+': row numbers are handed out in order',T.eq(tn(a.elem(K)),K),o.pc+[A.inrange(K,a.n)])
                    A.prove(ctx,lab+': one row and column per element',T.eq(tt(m.n),tt(e.N)),o.pc)
                    fl=[q for q in m.log if q[0]=='fill']
                    if not ctx.check(lab+': each part is filled once',len(fl)==1): continue
                    _,nm,fa,fb,args=fl[0]; ctx.check(lab+': filled by the routine of its symmetry',nm==cname)
                    want=(s.vertices,s.excitation_types,s.excitation_values,s.jac_buffer,s.pos_buffer)
                    for w,x,y in zip(('vertices','types','values','quadrature weights','quadrature points'),args,want): ctx.check(lab+': %s of this solver'%w,x is y)
                    inr=[A.inrange(r,tt(e.N)),A.inrange(c,tt(e.N))]
                    A.prove(ctx,lab+': exactly the rows of its part are filled',T.band(T.eq(fa,lo),T.eq(fb,T.sub(hi,T.IONE))),o.pc)
                    st=[q for q in m.log if q[0]!='fill']
                    if not e.radial: ctx.check(lab+': the diagonal is not overwritten in 3D',not st); continue
                    gs=generic(o); covered(ctx,lab,o,gs,e.N)
                    for g in gs:
                        mine=[q for q in st if q[0] is g]
                        if not ctx.check(lab+': the diagonal entry of every row is stored',len(mine)==1): continue
                        _,x,y,v=mine[0]; A.prove(ctx,lab+': the diagonal entry',T.band(T.eq(x,g),T.eq(y,g)),o.pc)
                        row=[tr(z) for z in np.ravel(e.vs.elem(g))]; t=tn(s.excitation_types.elem(g)); val=tr(s.excitation_values.elem(g))
                        types=(ET.VOLTAGE_FIXED,ET.VOLTAGE_FUN,ET.DIELECTRIC) if which=='electrostatic' else(ET.MAGNETOSTATIC_POT,ET.MAGNETIZABLE)
                        for k in types:
                            pc=o.pc+[T.eq(t,T.I(int(k)))]
                            if not P.feasible(pc): continue
                            kinds.add(int(k)); w=T.sub(T.fun('free_int_self_field_dot_normal_radial',T.R(-1),T.R(1),*row,val),T.ONE) if k in(ET.DIELECTRIC,ET.MAGNETIZABLE) else T.fun('free_int_self_potential_radial',T.R(-1),T.R(1),*row)
                            A.prove_eq(ctx,lab+': self term of type %s'%k.name,[S(v)],[S(w)],pc)
                if e.radial: ctx.check(lab+': every type occurs',len(kinds)==(3 if which=='electrostatic' else 2),str(kinds))
                A.events(ctx,lab,[types_ns(events=[ev for ev in o.events],pc=o.pc) for o in outs])
            ctx.attempt(lab,body)
class Callable_:
    def __init__(s,fn,user_data=None): s.fn=fn; s.user=user_data
def selfterms(e):
    """quad integrates the C integrand (its contract: v_self_radial) with the given data between its limits."""
    def quad(f,a,b,*r,**k):
        if not isinstance(f,Callable_): raise Unsupported('integrand')
        nm=f.fn.name; u=f.user
        while isinstance(u,PtrTo): u=u.target
        if nm=='self_potential_radial': args=[tr(x) for x in np.ravel(mem12(u))]
        else: 
            if not hasattr(u,'line_points'): raise ValueError('integrand arguments')
            args=[tr(x) for x in np.ravel(mem12(u.line_points.target))]+[tr(u.K)]
        return (S(T.fun('free_int_'+nm,tr(a),tr(b),*args)),0.0)
    e.B.quad=quad; e.B.LowLevelCallable=Callable_
def mem12(a):
    if not isinstance(a,np.ndarray) or a.size!=12 or a.shape!=(4,3): raise ValueError('integrand data')
    return a
# ------------------------------------------------------------------ solving
def linsolve(e,log):
    def solve(mat,B):
        B=L_(B)
        if len(B.tail)!=1: raise Unsupported('right-hand sides')
        log.append((mat,B)); n=len(log)
        Y.cur.events.append(('same length',T.eq(B.n,tt(mat.n)),list(Y.cur.pc)))
        return A.SArr(B.n,B.tail,lambda i:np.array([S(T.fun('free_sol%d_%d'%(n,c),i)) for c in range(B.tail[0])],object),float)
    la=type('LA',(Y.Linalg,),dict(norm=staticmethod(A.s_norm),solve=staticmethod(solve)))(); e.L.np.extra['linalg']=la
def v_solve(ctx):
    """Solver.solve_matrix, charges_to_field: the k-th field carries the solution for the k-th right-hand side."""
    for sym in('RADIAL','THREE_D'):
        for which in('electrostatic','magnetostatic'):
            for m in(None,1,3):
                e=solver_env(ctx,sym,which); NM=e.cls.__name__; lab='%s.solve_matrix (%s, %s)'%(NM,sym,'own right-hand side' if m is None else '%d right-hand sides'%m)
                ctx.function('traceon/solver.py:Solver.solve_matrix','k-th field has the solution of the linear system for the k-th right-hand side; empty charges without elements','contract'); ctx.function('traceon/solver.py:%s.charges_to_field'%NM,'charges go to the slot of their kind','contract')
                log=[]; linsolve(e,log); F=[A.arr('F%d'%q,e.N) for q in range(m or 1)]; fin=e.L.np.extra['isfinite']; e.L.np.extra['isfinite']=lambda a: True if isinstance(a,A.Cols) else fin(a)
                def go():
                    log.clear(); s=bare(e); s.cc=e.M.EffectivePointCharges.__new__(e.M.EffectivePointCharges); cc=A.arr('curq',X('ncur','I')); s.cc.charges=cc; s.cc.jacobians=A.arr('curj',X('ncur','I'),(NQ3,)); s.cc.positions=A.arr('curp',X('ncur','I'),(NQ3,3))
                    if which=='magnetostatic' and e.radial: s.current_charges=s.cc
                    mt=Mat(e.N); s.get_matrix=lambda:mt; s.get_right_hand_side=lambda:F[0]
                    r=s.solve_matrix() if m is None else s.solve_matrix(e.L.np.array(F)); return s,mt,r,list(log)
                def body():
                    outs=ok(ctx,lab,explore(go,e.pre)); zero=nonzero=0
                    for o in outs:
                        s,mt,r,lg=o.val
                        if not ctx.check(lab+': one field per right-hand side',isinstance(r,list) and len(r)==(m or 1)): continue
                        empty=P.prove_bool(T.eq(tt(e.N),T.IZERO),o.pc).status=='proved'
                        if empty: zero+=1
                        else:
                            nonzero+=1
                            if not ctx.check(lab+': one linear system',len(lg)>=1 and all(q[0] is mt for q in lg)): continue
                        for k,f in enumerate(r):
                            ctx.check(lab+': field %d has the symmetry of the solver'%k,type(f) is getattr(e.M,'FieldRadialBEM' if e.radial else 'Field3D_BEM'))
                            el,mg,cu=f.electrostatic_point_charges,f.magnetostatic_point_charges,f.current_point_charges
                            own,other=(el,mg) if which=='electrostatic' else(mg,el)
                            A.prove(ctx,lab+': field %d: nothing in the other slot'%k,T.eq(L_(other.charges).n,T.IZERO),o.pc)
                            if which=='magnetostatic' and e.radial: ctx.check(lab+': field %d: the currents of the solver'%k,cu is s.cc)
                            else: A.prove(ctx,lab+': field %d: no currents'%k,T.eq(L_(cu.charges).n,T.IZERO),o.pc)
                            q=L_(own.charges); A.prove(ctx,lab+': field %d: one charge per element'%k,T.eq(q.n,tt(e.N)),o.pc)
                            if empty: continue
                            pc=o.pc+[A.inrange(K,tt(e.N))]; t=tr(q.elem(K))
                            us=[u for u in T.walk([t]) if u.op=='f' and str(u.args[0]).startswith('free_sol')]
                            if not ctx.check(lab+': field %d: its charges are a solution'%k,len(us)==1): continue
                            sn,sc=us[0].args[0][8:].split('_'); B=lg[int(sn)-1][1]
                            ctx.zero(lab+': field %d: charge of each element'%k,T.sub(t,T.fun(us[0].args[0],K)),pc)
                            A.prove_eq(ctx,lab+': field %d: the solution for its right-hand side'%k,[B.elem(K)[int(sc)]],[F[k].elem(K)],pc)
                            A.prove_eq(ctx,lab+': field %d: quadrature weights of the elements'%k,np.ravel(L_(own.jacobians).elem(K)),np.ravel(s.jac_buffer.elem(K)),pc)
                            A.prove_eq(ctx,lab+': field %d: quadrature points of the elements'%k,np.ravel(L_(own.positions).elem(K)),np.ravel(s.pos_buffer.elem(K)),pc)
                    ctx.check(lab+': with and without elements',zero>0 and nonzero>0)
                    A.events(ctx,lab,outs)
                ctx.attempt(lab,body)
def v_split(ctx):
    """Excitation._split_for_superposition: per group with a non-zero potential or current, that group at one, the others at zero, materials kept."""
    for sym,kinds in(('RADIAL','VVDIIPM'),('RADIAL','MPIDV'),('THREE_D','DVPMV')):
        L=loader(); E=L.get('traceon.excitation'); ET=E.ExcitationType; m=object(); lab='_split_for_superposition (%s, %s)'%(sym,kinds); ctx.function(W+'Excitation._split_for_superposition','unit value for its own group, zero for the other groups, materials kept, original untouched','contract')
        KT={'V':ET.VOLTAGE_FIXED,'D':ET.DIELECTRIC,'I':ET.CURRENT,'P':ET.MAGNETOSTATIC_POT,'M':ET.MAGNETIZABLE}
        def go():
            x=E.Excitation.__new__(E.Excitation); x.mesh=m; x.symmetry=getattr(E.Symmetry,sym); x.electrodes=['g']; x.excitation_types={'g%d'%i:(KT[k],X('v%d'%i)) for i,k in enumerate(kinds)}; t0=dict(x.excitation_types)
            def init(s,mesh,symmetry): s.mesh=mesh; s.electrodes=['g']; s.excitation_types={}; s.symmetry=symmetry
            E.Excitation.__init__=init; return x,t0,x._split_for_superposition()
        def body():
            n=0
            for o in ok(ctx,lab,explore(go,[])):
                x,t0,r=o.val; n+=1; ctx.check(lab+': the excitation is not modified',x.excitation_types==t0 and all(x.excitation_types[q][1] is t0[q][1] for q in t0))
                for q,(t,v) in t0.items():
                    nz=t in(ET.VOLTAGE_FIXED,ET.CURRENT,ET.MAGNETOSTATIC_POT)
                    if not nz: ctx.check(lab+': no response for a material',q not in r); continue
                    g=T.eq(tr(v),T.ZERO)
                    if q in r: ctx.true(lab+': a response only for non-zero values',T.bnot(g),o.pc)
                    else: ctx.true(lab+': a response for every non-zero value',g,o.pc)
                for q,s in r.items():
                    if not ctx.check(lab+': an excitation of the same groups',isinstance(s,E.Excitation) and s.mesh is m and s.symmetry==x.symmetry and set(s.excitation_types)==set(t0) and s is not x): continue
                    for h,(t,v) in t0.items():
                        t2,v2=s.excitation_types[h]; w=v if t in(ET.DIELECTRIC,ET.MAGNETIZABLE) else S(T.ONE if h==q else T.ZERO)
                        ctx.check(lab+': same type',t2==t); ctx.zero(lab+': response of %s: value of %s'%(KT and q,h),T.sub(tr(v2),tr(w)),o.pc)
            ctx.check(lab+': all combinations of zero values',n==2**len([k for k in kinds if k in 'VIP']),str(n))
        ctx.attempt(lab,body)
    L=loader(); E=L.get('traceon.excitation'); lab='_split_for_superposition (voltage function)'
    def fun():
        x=E.Excitation.__new__(E.Excitation); x.mesh=None; x.symmetry=E.Symmetry.RADIAL; x.electrodes=[]; x.excitation_types={'a':(E.ExcitationType.VOLTAGE_FIXED,2.0),'b':(E.ExcitationType.VOLTAGE_FUN,lambda x,y,z:x)}
        E.Excitation.__init__=lambda s,mesh,symmetry:s.__dict__.update(mesh=mesh,symmetry=symmetry,electrodes=[],excitation_types={})
        return x._split_for_superposition()
    ctx.attempt(lab,lambda: [ctx.check(lab+': refused',o.kind=='raise' and isinstance(o.val,AssertionError)) for o in explore(fun,[])])
def v_direct(ctx):
    """solve_direct and solve_direct_superposition over the contracts of the solvers and of the splitting."""
    for sym in('RADIAL','THREE_D'):
        for kinds in('V','VD','P','I','VI','DVPMI','M','VP','VV','IIP','VVIIPP'):
            if sym!='RADIAL' and 'I' in kinds: continue
            for low in((False,True) if sym=='RADIAL' else(False,)):
                L=full_loader(ctx.unit(),SUMS())[0]; L.stub('scipy.interpolate',CubicSpline=Y.OpaqueFn('CubicSpline'),BPoly=Y.OpaqueFn('BPoly'),PPoly=Y.OpaqueFn('PPoly')); L.stub('scipy.constants',m_e=1.,e=1.,mu_0=1.,epsilon_0=1.)
                E=L.get('traceon.excitation'); M=L.get('traceon.solver'); ET=E.ExcitationType; KT={'V':ET.VOLTAGE_FIXED,'D':ET.DIELECTRIC,'I':ET.CURRENT,'P':ET.MAGNETOSTATIC_POT,'M':ET.MAGNETIZABLE}
                lab='(%s, %s%s)'%(sym,kinds,', first-order mesh' if low else ''); ctx.function('traceon/solver.py:solve_direct','the electrostatic field, the magnetostatic field, or their sum','contract'); ctx.function('traceon/solver.py:solve_direct_superposition','per group, the solution of the full system for the right-hand side of the unit excitation','contract'); ctx.function('traceon/solver.py:_excitation_to_higher_order','a copy with the higher order mesh','contract')
                class MeshT:
                    def __init__(s,hi,src=None,tok=None): s.hi=hi; s.src=src; s.tok=tok or object()
                    def is_2d(s): return sym=='RADIAL'
                    def is_3d(s): return sym!='RADIAL'
                    def is_higher_order(s): return s.hi
                    def _to_higher_order_mesh(s): return MeshT(True,s,s.tok)
                class Sol:
                    def __init__(s,kind,ex,rhs,cur): s.kind=kind; s.ex=ex; s.rhs=rhs; s.current_point_charges=cur
                    def __add__(s,o): return ('sum',s,o)
                def solver(kind):
                    class So:
                        def __init__(s,ex): s.ex=ex; s.current_charges=('currents of',ex)
                        def get_right_hand_side(s): r=np.empty(1,object); r[0]=s; return r
                        def solve_matrix(s,rhs=None): return [Sol(kind,s.ex,x,s.current_charges) for x in([(s.get_right_hand_side())] if rhs is None else rhs)]
                    return So
                M.ElectrostaticSolver,M.MagnetostaticSolver=SE,SM=solver('e'),solver('m')
                def make():
                    x=E.Excitation.__new__(E.Excitation); x.mesh=MeshT(not low and sym=='RADIAL'); x.symmetry=getattr(E.Symmetry,sym); x.electrodes=[]
                    x.excitation_types={'g%d'%i:(KT[k],float(i+2)) for i,k in enumerate(kinds)}; return x
                def split(s):
                    d={}
                    for n,(t,v) in s.excitation_types.items():
                        if t in(ET.VOLTAGE_FIXED,ET.CURRENT,ET.MAGNETOSTATIC_POT): d[n]=x=E.Excitation.__new__(E.Excitation); x.__dict__.update(mesh=s.mesh,symmetry=s.symmetry,electrodes=[],excitation_types=dict(s.excitation_types),of=s,name=n)
                    return d
                E.Excitation._split_for_superposition=split
                elec,mag='V' in kinds,('P' in kinds or 'I' in kinds)
                def upgraded(ex,x): return ex.excitation_types==x.excitation_types and ex.symmetry==x.symmetry and ex.mesh.tok is x.mesh.tok and (ex.mesh.src is not None)==low and (ex.mesh.hi or sym!='RADIAL')
                def own(s,x): return s.rhs is not None and isinstance(s.rhs[0],(SE,SM)) and s.rhs[0].ex is s.ex and upgraded(s.ex,x)
                def direct():
                    x=make(); t0=dict(x.excitation_types); m0=x.mesh
                    try: r=M.solve_direct(x)
                    except AssertionError: ctx.check('solve_direct %s: refused only for an empty excitation'%lab,not elec and not mag); return
                    if elec and mag: ctx.check('solve_direct %s: sum of both fields'%lab,isinstance(r,tuple) and {r[1].kind,r[2].kind}=={'e','m'} and own(r[1],x) and own(r[2],x))
                    else: ctx.check('solve_direct %s: the field of its kind'%lab,isinstance(r,Sol) and r.kind==('e' if elec else 'm') and own(r,x))
                    ctx.check('solve_direct %s: excitation untouched'%lab,x.excitation_types==t0 and x.mesh is m0)
                ctx.attempt('solve_direct '+lab,direct)
                def sup():
                    x=make(); t0=dict(x.excitation_types); m0=x.mesh; r=M.solve_direct_superposition(x); lb='solve_direct_superposition '+lab
                    want={n:t for n,(t,v) in t0.items() if t in(ET.VOLTAGE_FIXED,ET.CURRENT,ET.MAGNETOSTATIC_POT)}
                    ctx.check(lb+': one field per group',set(r)==set(want)); ctx.check(lb+': excitation untouched',x.excitation_types==t0 and x.mesh is m0)
                    for n,s in r.items():
                        k='e' if want[n]==ET.VOLTAGE_FIXED else 'm'
                        if not ctx.check(lb+': %s: a solution of its kind'%n,isinstance(s,Sol) and s.kind==k): continue
                        ctx.check(lb+': %s: the system of the whole excitation'%n,upgraded(s.ex,x)); q=np.ravel(s.rhs)[0]
                        ctx.check(lb+': %s: the right-hand side of its unit excitation'%n,isinstance(q,SE if k=='e' else SM) and getattr(q.ex,'name',None)==n and upgraded(q.ex.of,x))
                        if k=='m': ctx.check(lb+': %s: the currents of its unit excitation'%n,s.current_point_charges==('currents of',q.ex))
                ctx.attempt('solve_direct_superposition '+lab,sup)
def v_recombine(ctx):
    """lemma: the right-hand sides of the unit excitations, weighted with the original values, add up to the right-hand side of the
    whole excitation, and all systems have the same matrix; hence (uniqueness of the solution) the weighted fields add up too."""
    ctx.function('lemma superposition','sum of weighted right-hand sides','lemma'); n=3; v=[T.var('v%d'%i) for i in range(n)]
    for g in range(n):
        # a potential row of group g: value v_g in the whole excitation, 1 or 0 in the unit excitations (zero-valued groups have none)
        for zero in([],[g],[(g+1)%n]):
            pc=[T.eq(v[z],T.ZERO) for z in zero]+[T.bnot(T.eq(v[z],T.ZERO)) for z in range(n) if z not in zero]
            ctx.zero('lemma superposition: potential rows (group %d, zero groups %s)'%(g,zero),T.sub(T.add(T.ZERO,*[T.mul(v[q],T.ONE if q==g else T.ZERO) for q in range(n) if q not in zero]),v[g]),pc)
    # magnetizable rows: minus factor times normal component of the current field, linear in the source strengths I_n/area
    N=[T.var('n%d'%i,'I') for i in range(n)]; a=[T.var('area%d'%i) for i in range(n)]; f=T.var('factor')
    H=lambda I,c:T.add(*[(lambda k:T.Sum(k,T.IZERO,N[i],T.mul(T.mul(I[i],T.power(a[i],-1)),T.fun('free_ring_%d'%c,T.I(i),k))))(T.fresh('k','I')) for i in range(n)])
    nr=[T.var('nr'),T.var('nz')]; row=lambda I:T.neg(T.mul(f,T.add(T.mul(nr[0],H(I,0)),T.mul(nr[1],H(I,2)))))
    unit=lambda q:[T.ONE if i==q else T.ZERO for i in range(n)]
    ctx.attempt('lemma superposition: magnetizable rows',lambda: ctx.zero('lemma superposition: magnetizable rows',T.sub(T.add(*[T.mul(v[q],row(unit(q))) for q in range(n)]),row(v)),[T.lt(T.ZERO,x) for x in a]))
    # dielectric rows are zero in all of them
    ctx.zero('lemma superposition: dielectric rows',T.add(*[T.mul(v[q],T.ZERO) for q in range(n)]),[])
# ------------------------------------------------------------------ charge on elements
def v_charge(ctx):
    """area_of_element(s), charge_on_element(s)."""
    from .pyfield import mkbem
    L,B,lib=full_loader(ctx.unit(),SUMS()); M=L.get('traceon.solver')
    for kind in('radial','3d'):
        nm='FieldRadialBEM' if kind=='radial' else 'Field3D_BEM'; f,pre=mkbem(M,kind,'f'); c=f.electrostatic_point_charges; N=L_(c.charges).n; nq=NQ2 if kind=='radial' else NQ3
        nidx=X('nidx','I'); idx=A.arr('idx',nidx,(),np.int64); idx.__dict__.setdefault('_rng',None); pre=pre+[T.le(T.IZERO,tt(nidx))]
        RNG['free_idx_0']=tt(N)
        def area(i):
            j,p=c.jacobians.elem(i),c.positions.elem(i)
            if kind=='radial': return T.mul(T.mul(T.R(2),T.PI),T.add(*[T.mul(tr(j[k]),tr(p[k][0])) for k in range(nq)]))
            return T.add(*[tr(j[k]) for k in range(nq)])
        i=X('e','I'); pi=pre+[A.inrange(tt(i),N)]
        one={'area_of_element':lambda k:area(k),'charge_on_element':lambda k:T.mul(area(k),tr(c.charges.elem(k)))}
        for fn,w in one.items():
            d='area: quadrature weights of the element'+(' times 2 pi r' if kind=='radial' else '')
            ctx.function('traceon/solver.py:%s.%s'%(nm,fn),d if fn[0]=='a' else 'charge density times area','contract'); lab='%s.%s'%(nm,fn)
            def go():
                for o in ok(ctx,lab,explore(lambda:getattr(f,fn)(i),pi)): ctx.zero(lab,T.sub(tr(o.val),w(tt(i))),o.pc)
            ctx.attempt(lab,go)
        for fn,w in(('area_of_elements','area_of_element'),('charge_on_elements','charge_on_element')):
            ctx.function('traceon/solver.py:%s.%s'%(nm,fn),'sum of %s over the given indices'%w,'contract'); lab='%s.%s'%(nm,fn)
            def go():
                v=T.fresh('a','I'); want=T.Sum(v,T.IZERO,tt(nidx),one[w](tn(idx.elem(v))))
                outs=ok(ctx,lab,explore(lambda:getattr(f,fn)(idx),pre))
                ctx.check(lab+': defined for every list of indices',bool(outs))
                for o in outs: ctx.zero(lab,T.sub(tr(o.val),want),o.pc)
                A.events(ctx,lab,outs)
            ctx.attempt(lab,go)
def v_add(ctx):
    """Excitation.add_*, add_*_boundary, has_current, is_electrostatic, is_magnetostatic."""
    import itertools
    def snap(d): return {k:v for k,v in d.items()}
    def eqv(a,b): return a is b or (isinstance(a,S) and isinstance(b,S) and tt(a) is tt(b)) or (type(a) in(int,float) and type(b) in(int,float) and a==b)
    def eqd(a,b): return list(sorted(a))==list(sorted(b)) and all(a[k][0]==b[k][0] and eqv(a[k][1],b[k][1]) for k in a)
    for sym in('RADIAL','THREE_D'):
        L=loader(); M,E,m,pre,sy=setup(L,sym); T_=E.ExcitationType; names=[n for n in('va','vb','fu','di','mp','mz')]
        f=FN('vfun',1,3); flipped=[]; m.ensure_inward_normals=lambda e:flipped.append(e)
        single=[('add_voltage',T_.VOLTAGE_FIXED,X('q1')),('add_voltage',T_.VOLTAGE_FIXED,0),('add_voltage',T_.VOLTAGE_FUN,f),('add_magnetostatic_potential',T_.MAGNETOSTATIC_POT,X('q2')),('add_magnetizable',T_.MAGNETIZABLE,X('q3')),('add_dielectric',T_.DIELECTRIC,X('q4'))]+([('add_current',T_.CURRENT,X('q5'))] if sym=='RADIAL' else [])
        for meth,ty,val in single:
            lab='Excitation.%s (%s%s)'%(meth,sym,', function' if val is f else ''); ctx.function(W+'Excitation.'+meth,'each named group gets exactly this type and value, later assignments replace earlier ones, other groups keep theirs; unknown names are rejected','contract')
            for first in(None,)+tuple(s for s in single if s[0]!='add_current'):
                ns=['co'] if meth=='add_current' else ['va','di','mz']
                for n in(1,len(ns)):
                    kw={k:val for k in ns[:n]}
                    def go():
                        x=E.Excitation(m,sy)
                        if first is not None: getattr(x,first[0])(va=first[2],vb=first[2])
                        before=snap(x.excitation_types); r=getattr(x,meth)(**kw); return before,x,r
                    def body():
                        for o in ok(ctx,lab,explore(go,pre)):
                            b,x,r=o.val; want=dict(b); want.update({k:(ty,val) for k in kw})
                            ctx.check(lab+' after %s, %d names: exactly these entries'%(first and first[0],n),eqd(x.excitation_types,want),repr(x.excitation_types)[:300])
                            ts=[t for t,_ in want.values()]
                            ctx.check(lab+' after %s, %d names: has_current, is_electrostatic, is_magnetostatic'%(first and first[0],n),bool(x.has_current())==(T_.CURRENT in ts) and bool(x.is_electrostatic())==any(t in(T_.VOLTAGE_FIXED,T_.VOLTAGE_FUN) for t in ts) and bool(x.is_magnetostatic())==any(t in(T_.MAGNETOSTATIC_POT,T_.CURRENT) for t in ts))
                    ctx.attempt(lab,body)
            def bad():
                x=E.Excitation(m,sy); getattr(x,meth)(nope=val)
            def bodyb():
                outs=explore(bad,pre); ctx.check(lab+': a name that is not in the mesh is rejected',bool(outs) and all(o.kind=='raise' and isinstance(o.val,AssertionError) for o in outs),str([(o.kind,o.val) for o in outs])[:300])
            ctx.attempt(lab+' unknown name',bodyb)
        for meth,ty in(('add_electrostatic_boundary',T_.DIELECTRIC),('add_magnetostatic_boundary',T_.MAGNETIZABLE)):
            lab='Excitation.%s (%s)'%(meth,sym); ctx.function(W+'Excitation.'+meth,'the named groups become a dielectric (magnetizable) of constant zero, their normals are made inward exactly when asked','contract')
            for ns in((),('va',),('mz','va','di')):
                for flag in(None,True,False):
                    def go():
                        del flipped[:]; x=E.Excitation(m,sy); x.add_voltage(vb=X('q')); before=snap(x.excitation_types)
                        import contextlib,io
                        with contextlib.redirect_stdout(io.StringIO()): getattr(x,meth)(*ns,**({} if flag is None else dict(ensure_inward_normals=flag)))
                        return before,x,list(flipped)
                    def body():
                        for o in ok(ctx,lab,explore(go,pre)):
                            b,x,fl=o.val; want=dict(b); want.update({k:(ty,0) for k in ns})
                            ctx.check(lab+' %s, %s: exactly these entries'%(ns,flag),eqd(x.excitation_types,want),repr(x.excitation_types)[:300])
                            ctx.check(lab+' %s, %s: normals made inward exactly when asked'%(ns,flag),sorted(set(fl))==(sorted(ns) if flag is not False else []),repr(fl))
                    ctx.attempt(lab,body)
