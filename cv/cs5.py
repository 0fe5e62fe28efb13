"""Contracts of tracing, plane intersection and adaptive integration."""
from .cs import *
from .cs import _once
from .cs3 import lorentz,mu0c,rd
from .inv import Invariant
from . import term as T, prove as P
import math

# ------------------------------------------------------------------ field selection (C12, C13)
def tagname(eng,a):
    if isinstance(a,Ptr): return T.var('&%s+%s'%(eng.objs[a.obj].name,T.show(a.off,3)))
    if isinstance(a,Null): return T.var('&NULL')
    return T.R(eng.num(a))
def c_field(name):
    """opaque field: a function of the point and of the identity of the source arrays."""
    def c(eng,st,args):
        pt=vec(eng,st,args[0],3); tags=[tagname(eng,a) for a in args[2:]]
        store(eng,st,args[1],[T.fun('%s_%d'%(name,i),*pt,*tags) for i in range(3)])
    return c
FIELDS={n:c_field(n) for n in('field_radial','field_3d','current_field','field_radial_derivs','field_3d_derivs')}
def c_lorentz(mu0):
    def c(eng,st,args):
        v,e,m,k=[vec(eng,st,a,3) for a in args[:4]]; store(eng,st,args[4],lorentz(mu0,v,e,m,k))
    return c
PT=[T.sel('point',T.I(i)) for i in range(6)]
def F(name,*tags): return [T.fun('%s_%d'%(name,i),*PT[:3],*tags) for i in range(3)]
def eff(R,pre,sty):
    """struct of (charges, jacobians, positions, N)."""
    N=T.var(pre+'N','I'); arrs=[R.arr(pre+x,None) if False else R.arr(pre+x,T.var(pre+x+'size','I')) for x in('q','j','p')]
    o=R.out(pre+'eff',4,('struct',sty))
    for i,a in enumerate(arrs): R.st.mem[o.obj][i]=a
    R.st.mem[o.obj][3]=N
    return o,[tagname(R.eng,a) for a in arrs]+[T.R(N)]
def v_bounded(ctx,which):
    f='field_%s_traceable'%which
    for bounded in(False,True):
        if not _once(ctx,f+str(bounded)): continue
        def go():
            mu0=mu0c(ctx); R=Run(ctx,own={**FIELDS,'combine_elec_magnetic_field':c_lorentz(mu0)}); pt=R.arr('point',6); ro=R.out('result',3)
            sty='effective_point_charges_2d' if which=='radial' else 'effective_point_charges_3d'
            e,te=eff(R,'e',sty); m,tm=eff(R,'m',sty); c,tc=eff(R,'c','effective_point_charges_3d')
            a=R.out('args',4,('struct','field_evaluation_args')); b=R.arr('bounds',6)
            for i,v in enumerate((e,m,c if which=='radial' else NULL,b if bounded else NULL)): R.st.mem[a.obj][i]=v
            base='field_radial' if which=='radial' else 'field_3d'
            E_,M_=F(base,*te),F(base,*tm); C_=F('current_field',*tc) if which=='radial' else [T.ZERO]*3
            want=lorentz(mu0,PT[3:],E_,M_,C_)
            B=lambda i,j:T.sel('bounds',T.I(2*i+j))
            inside=[T.lt(B(i,0),PT[i]) for i in range(3)]+[T.lt(PT[i],B(i,1)) for i in range(3)]
            out=[T.lt(PT[i],B(i,0)) for i in range(3)]+[T.lt(B(i,1),PT[i]) for i in range(3)]
            ps=R.run(f,pt,ro,a); nin=nout=0
            for p in ps:
                if p.outcome!='return': continue
                for k in range(3):
                    v=getmem(p,ro,k)
                    if not isinstance(v,T.T): ctx.rec(f+': result written','unsupported','engine',''); continue
                    if not bounded: ctx.zero(f+' (no bounds): component %d is E + v x mu0 (H_charges + H_currents)'%k,v-want[k],p.pc); nin=1
                    else:
                        if P.feasible(list(p.pc)+inside): ctx.zero(f+' (bounds): strictly inside, component %d is the unbounded force field'%k,v-want[k],list(p.pc)+inside); nin=1
                        for j,o in enumerate(out):
                            if P.feasible(list(p.pc)+[o]): ctx.zero(f+' (bounds): %s %s bound, component %d is exactly zero'%('below' if j<3 else 'above','xyz'[j%3],k),v,list(p.pc)+[o]); nout=1
            ctx.check(f+': both regions are reachable (%s)'%('bounds' if bounded else 'no bounds'),nin and (nout or not bounded))
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
def v_axial_traceable(ctx,which):
    f='field_%s_derivs_traceable'%which
    if not _once(ctx,f): return
    def go():
        mu0=mu0c(ctx); R=Run(ctx,own={**FIELDS,'combine_elec_magnetic_field':c_lorentz(mu0)}); pt=R.arr('point',6); ro=R.out('field',3)
        z,e,m=[R.arr(n,T.var(n+'size','I')) for n in('zz','ee','mm')]; N=T.var('Nz','I')
        a=R.out('args',4,('struct','field_derivs_args'))
        for i,v in enumerate((z,e,m,N)): R.st.mem[a.obj][i]=v
        base='field_%s_derivs'%which; t=lambda x:tagname(R.eng,x)
        want=lorentz(mu0,PT[3:],F(base,t(z),t(e),T.R(N)),F(base,t(z),t(m),T.R(N)),[T.ZERO]*3)
        for p in R.run(f,pt,ro,a):
            for k in range(3): ctx.zero(f+': component %d is E + v x mu0 H of the interpolated fields'%k,getmem(p,ro,k)-want[k],p.pc)
        ctx.vcs(f,R.eng)
    ctx.attempt(f,go)
def v_dispatch(ctx):
    """trace_particle_* start the common tracer with their own force function and arguments."""
    def cell(st,p,k): return st.mem[p.obj].get(k)
    def run(f,mk,fn,check):
        if not _once(ctx,f): return
        def go():
            seen=[]
            def c(eng,st,args): seen.append((st.copy(),list(args))); return T.var('ntraced','I')
            R=Run(ctx,own={'trace_particle':c}); t,po,b=R.arr('times',T.var('tn','I')),R.arr('posn',T.var('pn','I')),R.arr('tb',6,('arr',D,2)); atol=T.var('atol')
            args,exp=mk(R,t,po,b,atol)
            ps=R.run(f,*args)
            ctx.check(f+': calls the tracer once',len(seen)==1)
            st,a=seen[0]
            same=lambda x,y: isinstance(x,Ptr) and isinstance(y,Ptr) and x.same(y)
            ctx.check(f+': passes times, positions, tracer bounds and tolerance through',same(a[0],t) and same(a[1],po) and same(a[3],b) and a[4] is atol)
            ctx.check(f+': uses '+fn,isinstance(a[2],FnPtr) and a[2].name==fn)
            check(R,st,a[5],exp)
            for p in ps: ctx.check(f+': returns the number of samples',p.ret is T.var('ntraced','I'))
        ctx.attempt(f,go)
    def sval(R,pre):
        arrs=[R.arr(pre+x,T.var(pre+x+'n','I')) for x in('q','j','p')]; N=T.var(pre+'N','I')
        return SVal({0:arrs[0],1:arrs[1],2:arrs[2],3:N}),arrs+[N]
    def eqv(x,y): return x is y or (isinstance(x,Ptr) and isinstance(y,Ptr) and x.same(y)) or (isinstance(x,Null) and isinstance(y,Null))
    def bem(f,fn,order,n):
        def mk(R,t,po,b,atol):
            e,el=sval(R,'e'); m,ml=sval(R,'m'); c,cl=sval(R,'c'); fb=R.arr('fb',6)
            if n==3: return [t,po,b,atol,fb,e,m,c],(el,ml,cl,fb)
            return [t,po,b,atol,e,m,fb],(el,ml,None,fb)
        def check(R,st,ap,exp):
            for k,nm in((0,'electrostatic'),(1,'magnetostatic'),(2,'current')):
                if exp[k] is None: continue
                p=cell(st,ap,k); got=[cell(st,p,int(T.cv(p.off))+j) for j in range(4)]
                ctx.check(f+': the %s sources are passed unchanged'%nm,all(eqv(x,y) for x,y in zip(got,exp[k])))
            ctx.check(f+': the field bounds are passed unchanged',eqv(cell(st,ap,3),exp[3]))
        run(f,mk,fn,check)
    bem('trace_particle_radial','field_radial_traceable',None,3); bem('trace_particle_3d','field_3d_traceable',None,2)
    def ax(f,fn):
        def mk(R,t,po,b,atol):
            z,e,m=[R.arr(n,T.var(n+'size','I')) for n in('zz','ee','mm')]; N=T.var('Nz','I'); return [t,po,b,atol,z,e,m,N],(z,e,m,N)
        def check(R,st,ap,exp): ctx.check(f+': tables are passed unchanged (electrostatic, magnetostatic)',all(eqv(cell(st,ap,k),exp[k]) for k in range(4)))
        run(f,mk,fn,check)
    ax('trace_particle_radial_derivs','field_radial_derivs_traceable'); ax('trace_particle_3d_derivs','field_3d_derivs_traceable')

# ------------------------------------------------------------------ Runge-Kutta-Fehlberg (C10, C11)
BT=[[],[Fr(2,9)],[Fr(1,12),Fr(1,4)],[Fr(69,128),Fr(-243,128),Fr(135,64)],[Fr(-17,12),Fr(27,4),Fr(-27,5),Fr(16,15)],[Fr(65,432),Fr(-5,16),Fr(13,16),Fr(4,27),Fr(5,144)]]
CH=[Fr(47,450),Fr(0),Fr(12,25),Fr(32,225),Fr(1,30),Fr(6,25)]; CT=[Fr(-1,150),Fr(0),Fr(3,100),Fr(-16,75),Fr(-1,20),Fr(6,25)]
def trees(n):
    """rooted trees with n nodes as sorted tuples."""
    if n==1: return [()]
    out=set()
    def part(rem,mx,acc):
        if rem==0: out.add(tuple(sorted(acc))); return
        for k in range(min(rem,mx),0,-1):
            for t in trees(k): part(rem-k,k,acc+[t])
    part(n-1,n-1,[])
    return sorted(out)
def order(t): return 1+sum(order(c) for c in t)
def gamma(t):
    g=order(t)
    for c in t: g*=gamma(c)
    return g
def phi(t,A,i):
    r=Fr(1)
    for c in t: r*=sum((A[i][j]*phi(c,A,j) for j in range(len(A[i]))),Fr(0))
    return r
def v_tableau(ctx):
    if not _once(ctx,'tableau'): return
    for nm,b,o in(('propagating',CH,5),('embedded',[x-y for x,y in zip(CH,CT)],4)):
        for n in range(1,o+1):
            for t in trees(n):
                s=sum(b[i]*phi(t,BT,i) for i in range(6)); ok=s==Fr(1,gamma(t)); ok or (nm=='embedded' and None)
                ctx.check('tableau: %s weights satisfy the order-%d condition %s'%(nm,n,t),ok,str(s),method='exact-rational')
def v_stages(ctx):
    f='produce_new_y'
    for idx in range(6):
        if not _once(ctx,f+str(idx)): continue
        def go():
            R=Run(ctx); y=R.arr('y',6); ys=R.out('ys',36,('arr',D,6)); ks=R.arr('ks',36,('arr',D,6))
            for p in R.run(f,y,ys,ks,idx):
                for i in range(6):
                    want=T.sel('y',T.I(i))+T.add(T.ZERO,*[T.R(b)*T.sel('ks',T.I(6*j+i)) for j,b in enumerate(BT[idx])])
                    ctx.zero(f+': stage %d, component %d = y + sum of tableau row times k'%(idx,i),getmem(p,ys,6*idx+i)-want,p.pc)
                for k in range(36):
                    if k//6!=idx and p.st.mem[ys.obj].get(k) is not None: ctx.check(f+': other stages untouched',False)
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
    f='produce_new_k'
    for idx in range(6):
        if not _once(ctx,f+str(idx)): continue
        def go():
            R=Run(ctx,own={'ff!':c_ff}); em=emc(ctx); ys=R.arr('ys',36,('arr',D,6)); ks=R.out('ks',36,('arr',D,6)); h=T.var('h')
            for p in R.run(f,ys,ks,idx,h,FnPtr('ff!'),NULL):
                Y=[T.sel('ys',T.I(6*idx+i)) for i in range(6)]; want=[h*Y[3+i] for i in range(3)]+[h*em*T.fun('FF_%d'%i,*Y) for i in range(3)]
                for i in range(6): ctx.zero(f+': stage %d, component %d is h times %s'%(idx,i,'velocity' if i<3 else '(charge/mass) times the force field'),getmem(p,ks,6*idx+i)-want[i],p.pc)
                ctx.check(f+': other stages untouched (stage %d)'%idx,set(p.st.mem[ks.obj])<=set(range(6*idx,6*idx+6)))
            ctx.vcs(f,R.eng)
        ctx.attempt(f,go)
def c_ff(eng,st,args):
    Y=vec(eng,st,args[0],6); store(eng,st,args[1],[T.fun('FF_%d'%i,*Y) for i in range(3)])
def emc(ctx):
    em=T.R(const_array(ctx,'EM',1)[0])
    if _once(ctx,'em'): ctx.check('EM is minus the electron charge to mass ratio to 1e-9',abs(T.cv(em)/Fr('-175882001077.2163')-1)<Fr(1,10**9),str(float(T.cv(em))),method='exact-rational')
    return em
def c_newy(eng,st,args):
    idx=int(T.cv(args[3])); y=vec(eng,st,args[0],6)
    K=[vec(eng,st,Ptr(args[2].obj,T.add(args[2].off,T.I(6*j)),D),6) for j in range(idx)]
    store(eng,st,Ptr(args[1].obj,T.add(args[1].off,T.I(6*idx)),D),[y[i]+T.add(T.ZERO,*[T.R(b)*K[j][i] for j,b in enumerate(BT[idx])]) for i in range(6)])
def c_newk(em):
    def c(eng,st,args):
        idx=int(T.cv(args[2])); h=T.R(args[3]); Y=vec(eng,st,Ptr(args[0].obj,T.add(args[0].off,T.I(6*idx)),D),6)
        fld=eng.new_obj(st,'fieldtmp',T.I(3)); tmp=eng.new_obj(st,'ytmp',T.I(6)); store(eng,st,Ptr(tmp,T.IZERO,D),Y)
        eng.do_call(st,args[4].name,[Ptr(tmp,T.IZERO,D),Ptr(fld,T.IZERO,D),args[5]])
        store(eng,st,Ptr(args[1].obj,T.add(args[1].off,T.I(6*idx)),D),[h*Y[3+i] for i in range(3)]+[h*em*eng.read(st,fld,T.I(i),D) for i in range(3)])
    return c
NFF={'FF_%d'%i:(lambda *a,i=i: P.mpmath.sin(sum((k+1+i)*x for k,x in enumerate(a)))) for i in range(3)}
def v_trace(ctx):
    f='trace_particle'
    if not _once(ctx,f): return
    memo={}
    def known(c,pc):
        k=(c,tuple(pc))
        if k not in memo:
            b=c is T.TRUE or P.z3_check(pc,c,4000)[0]=='unsat'
            memo[k]=True if b else (False if P.z3_check(pc,T.bnot(c),4000)[0]=='unsat' else None)
        return memo[k]
    def settle(t,pc):
        """drop the conditionals the path condition decides."""
        if not isinstance(t,T.T): return t
        top=[]
        def go(u):
            if u.op=='ite': top.append(u.args[0]); go(u.args[1]); go(u.args[2]); return
            for x in T.children(u): go(x)
        go(t)
        for c in dict.fromkeys(top):
            k=known(c,pc)
            if k is not None: t=P._assume_cond(t,c,k)
        return t
    def go():
        em=emc(ctx); R=Run(ctx,own={'ff!':c_ff,'produce_new_y':c_newy,'produce_new_k':c_newk(em)}); R.eng.domain=False; ctx.trust('atol/0 is +infinity (IEEE), so a step without error estimate continues with the maximum step')
        BS=T.I(int(T.cv(const_array(ctx,'TRACING_BLOCK_SIZE',1)[0]))); ctx.check('TRACING_BLOCK_SIZE > 1',T.cv(BS)>1)
        t=R.arr('times',BS); po=R.arr('pos',T.mul(T.I(6),BS)); b=R.arr('bounds',6,('arr',D,2)); atol=T.var('atol')
        P0=[T.sel('pos',T.I(i)) for i in range(6)]; V0=T.sqrt(sq(P0[3])+sq(P0[4])+sq(P0[5])); hmax=T.R(Fr(1,100))/V0
        R.assume(T.lt(T.ZERO,atol),T.lt(T.ZERO,sq(P0[3])+sq(P0[4])+sq(P0[5]))); ctx.vacuity(f,R.st.pc)
        roles={'N':T.IONE,**{'y%d'%i:P0[i] for i in range(6)},'h':hmax}
        hm=T.var('hmaxv'); 
        def inv(v,arrs):
            return [('1 <= number of samples < block size',T.band(T.le(T.IONE,v['N']),T.lt(v['N'],BS))),('step at most the maximum step',T.le(v['h'],hmax))]
        box=[('lower','x'),('upper','x'),('lower','y'),('upper','y'),('lower','z'),('upper','z')]
        def inb(Y): return T.band(*[T.band(T.le(T.sel('bounds',T.I(2*i)),Y[i]),T.le(Y[i],T.sel('bounds',T.I(2*i+1)))) for i in range(3)])
        posv=[None]; state={}
        def facts(hv,h,arrs,eng):
            # invariant part on the arrays: the current state is the last stored sample, the step is positive
            pv=arrs.get(po.obj); state['pv']=pv; state['tv']=arrs.get(t.obj)
            return [T.lt(T.ZERO,hv['h'])]+[T.eq(hv['y%d'%i],T.sel(pv,T.add(T.mul(T.I(6),T.sub(hv['N'],T.IONE)),T.I(i)))) for i in range(6)]
        def spec(hv):
            y=[hv['y%d'%i] for i in range(6)]; h=hv['h']; K=[]
            for j in range(6):
                Y=[y[i]+T.add(T.ZERO,*[T.R(c)*K[l][i] for l,c in enumerate(BT[j])]) for i in range(6)]
                K.append([h*Y[3+i] for i in range(3)]+[h*em*T.fun('FF_%d'%i,*Y) for i in range(3)])
            yn=[y[i]+T.add(*[T.R(CH[j])*K[j][i] for j in range(6)]) for i in range(6)]
            e=[T.add(*[T.R(CT[j])*K[j][i] for j in range(6)]) for i in range(6)]
            return y,yn,e
        def mx(a): 
            r=T.ZERO
            for x in a: r=T.ite(T.lt(r,T.fun('fabs',x)),T.fun('fabs',x),r)
            return r
        def abstract(hv):
            """replace error components and new state by variables (they occur syntactically)."""
            y,yn,e=spec(hv); m={}
            for i in range(6): m[e[i]]=T.var('err%d'%i)
            E_=[T.var('err%d'%i) for i in range(6)]; return y,yn,e,m,mx(E_[:3])+hv['h']*mx(E_[3:])
        def check_iter(hv,x,kind,ev=None):
            y,yn,e,m,es=abstract(hv); ctx.defs=[T.eq(v,x_) for x_,v in m.items()]; S=lambda q: T.subst(q,m); pc=[S(q) for q in x.pc]
            # drop facts about stored arrays, they only slow the solver down
            pc=[q for q in pc if not any(u.op=='f' and u.args[0].startswith('FF_') for u in T.walk([q]))] if not any(u.op=='f' and str(u.args[0]).startswith('FF_') for q in x.pc for u in T.walk([S(q)])) else pc
            Nh=hv['N']; seen_f=any(u.op=='f' and str(u.args[0]).startswith('FF_') for q in pc for u in T.walk([q]))
            acc=T.le(es,atol); rej=T.lt(atol,es)
            s2=x.copy(); s2.pc=pc
            R.eng.record=False
            def rdv(ptr,off): return R.eng.read(x,ptr.obj,off,D)
            # frame: only sample N is written
            for ptr,per,nm in((po,6,'position'),(t,1,'time')):
                tail=[w for w in x.log[ptr.obj][len(inv_.head_state.log[ptr.obj]):]]
                for w in tail:
                    if not hasattr(w,'off') or getattr(w,'vars',None): raise Unsupported('write form')
                    d=T.sub(w.off,T.mul(T.I(per),Nh)); ctx.check(f+' (%s): only %s sample N is written'%(kind,nm),T.isc(d) and 0<=T.cv(d)<per,T.show(w.off,4))
            new=[rdv(po,T.add(T.mul(T.I(6),Nh),T.I(i))) for i in range(6)]; tn=rdv(t,Nh); told=T.sel(state['tv'],T.sub(Nh,T.IONE)) if state['tv'] else None
            R.eng.record=True
            nxt=(ev or {})
            if kind=='return':
                ctx.true(f+': a full block is returned only after an accepted step',acc,pc)
                ctx.true(f+': the full block has exactly TRACING_BLOCK_SIZE samples',T.eq(x_ret[0],BS),pc)
            A_,B_=pc+[acc],pc+[rej]; SA=lambda q: settle(S(q),A_); SB=lambda q: settle(S(q),B_)
            if P.feasible(A_,2000):
                for i in range(6):
                    if kind=='continue': ctx.zero(f+': accepted step, component %d advances by the Runge-Kutta-Fehlberg formula'%i,SA(nxt['y%d'%i])-S(yn[i]),A_,funcs=NFF)
                    ctx.zero(f+' (%s): accepted step, stored component %d is the new state'%(kind,i),SA(new[i])-S(yn[i]),A_,funcs=NFF)
                ctx.zero(f+' (%s): accepted step, recorded time difference is the step taken'%kind,SA(tn)-(told+hv['h']),A_)
                if kind=='continue': ctx.zero(f+': accepted step adds one sample',T.R(SA(nxt['N']))-T.R(Nh)-1,A_)
            if kind=='continue' and P.feasible(B_,2000):
                ctx.zero(f+': rejected step adds no sample',T.R(SB(nxt['N']))-T.R(Nh),B_)
                for i in range(6): ctx.zero(f+': rejected step leaves component %d'%i,SB(nxt['y%d'%i])-y[i],B_)
            if kind=='continue':
                # next step: 0.9 h (atol/error)^0.2 limited by hmax, positive
                pw=[u for u in T.walk([nxt['h']]) if u.op=='f' and u.args[0]=='pow']
                posf=[T.lt(T.ZERO,S(u)) for u in pw]
                ctx.true(f+': the next step is positive',T.lt(T.ZERO,S(nxt['h'])),pc+posf+[T.lt(T.ZERO,hmax)])
                ctx.true(f+': the state used next is the last stored sample',T.band(*[T.eq(S(nxt['y%d'%i]),T.ite(acc,S(new[i]),y[i])) for i in range(6)]),pc)
            if ev is None: pass
        x_ret=[None]
        inv_=Invariant(ctx,f,roles,inv,on_end=lambda hv,ev,x: ends.append((hv,ev,x)),facts=facts); ends=[]
        R.eng.loop_handler=inv_
        ps=R.run(f,t,po,FnPtr('ff!'),b,atol,NULL)
        ctx.trust('pow(x, 0.2) is positive for positive x; a zero error estimate (atol/0 = inf) gives the maximum step')
        for hv,ev,x in ends: check_iter(hv,x,'continue',ev)
        ctx.defs=[]
        hv=inv_.head_vals; Y=[hv['y%d'%i] for i in range(6)]
        for _,_,x in ends: ctx.true(f+': a step is only taken from a state inside the bounds',inb(Y),x.pc)
        nout=0
        for p in ps:
            if len(p.st.log[po.obj])==len(inv_.head_state.log[po.obj]):
                nout+=1; ctx.zero(f+': on leaving, the number of samples stored is returned',T.sub(p.ret,hv['N']),p.pc); ctx.true(f+': on leaving, the last sample is outside the bounds',T.bnot(inb(Y)),p.pc)
            else:
                ctx.true(f+': a step is only taken from a state inside the bounds',inb(Y),p.pc)
                x_ret[0]=p.ret; check_iter(hv,p.st,'return'); ctx.defs=[]
        ctx.check(f+': the loop can be left through the bounds',nout>0)
        # entry: one sample stored, nothing written before the loop
        st0=[k for k in R.eng.vcs]
        vs=R.eng.vcs; R.eng.vcs=[]
        y,yn,e,m,es=abstract(hv); ctx.defs=[T.eq(v,x_) for x_,v in m.items()]
        from .cexec import relevant
        done=set()
        for kind,pc,g,w in vs:
            key=(g,w)
            if key in done: continue
            sp=[T.subst(q,m) for q in pc]; hard=[q for q in sp if any(u.op=='f' and str(u.args[0]).startswith('FF_') for u in T.walk([q]))]
            ctx.defs=[T.eq(v,x_) for x_,v in m.items()]+hard
            done.add(key); ctx.true('%s: %s %s'%(f,kind,w),T.subst(g,m),[q for q in sp if q not in hard])
    ctx.attempt(f,go)
