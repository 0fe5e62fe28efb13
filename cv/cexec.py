"""Symbolic executor / VC generator for the C backend.

Executes the clang AST of the real functions over terms.  Doubles are mathematical reals,
integers are mathematical integers.  Loops with a constant trip count are unrolled (complete),
other counted loops are replaced by their effect through an induction rule that is checked
here (accumulators, indexed array writes, overwritten temporaries); anything else raises
Unsupported, which the drivers report as undischarged (never as proved, never as violated).
"""
from fractions import Fraction as Fr
import math, re
from . import term as T
from . import prove as P
from .cparse import load, Unit

class Unsupported(Exception): pass

class Ptr:
    __slots__=('obj','off','ty')
    def __init__(s,obj,off,ty): s.obj=obj; s.off=off; s.ty=ty
    def __repr__(s): return 'Ptr(%s+%s)'%(s.obj,s.off)
    def same(s,o): return isinstance(o,Ptr) and s.obj==o.obj and s.off is o.off
class Null:
    def __repr__(s): return 'NULL'
NULL=Null()
class FnPtr:
    def __init__(s,name): s.name=name
class SVal:
    """struct value: slot -> value"""
    def __init__(s,cells): s.cells=cells
class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF=Undef()

class Obj:
    def __init__(s,name,size,sort='R',sym=False): s.name=name; s.size=size; s.sort=sort; s.sym=sym
class W:      # single write
    __slots__=('off','val')
    def __init__(s,off,val): s.off=off; s.val=val
class Comp:   # forall vars in ranges: array[off]=val
    __slots__=('vars','off','val','conds')
    def __init__(s,vars,off,val): s.vars=vars; s.off=off; s.val=val

class State:
    __slots__=('mem','log','pc','env','freshmap')
    def __init__(s): s.mem={}; s.log={}; s.pc=[]; s.env={}
    def copy(s):
        n=State(); n.mem={k:dict(v) for k,v in s.mem.items()}; n.log={k:list(v) for k,v in s.log.items()}; n.pc=list(s.pc); n.env=dict(s.env)
        return n

class Path:
    def __init__(s,state,ret,outcome): s.st=state; s.ret=ret; s.outcome=outcome; s.pc=state.pc

UNARY_MATH={'sqrt','log','sin','cos','asinh','fabs','tan','exp','acos','asin','atan'}

class Engine:
    def __init__(self,unit,contracts=None,unroll=70,summarize=None,keep_forks=False,branch_timeout=1000):
        self.u=unit; self.objs={}; self.n=0; self.contracts=contracts or {}; self.vcs=[]; self.unroll=unroll
        self.summarize=summarize or (lambda trip: trip>64)
        self.record=True; self.called=set(); self.inlined=set(); self.arrver={}; self.branch_timeout=branch_timeout
        self.loops=[]; self.apart={}; self.domain=True; self.gstate=None; self.loop_handler=None
        self.glob={}
    # ---- memory
    def new_obj(self,st,name,size,sort='R',sym=False):
        self.n+=1; oid='%s#%d'%(name,self.n)
        self.objs[oid]=Obj(name,size,sort,sym)
        if sym: st.log[oid]=[]
        else: st.mem[oid]={}
        return oid
    def slots(self,ty):
        k=ty[0]
        if k=='arr':
            if ty[2] is None: raise Unsupported('array without size')
            return ty[2]*self.slots(ty[1])
        if k=='struct': return sum(self.slots(self.u.ftype(f)) for f in self.fields(ty))
        return 1
    def fields(self,ty):
        key=ty[1]
        if key in self.u.structs: return self.u.structs[key]
        if key in self.u.struct_ids: return self.u.structs[self.u.struct_ids[key]]
        if key in self.local_structs: return self.local_structs[key]
        raise Unsupported('struct '+key)
    local_structs={}
    def field_off(self,ty,name):
        o=0
        for f in self.fields(ty):
            if f['name']==name: return o,self.u.ftype(f)
            o+=self.slots(self.u.ftype(f))
        raise Unsupported('field '+name)
    def vc(self,st,kind,goal,where=''):
        if not self.record or goal is T.TRUE or (kind=='real-domain' and not self.domain): return
        self.vcs.append((kind,list(st.pc),goal,where))
    def read(self,st,oid,off,ty,where=''):
        ob=self.objs[oid]
        if ty[0]=='struct':
            n=self.slots(ty)
            return SVal({k:self.read(st,oid,T.add(off,T.I(k)),('any',)) for k in range(n)})
        if ob.size is not None:
            self.vc(st,'read-in-bounds',T.band(T.le(T.IZERO,off),T.lt(off,ob.size)),'%s[%s] %s'%(ob.name,T.show(off,3),where))
        if not ob.sym:
            cells=st.mem[oid]
            if T.isc(off):
                k=int(T.cv(off))
                if k in cells: return cells[k]
                if ob.size is not None and T.isc(ob.size) and not 0<=k<T.cv(ob.size): return T.fresh('oob')
                return UNDEF
            r=None
            n=int(T.cv(ob.size))
            if n>256: raise Unsupported('symbolic index in big local')
            for k in range(n):
                v=cells.get(k)
                if v is None or isinstance(v,Undef): v=T.fresh('undef')
                if not isinstance(v,T.T): raise Unsupported('symbolic index to non scalar')
                r=v if r is None else T.ite(T.eq(off,T.I(k)),v,r)
            return r
        return self.read_log(st,oid,off,len(st.log[oid]))
    def read_log(self,st,oid,off,n):
        log=st.log[oid]; ob=self.objs[oid]
        for k in range(n-1,-1,-1):
            e=log[k]
            if isinstance(e,W):
                c=T.eq(e.off,off)
                if c is T.TRUE: return e.val
                if c is T.FALSE: continue
                if self.prove(st,T.bnot(c)): continue
                if self.prove(st,c): return e.val
                return T.ite(c,T.R(e.val) if ob.sort=='R' else e.val,self.read_log(st,oid,off,k))
            elif isinstance(e,Comp):
                m=self.match(st,e,off)
                if m is False: continue
                if m is None: raise Unsupported('read may or may not hit an indexed write to '+ob.name)
                return T.subst(e.val,m)
            elif isinstance(e,str):   # version marker: contents unknown (loop head)
                return T.sel(e,off,ob.sort)
        return T.sel(ob.name,off,ob.sort)
    def match(self,st,comp,off):
        """substitution making comp.off == off, False when provably disjoint, None unknown."""
        key=(comp.off,off)
        if key not in self.apart: self.apart[key]=T._parity(T.sub(comp.off,off))
        if self.apart[key]: return False
        ms=self.solve_off(comp.off,[v for v,_,_ in comp.vars],off,{v:(lo,hi) for v,lo,hi in comp.vars})
        if ms is not None:
            rng=T.band(*[T.band(T.le(lo_,ms[v]),T.lt(ms[v],hi_)) for v,lo_,hi_ in [(v,T.subst(lo,ms),T.subst(hi,ms)) for v,lo,hi in comp.vars]])
            if self.prove(st,rng): return ms
            if self.prove(st,T.bnot(rng)): 
                return False if self.unique(comp) else None
        fr={v:T.fresh('q','I') for v,_,_ in comp.vars}
        cond=T.band(*[T.band(T.le(T.subst(lo,fr),fr[v]),T.lt(fr[v],T.subst(hi,fr))) for v,lo,hi in comp.vars],T.eq(T.subst(comp.off,fr),off))
        if self.prove(st,T.bnot(cond)): return False
        return None
    def unique(self,comp): return True
    def solve_off(self,pat,vs,off,rng):
        """solve pat(vs)==off for integer vs, pat linear in vs with coefficients c_k (terms)."""
        d={}
        rest=T.subst(pat,{v:T.IZERO for v in vs})
        coef={}
        for v in vs:
            c=T.sub(T.subst(pat,{**{w:T.IZERO for w in vs},v:T.IONE}),rest)
            coef[v]=c
        chk=T.add(rest,*[T.mul(coef[v],v) for v in vs])
        if chk is not pat and T.sub(chk,pat) is not T.IZERO: return None
        target=T.sub(off,rest)
        ms=T.add(target,T.fresh('z0','I')).args if False else None
        terms=list(target.args) if target.op=='add' else [target]
        out={}
        def num(c): return T.isc(c)
        order=sorted(vs,key=lambda v:(-abs(T.cv(coef[v])) if num(coef[v]) else -10**18))
        remaining=terms
        for v in order:
            c=coef[v]; take=[]; rem=[]
            for t in remaining:
                q=self.tdiv(t,c)
                if q is None: rem.append(t)
                else: take.append((t,q))
            # constants: split by Euclid when numeric
            val=T.IZERO
            for t,q in take: val=T.add(val,q)
            if num(c) and T.cv(c)!=0:
                rem2=[]
                for t in rem:
                    if T.isc(t):
                        k=int(T.cv(t)); cc=int(T.cv(c))
                        q,r=divmod(k,cc)
                        val=T.add(val,T.I(q)); 
                        if r: rem2.append(T.I(r))
                    else: rem2.append(t)
                rem=rem2
            out[v]=val; remaining=rem
        if remaining and T.add(*remaining) is not T.IZERO: return None
        return out
    def tdiv(self,t,c):
        """exact symbolic quotient t/c for monomials, else None."""
        if T.isc(c):
            k=T.cv(c)
            if k==0: return None
            if T.isc(t): return None if T.cv(t)%k else T.I(T.cv(t)/k)
            if k in(1,-1): return T.mul(T.I(k),t)
            if t.op=='mul' and T.isc(t.args[0]) and T.cv(t.args[0])%k==0:
                return T.mul(T.I(T.cv(t.args[0])/k),*t.args[1:])
            return None
        fac=list(t.args) if t.op=='mul' else [t]
        cf=list(c.args) if c.op=='mul' else [c]
        for f in cf:
            if f in fac: fac.remove(f)
            else: return None
        return T.mul(T.IONE,*fac) if fac else T.IONE
    def write(self,st,oid,off,val,where=''):
        ob=self.objs[oid]
        if isinstance(val,SVal):
            for k,v in val.cells.items(): self.write(st,oid,T.add(off,T.I(k)),v)
            return
        if ob.size is not None:
            self.vc(st,'write-in-bounds',T.band(T.le(T.IZERO,off),T.lt(off,ob.size)),'%s[%s] %s'%(ob.name,T.show(off,3),where))
        if not ob.sym:
            if T.isc(off): st.mem[oid][int(T.cv(off))]=val
            else:
                n=int(T.cv(ob.size))
                if n>256: raise Unsupported('symbolic index in big local')
                for k in range(n):
                    old=st.mem[oid].get(k)
                    if old is None or isinstance(old,Undef): old=T.fresh('undef')
                    st.mem[oid][k]=T.ite(T.eq(off,T.I(k)),val,old)
        else: st.log[oid].append(W(off,val))
    def prove(self,st,goal):
        if goal is T.TRUE: return True
        if goal is T.FALSE: return False
        rel=relevant(st.pc,goal)
        return P.z3_check(rel,goal,self.branch_timeout)[0]=='unsat'
    # ---- top level
    def sym_array(self,st,name,size,sort='R'):
        oid=self.new_obj(st,name,size,sort,True)
        self.objs[oid].name=name
        return oid
    def globals_init(self,st):
        for name,n in self.u.globals.items():
            if not n.get('inner'): continue
            try: ty=self.u.type(n['type'])
            except Exception: continue
            if ty[0] not in('double','int','arr'): continue
            try:
                if ty[0]=='arr' and ty[2] is None: continue
                oid=self.new_obj(st,name,T.I(self.slots(ty)))
                st.env[n['id']]=(oid,ty)
                self.init(st,oid,T.IZERO,ty,n['inner'][0])
            except (Unsupported,KeyError): st.env.pop(n['id'],None)
    def start(self):
        st=State(); self.globals_init(st); return st
    def run(self,fname,args,st=None):
        """args: list of values.  Returns list of Paths."""
        st=st or self.start()
        if fname not in self.u.funcs: raise Unsupported('no function '+fname)
        return self.call_paths(st,fname,args)
    def call_paths(self,st,fname,args):
        f=self.u.funcs[fname]
        self.inlined.add(fname)
        params=[c for c in f.get('inner',()) if c['kind']=='ParmVarDecl']
        if len(params)!=len(args): raise Unsupported('arity of '+fname)
        saved=dict(st.env)
        for p,a in zip(params,args):
            ty=self.u.type(p['type'])
            if ty[0]=='arr': ty=('ptr',ty[1])
            oid=self.new_obj(st,p.get('name','_'),T.I(self.slots(ty)))
            st.env[p['id']]=(oid,ty)
            if ty[0]=='double' and isinstance(a,T.T): a=T.R(a)
            if isinstance(a,Ptr) and ty[0]=='ptr': a=Ptr(a.obj,a.off,ty[1] if ty[1][0] not in('void',) else a.ty)
            self.write(st,oid,T.IZERO,a)
        body=next(c for c in f['inner'] if c['kind']=='CompoundStmt')
        res=self.stmt(st,body)
        out=[]
        for s,o,v in res:
            s.env=dict(saved)
            if o in('normal','return'): out.append(Path(s,v,'return'))
            elif o=='exit': out.append(Path(s,None,'exit'))
            else: raise Unsupported('outcome '+o)
        return out
    # ---- statements
    def branch(self,st,c):
        """(feasible true state, feasible false state) for a boolean term."""
        if c is T.TRUE: return st,None
        if c is T.FALSE: return None,st
        ts,fs=st.copy(),st
        rel=relevant(st.pc,c)
        tf=P.z3_check(rel+[c],None,self.branch_timeout)[0]!='unsat'
        ff=P.z3_check(rel+[T.bnot(c)],None,self.branch_timeout)[0]!='unsat'
        if tf and not ff: return ts,None
        if ff and not tf: return None,fs
        ts.pc.append(c); fs.pc.append(T.bnot(c))
        return ts,fs
    def stmt(self,st,n):
        k=n['kind']
        if k=='CompoundStmt': return self.block(st,n.get('inner',()))
        if k=='AttributedStmt': return self.stmt(st,n['inner'][-1])
        if k=='DeclStmt':
            for d in n['inner']:
                if d['kind']=='VarDecl': self.vardecl(st,d)
                elif d['kind'] in('RecordDecl',):
                    fl=[c for c in d.get('inner',()) if c['kind']=='FieldDecl']
                    Engine.local_structs=dict(Engine.local_structs); 
                    self._lrec(d,fl)
                elif d['kind'] in('TypedefDecl','EmptyDecl'): pass
                else: raise Unsupported('decl '+d['kind'])
            return [(st,'normal',None)]
        if k=='ReturnStmt':
            v=None
            if n.get('inner'):
                v=self.ev(st,n['inner'][0])
            return [(st,'return',v)]
        if k=='NullStmt': return [(st,'normal',None)]
        if k=='BreakStmt': return [(st,'break',None)]
        if k=='ContinueStmt': return [(st,'continue',None)]
        if k=='IfStmt':
            inner=n['inner']
            c=self.cond(st,inner[0])
            ts,fs=self.branch(st,c)
            out=[]
            base=len(st.pc) if ts is None or fs is None else len(ts.pc)-1
            if ts is not None: out+=self.stmt(ts,inner[1])
            if fs is not None:
                if len(inner)>2: out+=self.stmt(fs,inner[2])
                else: out.append((fs,'normal',None))
            return self.merge_outcomes(out)
        if k=='ForStmt': return self.loop(st,n,'for')
        if k=='WhileStmt': return self.loop(st,n,'while')
        if k=='DoStmt':                          # do B while(C)  ==  B; while(C) B
            body,cond=n['inner'][0],n['inner'][1]; out=[]; go=[]
            for x,o,v in self.stmt(st,body):
                if o in('normal','continue'): go.append((x,'normal',None))
                elif o=='break': out.append((x,'normal',None))
                else: out.append((x,o,v))
            for x,o,v in self.merge_outcomes(go): out+=self.loop(x,{'kind':'WhileStmt','inner':[cond,body],'range':n.get('range',{})},'while')
            return self.merge_outcomes(out)
        if k=='SwitchStmt': return self.switch(st,n)
        if k in('GotoStmt','LabelStmt'): raise Unsupported(k)
        try: self.ev(st,n)
        except ExitCall: return [(st,'exit',None)]
        return [(st,'normal',None)]
    def switch(self,st,n):
        v=self.num(self.ev(st,n['inner'][-2])); items=[]       # [labels (None: default), statement]
        def flat(x,labels):
            if x['kind']=='CaseStmt':
                if len(x['inner'])!=2: raise Unsupported('case range')
                flat(x['inner'][1],labels+[x['inner'][0]])
            elif x['kind']=='DefaultStmt': flat(x['inner'][0],labels+[None])
            else: items.append((labels,x))
        body=n['inner'][-1]
        if body['kind']!='CompoundStmt': raise Unsupported('switch body')
        for x in body.get('inner',()): flat(x,[])
        out=[]; cur=st; default=None
        def run(s,k):
            for x,o,r in self.block(s,[y for _,y in items[k:]]):
                out.append((x,'normal',None) if o=='break' else (x,o,r))
        for k,(labels,_) in enumerate(items):
            for l in labels:
                if l is None: default=k; continue
                if cur is None: continue
                ts,fs=self.branch(cur,T.eq(v,self.num(self.ev(cur,l))))
                if ts is not None: run(ts,k)
                cur=fs
        if cur is not None:
            if default is None: out.append((cur,'normal',None))
            else: run(cur,default)
        return self.merge_outcomes(out)
    def _lrec(self,d,fl):
        loc=d.get('loc',{})
        Engine.local_structs[d['id']]=fl
        self._last_rec=fl
        if d.get('name'): Engine.local_structs[d['name']]=fl
    def block(self,st,stmts):
        cur=[(st,'normal',None)]
        for s in stmts:
            nxt=[]
            for (x,o,v) in cur:
                if o!='normal': nxt.append((x,o,v))
                else: nxt+=self.stmt(x,s)
            cur=nxt
            if len(cur)>400: raise Unsupported('path explosion')
        return cur
    def merge_outcomes(self,out):
        norm=[o for o in out if o[1]=='normal']
        if len(norm)<2: return out
        m=norm[0][0]
        for x in norm[1:]:
            r=self.merge(m,x[0])
            if r is None: return out
            m=r
        return [(m,'normal',None)]+[o for o in out if o[1]!='normal']
    def merge(self,a,b):
        """join two states of the same program point; None when values cannot be joined."""
        k=0
        while k<len(a.pc) and k<len(b.pc) and a.pc[k] is b.pc[k]: k+=1
        ca,cb=T.band(*a.pc[k:]),T.band(*b.pc[k:])
        n=State(); n.env={x:v for x,v in a.env.items() if b.env.get(x)==v}
        n.pc=a.pc[:k]
        d=T.bor(ca,cb)
        if T.bnot(ca) is not cb and not (d is T.TRUE): n.pc=n.pc+([d] if not self._compl(ca,cb) else [])
        for oid in a.mem:
            if oid not in b.mem:
                n.mem[oid]=dict(a.mem[oid]); continue
            x,y=a.mem[oid],b.mem[oid]; r={}
            for off in set(x)|set(y):
                v,w=x.get(off,UNDEF),y.get(off,UNDEF)
                if v is w: r[off]=v
                elif isinstance(v,T.T) and isinstance(w,T.T): r[off]=T.ite(ca,v,w)
                elif isinstance(v,Undef) or isinstance(w,Undef):
                    # a value defined on one branch only
                    z=v if isinstance(w,Undef) else w
                    if not isinstance(z,T.T): return None
                    r[off]=T.ite(ca,v if isinstance(v,T.T) else T.fresh('undef',z.sort),w if isinstance(w,T.T) else T.fresh('undef',z.sort))
                elif isinstance(v,Ptr) and v.same(w): r[off]=v
                else: return None
            n.mem[oid]=r
        for oid in b.mem:
            if oid not in n.mem: n.mem[oid]=dict(b.mem[oid])
        for oid in set(a.log)|set(b.log):
            x,y=a.log.get(oid,[]),b.log.get(oid,[])
            if len(x)==len(y) and all(p is q for p,q in zip(x,y)): n.log[oid]=list(x); continue
            j=0
            while j<len(x) and j<len(y) and x[j] is y[j]: j+=1
            base=list(x[:j])
            if any(not isinstance(e,(W,Comp)) for e in x[j:]+y[j:]): return None
            # union of written offsets
            offs=[]
            for st_,tail in ((a,x[j:]),(b,y[j:])):
                for e in tail:
                    key=(e.off,tuple(e.vars) if isinstance(e,Comp) else None)
                    if key not in offs: offs.append(key)
            r=base
            for off,vs in offs:
                if vs is None:
                    va=self.read_log(a,oid,off,len(x)); vb=self.read_log(b,oid,off,len(y))
                    r=r+[W(off,T.ite(ca,va,vb))]
                else:
                    a2=a.copy(); b2=b.copy()
                    for v,lo,hi in vs:
                        for z in(a2,b2): z.pc+= [T.le(lo,v),T.lt(v,hi)]
                    va=self.read_log(a2,oid,off,len(x)); vb=self.read_log(b2,oid,off,len(y))
                    r=r+[Comp(list(vs),off,T.ite(ca,va,vb))]
            n.log[oid]=r
        return n
    def _compl(self,ca,cb):
        return P.z3_check([T.bnot(ca),T.bnot(cb)],None,300)[0]=='unsat'
    # ---- declarations / initialisers
    def vardecl(self,st,d):
        ty=self.vtype(d)
        if ty[0]=='arr' and ty[2] is None: raise Unsupported('unsized array')
        oid=self.new_obj(st,d.get('name','_'),T.I(self.slots(ty)))
        st.env[d['id']]=(oid,ty)
        if d.get('inner'):
            ini=[c for c in d['inner'] if c['kind'] not in('FullComment',)]
            if ini: self.init(st,oid,T.IZERO,ty,ini[0])
    def vtype(self,d):
        ty=self.u.type(d['type']); t=ty
        while t[0] in('ptr','arr'): t=t[1]
        if t[0]=='struct' and t[1].startswith('anon@') and t[1] not in Engine.local_structs: Engine.local_structs[t[1]]=self._last_rec
        return ty
    def init(self,st,oid,off,ty,n):
        k=n['kind']
        if k=='InitListExpr':
            items=n.get('inner') or []
            if ty[0]=='arr':
                es=self.slots(ty[1])
                fill='array_filler' in n
                if fill: items=[x for x in n['array_filler'] if x['kind']!='ImplicitValueInitExpr'] 
                for i,x in enumerate(items): self.init(st,oid,T.add(off,T.I(i*es)),ty[1],x)
                for i in range(len(items),ty[2]): self.zero(st,oid,T.add(off,T.I(i*es)),ty[1])
            elif ty[0]=='struct':
                o=0
                fl=self.fields(ty)
                for i,f in enumerate(fl):
                    ft=self.u.ftype(f)
                    if i<len(items): self.init(st,oid,T.add(off,T.I(o)),ft,items[i])
                    else: self.zero(st,oid,T.add(off,T.I(o)),ft)
                    o+=self.slots(ft)
            else: self.write(st,oid,off,self.conv(self.ev(st,items[0]),ty))
        elif k=='ImplicitValueInitExpr': self.zero(st,oid,off,ty)
        else:
            v=self.ev(st,n)
            self.write(st,oid,off,self.conv(v,ty))
    def zero(self,st,oid,off,ty):
        if ty[0]=='arr':
            es=self.slots(ty[1])
            for i in range(ty[2]): self.zero(st,oid,T.add(off,T.I(i*es)),ty[1])
        elif ty[0]=='struct':
            o=0
            for f in self.fields(ty):
                ft=self.u.ftype(f); self.zero(st,oid,T.add(off,T.I(o)),ft); o+=self.slots(ft)
        elif ty[0]=='ptr': self.write(st,oid,off,NULL)
        else: self.write(st,oid,off,T.ZERO if ty[0]=='double' else T.IZERO)
    def conv(self,v,ty):
        if isinstance(v,T.T):
            if ty[0]=='double': return T.ite(v,T.ONE,T.ZERO) if v.sort=='B' else T.R(v)
            if ty[0]=='int' and v.sort=='R': return T.fun('trunc',v)
            if ty[0]=='int' and v.sort=='B': return T.ite(v,T.IONE,T.IZERO)
        return v
    # ---- expressions
    def cond(self,st,n):
        v=self.ev(st,n)
        return self.truth(v)
    def truth(self,v):
        if isinstance(v,T.T):
            if v.sort=='B': return v
            if v.op=='ite' and v.sort=='I':            # the truth of a merged 0/1 result
                c,a,b=v.args; a,b=self.truth(a),self.truth(b)
                return T.bor(T.band(c,a),T.band(T.bnot(c),b))
            return T.bnot(T.eq(v,T.R(0) if v.sort=='R' else T.IZERO))
        if isinstance(v,Null): return T.FALSE
        if isinstance(v,(Ptr,FnPtr)): return T.TRUE
        raise Unsupported('truth of %r'%v)
    def lval(self,st,n):
        """(oid, off, type)"""
        k=n['kind']
        if k=='ParenExpr': return self.lval(st,n['inner'][0])
        if k=='DeclRefExpr':
            r=n['referencedDecl']
            if r['id'] in st.env:
                oid,ty=st.env[r['id']]; return oid,T.IZERO,ty
            raise Unsupported('reference to '+str(r.get('name')))
        if k=='ArraySubscriptExpr':
            a,b=n['inner']
            p=self.ev(st,a); i=self.ev(st,b)
            if not isinstance(p,Ptr):
                if isinstance(i,Ptr): p,i=i,p
                else: raise Unsupported('subscript of %r'%p)
            es=self.slots(p.ty)
            return p.obj,T.add(p.off,T.mul(T.I(es),i)),p.ty
        if k=='UnaryOperator' and n['opcode']=='*':
            p=self.ev(st,n['inner'][0])
            if not isinstance(p,Ptr): raise Unsupported('deref %r'%p)
            ty=p.ty
            return p.obj,p.off,ty
        if k=='MemberExpr':
            if n.get('isArrow'):
                p=self.ev(st,n['inner'][0])
                if not isinstance(p,Ptr): raise Unsupported('-> on %r'%p)
                oid,off,ty=p.obj,p.off,p.ty
            else: oid,off,ty=self.lval(st,n['inner'][0])
            o,ft=self.field_off(ty,n['name'])
            return oid,T.add(off,T.I(o)),ft
        if k in('ImplicitCastExpr','CStyleCastExpr'): return self.lval(st,n['inner'][-1])
        raise Unsupported('lvalue '+k)
    def load(self,st,oid,off,ty,where=''):
        if ty[0]=='arr': return Ptr(oid,off,ty[1])
        v=self.read(st,oid,off,ty,where)
        if isinstance(v,Undef):
            if ty[0]=='double': return T.fresh('undef')
            if ty[0]=='int': return T.fresh('undef','I')
            raise Unsupported('uninitialised pointer')
        if isinstance(v,Ptr) and ty[0]=='ptr' and ty[1][0]!='void': return Ptr(v.obj,v.off,ty[1])
        return v
    def ev(self,st,n):
        k=n['kind']
        if k in('ParenExpr','ConstantExpr','ExprWithCleanups'): return self.ev(st,n['inner'][0])
        if k=='IntegerLiteral': return T.I(int(n['value']))
        if k=='CharacterLiteral': return T.I(int(n['value']))
        if k=='FloatingLiteral':
            v=Fr(n['value']) if 'e' not in n['value'].lower() or True else 0
            if abs(float(v)-math.pi)<1e-15: return T.PI
            return T.R(v)
        if k=='CXXBoolLiteralExpr': return T.I(1 if n['value'] else 0)
        if k=='StringLiteral': return NULL
        if k=='DeclRefExpr':
            r=n['referencedDecl']
            if r['kind']=='FunctionDecl': return FnPtr(r['name'])
            if r['kind']=='EnumConstantDecl':
                return T.I(self.u.enums.get(r['id'],self.u.enums.get(r['name'])))
            oid,off,ty=self.lval(st,n); return self.load(st,oid,off,ty)
        if k in('ImplicitCastExpr','CStyleCastExpr'):
            ck=n.get('castKind'); x=n['inner'][-1]
            if ck=='LValueToRValue':
                oid,off,ty=self.lval(st,x)
                return self.load(st,oid,off,ty,self.loc(n))
            if ck=='ArrayToPointerDecay':
                if x['kind']=='StringLiteral': return NULL
                oid,off,ty=self.lval(st,x)
                return Ptr(oid,off,ty[1] if ty[0]=='arr' else ty)
            if ck in('FunctionToPointerDecay','NoOp','BuiltinFnToFnPtr'):
                return self.ev(st,x)
            if ck=='NullToPointer': return NULL
            v=self.ev(st,x)
            if ck=='BitCast':
                ty=self.vtype(n)
                if isinstance(v,Ptr):
                    if ty[0]=='ptr' and ty[1][0]!='void': return Ptr(v.obj,v.off,ty[1])
                return v
            if ck in('IntegralToFloating',): return T.R(v) if isinstance(v,T.T) and v.sort!='B' else self.conv(v,('double',))
            if ck=='FloatingToIntegral':
                return T.fun('trunc',v)
            if ck in('IntegralCast','IntegralToBoolean','BooleanToSignedIntegral'):
                if isinstance(v,T.T) and v.sort=='B': return T.ite(v,T.IONE,T.IZERO)
                if ck=='IntegralToBoolean' and isinstance(v,T.T): return self.truth(v)
                return v
            if ck in('FloatingToBoolean','PointerToBoolean'): return self.truth(v)
            if ck in('FloatingCast',): return v
            if ck=='ToVoid': return v
            raise Unsupported('cast '+str(ck))
        if k=='UnaryOperator':
            op=n['opcode']; x=n['inner'][0]
            if op=='&':
                oid,off,ty=self.lval(st,x); return Ptr(oid,off,ty)
            if op=='*':
                oid,off,ty=self.lval(st,n); return self.load(st,oid,off,ty)
            if op in('++','--'):
                oid,off,ty=self.lval(st,x); v=self.load(st,oid,off,ty)
                if isinstance(v,Ptr): w=Ptr(v.obj,T.add(v.off,T.I(self.slots(v.ty)*(1 if op=='++' else -1))),v.ty)
                else: w=T.add(v,T.lift(1 if op=='++' else -1,v.sort))
                self.write(st,oid,off,w)
                return v if n.get('isPostfix') else w
            v=self.ev(st,x)
            if op=='-': return T.neg(self.num(v))
            if op=='+': return v
            if op=='!': return T.bnot(self.truth(v))
            raise Unsupported('unary '+op)
        if k=='BinaryOperator':
            op=n['opcode']; a,b=n['inner']
            if op=='=':
                v=self.ev(st,b)
                oid,off,ty=self.lval(st,a)
                v=self.conv(v,ty)
                if isinstance(v,Ptr) and ty[0]=='ptr' and ty[1][0]!='void': v=Ptr(v.obj,v.off,ty[1])
                self.write(st,oid,off,v,self.loc(n)); return v
            if op==',':
                self.ev(st,a); return self.ev(st,b)
            if op=='&&':
                x=self.truth(self.ev(st,a))
                if x is T.FALSE: return T.FALSE
                st.pc.append(x)
                y=self.truth(self.ev(st,b))
                st.pc.pop() if st.pc and st.pc[-1] is x else None
                return T.band(x,y)
            if op=='||':
                x=self.truth(self.ev(st,a))
                if x is T.TRUE: return T.TRUE
                nx=T.bnot(x); st.pc.append(nx)
                y=self.truth(self.ev(st,b))
                st.pc.pop() if st.pc and st.pc[-1] is nx else None
                return T.bor(x,y)
            x,y=self.ev(st,a),self.ev(st,b)
            if op=='/': self.defined(st,x,y)
            return self.binop(op,x,y)
        if k=='CompoundAssignOperator':
            op=n['opcode'][:-1]; a,b=n['inner']
            v=self.ev(st,b); oid,off,ty=self.lval(st,a)
            old=self.load(st,oid,off,ty)
            if op=="/": self.defined(st,old,v)
            w=self.conv(self.binop(op,old,v),ty)
            self.write(st,oid,off,w,self.loc(n)); return w
        if k=='ConditionalOperator':
            c=self.truth(self.ev(st,n['inner'][0]))
            if c is T.TRUE: return self.ev(st,n['inner'][1])
            if c is T.FALSE: return self.ev(st,n['inner'][2])
            st.pc.append(c); x=self.ev(st,n['inner'][1]); st.pc.pop()
            st.pc.append(T.bnot(c)); y=self.ev(st,n['inner'][2]); st.pc.pop()
            if isinstance(x,T.T) and isinstance(y,T.T): return T.ite(c,self.num(x),self.num(y))
            raise Unsupported('conditional on pointers')
        if k=='CallExpr': return self.call(st,n)
        if k in('ArraySubscriptExpr','MemberExpr'):
            oid,off,ty=self.lval(st,n); return self.load(st,oid,off,ty,self.loc(n))
        if k=='UnaryExprOrTypeTraitExpr':
            t=n.get('argType') or (n['inner'][0]['type'] if n.get('inner') else {})
            q=t.get('desugaredQualType') or t.get('qualType','')
            m=re.fullmatch(r'(?:const )?(double|int|size_t|unsigned long|uint8_t|unsigned char)((?: ?\[\d+\])*)',q.strip())
            if n.get('name')!='sizeof' or not m: raise Unsupported('sizeof '+q)
            b={'double':8,'int':4,'size_t':8,'unsigned long':8,'uint8_t':1,'unsigned char':1}[m.group(1)]
            for d in re.findall(r'\d+',m.group(2)): b*=int(d)
            return T.I(b)
        if k=='InitListExpr': raise Unsupported('compound literal')
        raise Unsupported('expr '+k)
    def loc(self,n):
        r=n.get('range',{}).get('begin',{})
        l=r.get('line') or r.get('expansionLoc',{}).get('line')
        return 'line %s'%l if l else ''
    def num(self,v):
        if isinstance(v,T.T):
            return T.ite(v,T.IONE,T.IZERO) if v.sort=='B' else v
        if isinstance(v,Undef): return T.fresh('undef')
        raise Unsupported('number expected, got %r'%v)
    def defined(self,st,a,b):
        """real division: the denominator is not zero (otherwise the value is an infinity or NaN)"""
        if isinstance(a,T.T) and isinstance(b,T.T) and b.sort=='R' and not T.isc(b):
            self.vc(st,'real-domain',T.bnot(T.eq(b,T.ZERO)),'.. / (%s)'%T.show(b,4))
    def binop(self,op,a,b):
        if isinstance(a,(Ptr,Null,FnPtr)) or isinstance(b,(Ptr,Null,FnPtr)):
            if op in('==','!='):
                if isinstance(a,Null) and isinstance(b,Null): r=T.TRUE
                elif isinstance(a,Null) or isinstance(b,Null): r=T.FALSE
                elif isinstance(a,Ptr) and isinstance(b,Ptr): r=T.eq(a.off,b.off) if a.obj==b.obj else T.FALSE
                else: raise Unsupported('pointer comparison')
                return r if op=='==' else T.bnot(r)
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj:
                if op in('<','<=','>','>='): return self.binop(op,a.off,b.off)
                n=self.slots(a.ty)
                if op=='-' and n==1: return T.sub(a.off,b.off)
            if isinstance(a,Ptr) and isinstance(b,T.T) and op in('+','-'):
                d=T.mul(T.I(self.slots(a.ty)),b)
                return Ptr(a.obj,T.add(a.off,d if op=='+' else T.neg(d)),a.ty)
            if isinstance(b,Ptr) and op=='+': return self.binop(op,b,a)
            raise Unsupported('pointer arithmetic')
        if op in('==','!=') and a.sort=='B' and b.sort=='B':
            r=T.eq(a,b); return r if op=='==' else T.bnot(r)
        a,b=self.num(a),self.num(b)
        if op=='+': return T.add(a,b)
        if op=='-': return T.sub(a,b)
        if op=='*': return T.mul(a,b)
        if op=='/':
            if a.sort=='I' and b.sort=='I':
                if T.isc(a) and T.isc(b) and T.cv(b)!=0: return T.I(int(Fr(T.cv(a),1)/T.cv(b)))
                return T.fun('trunc',T.div(T.R(a),T.R(b)))
            return T.div(a,b)
        if op=='%':
            if T.isc(a) and T.isc(b): return T.I(math.fmod(int(T.cv(a)),int(T.cv(b))))
            return T.sub(a,T.mul(b,T.fun('trunc',T.div(T.R(a),T.R(b)))))
        if op=='<': return T.lt(a,b)
        if op=='<=': return T.le(a,b)
        if op=='>': return T.lt(b,a)
        if op=='>=': return T.le(b,a)
        if op=='==': return T.eq(a,b)
        if op=='!=': return T.bnot(T.eq(a,b))
        raise Unsupported('operator '+op)
    # ---- calls
    def call(self,st,n):
        f=self.ev(st,n['inner'][0])
        args=[self.ev(st,x) for x in n['inner'][1:]]
        if not isinstance(f,FnPtr): raise Unsupported('call through %r'%f)
        return self.do_call(st,f.name,args)
    def do_call(self,st,name,args):
        name=name.replace('__builtin_','')
        if name in self.contracts:
            self.called.add(name)
            return self.contracts[name](self,st,args)
        if name in UNARY_MATH: 
            if name in('sqrt','log'):
                v=T.R(self.num(args[0]))
                if not T.isc(v): self.vc(st,'real-domain',T.le(T.ZERO,v) if name=='sqrt' else T.lt(T.ZERO,v),'%s(%s)'%(name,T.show(v,4)))
            return T.fun(name,T.R(self.num(args[0])))
        if name=='atan2': return T.fun('atan2',T.R(self.num(args[0])),T.R(self.num(args[1])))
        if name=='pow':
            x,y=T.R(self.num(args[0])),self.num(args[1])
            if y.op=='itor' : return T.fun('powi',x,y.args[0])
            return T.power(x,y)
        if name in('fmin','fmax'):
            a,b=T.R(args[0]),T.R(args[1]); return T.ite(T.le(a,b),a,b) if name=='fmin' else T.ite(T.le(b,a),a,b)
        if name=='floor': return T.itor(T.fun('floor_i',T.R(args[0])))
        if name=='ceil': return T.itor(T.fun('ceil_i',T.R(args[0])))
        if name=='hypot': return T.sqrt(T.R(args[0])**2+T.R(args[1])**2)
        if name in('printf','puts','fprintf','fflush'): return T.IZERO
        if name in('exit','abort'): raise ExitCall()
        if name in('memset','memcpy','memmove'):
            p,v,sz=args
            if not (isinstance(p,Ptr) and isinstance(sz,T.T) and T.isc(sz)): raise Unsupported(name)
            ty=p.ty
            while ty[0]=='arr': ty=ty[1]
            n=Fr(T.cv(sz))/8
            if ty[0]!='double' or n.denominator!=1: raise Unsupported(name)
            if name=='memset':
                if v is not T.IZERO: raise Unsupported('memset to a value')
                vals=[T.ZERO]*int(n)
            else: vals=[self.read(st,v.obj,T.add(v.off,T.I(j)),ty) for j in range(int(n))]
            for j,x in enumerate(vals): self.write(st,p.obj,T.add(p.off,T.I(j)),x)
            return p
        if name in self.u.funcs:
            ps=self.call_paths(st.copy() if False else st,name,args)
            return self.join_paths(st,ps)
        raise Unsupported('call to '+name)
    def join_paths(self,st,ps):
        """merge all return paths of an inlined callee back into st; returns the value."""
        ps=[p for p in ps]
        if any(p.outcome=='exit' for p in ps): raise Unsupported('exit inside an inlined call')
        RET='__ret__'
        base=None
        for p in ps:
            if p.ret is not None: p.st.mem[RET]={0:p.ret}
        m=ps[0].st
        for p in ps[1:]:
            m=self.merge(m,p.st)
            if m is None: raise Unsupported('cannot merge return paths')
        env=st.env
        st.mem=m.mem; st.log=m.log; st.pc=m.pc; st.env=dict(env)
        r=st.mem.pop(RET,{0:None})[0]
        return r
    # ---- loops
    def loop(self,st,n,kind):
        if kind=='for':
            inner=n['inner']
            init,cvar,cond,inc,body=(inner+[None]*5)[:5] if len(inner)==5 else (inner[0],None,inner[1],inner[2],inner[3])
            if init and init.get('kind'): 
                r=self.stmt(st,init)
        else:
            inner=n['inner']; cond,body=inner[-2],inner[-1]; inc=None
        if self.loop_handler is not None:
            r=self.loop_handler(self,st,n,kind,cond,inc,body)
            if r is not None: return r
        # 1. unrolling with a concrete trip count
        c0=self._peek(st,cond)
        if T.isc(c0):
            trip=self.const_trip(st,cond,inc)
            if trip is None or not self.summarize(trip):
                return self.unroll_loop(st,cond,inc,body)
        return self.summary(st,cond,inc,body)
    def _peek(self,st,cond):
        if not cond or not cond.get('kind'): return T.TRUE
        s=st.copy(); rec=self.record; self.record=False
        try: return self.cond(s,cond)
        finally: self.record=rec
    def const_trip(self,st,cond,inc):
        if inc is None or not inc.get('kind'): return None
        s=st.copy(); k=0; rec=self.record; self.record=False
        try:
            while True:
                c=self.cond(s,cond)
                if c is T.FALSE: return k
                if c is not T.TRUE: return None
                self.ev(s,inc); k+=1
                if k>5000: return None
        except Unsupported: return None
        finally: self.record=rec
    def unroll_loop(self,st,cond,inc,body):
        out=[]; cur=[st]; k=0
        while cur:
            k+=1
            if k>self.unroll*3: raise Unsupported('unroll limit')
            nxt=[]
            for s in cur:
                c=self.cond(s,cond) if cond and cond.get('kind') else T.TRUE
                ts,fs=self.branch(s,c)
                if fs is not None: out.append((fs,'normal',None))
                if ts is None: continue
                for x,o,v in self.stmt(ts,body):
                    if o in('normal','continue'):
                        if inc is not None and inc.get('kind'): self.ev(x,inc)
                        nxt.append(x)
                    elif o=='break': out.append((x,'normal',None))
                    else: out.append((x,o,v))
            if len(nxt)>1:
                m=nxt[0]
                for y in nxt[1:]:
                    mm=self.merge(m,y)
                    if mm is None: m=None; break
                    m=mm
                if m is not None: nxt=[m]
            if len(nxt)>64: raise Unsupported('path explosion in loop')
            cur=nxt
        return self.merge_outcomes(out)
    def body_once(self,st,cond,inc,body,hav,arrs):
        """one generic iteration from a havoced head state; returns (head, cond term, end states)."""
        h=st.copy(); names={}
        for (oid,off),v in hav.items(): h.mem[oid][off]=v
        for oid,ver in arrs.items(): h.log[oid]=h.log[oid]+[ver]
        c=self.cond(h,cond) if cond and cond.get('kind') else T.TRUE
        s=h.copy(); s.pc.append(c)
        res=[]
        for x,o,v in self.stmt(s,body):
            if o in('normal','continue'):
                if inc is not None and inc.get('kind'): self.ev(x,inc)
                res.append(x)
            else: raise Unsupported('loop with early exit (%s)'%o)
        m=res[0]
        for y in res[1:]:
            m=self.merge(m,y)
            if m is None: raise Unsupported('cannot merge loop body paths')
        return h,c,m
    def summary(self,st,cond,inc,body):
        hav={}; arrs={}; facts=[]
        def changed(h,e):
            for oid,cells in h.mem.items():
                ec=e.mem.get(oid,{})
                for off in set(cells)|set(ec):
                    a,b=cells.get(off,UNDEF),ec.get(off,UNDEF)
                    if a is b or (isinstance(a,Ptr) and a.same(b)) or (oid,off) in hav: continue
                    yield oid,off,a,b
        def logged(h,e):
            for oid in h.log:
                if len(e.log.get(oid,[]))!=len(h.log[oid]) and oid not in arrs: yield oid
        rec=self.record; self.record=False
        try:
            for _ in range(12):
                sd=st
                if facts: sd=st.copy(); sd.pc+=facts   # discovery only: the frame is checked again below
                h,c,e=self.body_once(sd,cond,inc,body,hav,arrs)
                new=False
                for oid,off,a,b in list(changed(h,e)):
                    new=True
                    if isinstance(b,T.T):
                        hv=hav[(oid,off)]=T.fresh('h_'+self.objs[oid].name,b.sort)
                        if isinstance(a,T.T) and a.sort=='I' and b is T.add(a,T.IONE): facts.append(T.le(a,hv))
                    else: hav[(oid,off)]=UNDEF_PTR
                for oid in list(logged(h,e)):
                    self.n+=1; arrs[oid]='%s@%d'%(self.objs[oid].name,self.n); new=True
                if not new: break
            else: raise Unsupported('loop frame does not stabilise')
        finally: self.record=rec
        # induction variable
        iv=None
        for key,hv in hav.items():
            if not isinstance(hv,T.T) or hv.sort!='I': continue
            fin=e.mem[key[0]][key[1]]
            if fin is T.add(hv,T.IONE): 
                hi=self.upper(c,hv)
                if hi is not None and not T.occurs_any([x for x in hav.values() if isinstance(x,T.T)],hi): iv=(key,hv,hi,1); break
            if fin is T.sub(hv,T.IONE):
                lo=self.lower(c,hv)
                if lo is not None and not T.occurs_any([x for x in hav.values() if isinstance(x,T.T)],lo): iv=(key,hv,lo,-1); break
        if iv is None: raise Unsupported('no induction variable')
        key,i,bound,step=iv
        start=st.mem[key[0]].get(key[1])
        if step==1: lo,hi=start,bound
        else: lo,hi=T.add(bound,T.IZERO),T.add(start,T.IONE)
        others=[v for k,v in hav.items() if k!=key and isinstance(v,T.T)]
        # rerun recording VCs, with the range of i as path condition
        st2=st.copy(); st2.pc+=[T.le(lo,i),T.lt(i,hi)]
        h,c,e=self.body_once(st2,cond,inc,body,hav,arrs)
        if list(changed(h,e)) or list(logged(h,e)): raise Unsupported('loop frame is not confirmed')
        t=T.fresh('s','I')
        out=st.copy()
        nonempty=T.lt(lo,hi)
        for (oid,off),hv in hav.items():
            if (oid,off)==key:
                out.mem[oid][off]=(T.ite(nonempty,hi,lo) if step==1 else T.ite(nonempty,T.sub(lo,T.IONE),start)) if not self.prove(st,T.le(lo,hi)) else (hi if step==1 else T.sub(lo,T.IONE))
                continue
            if oid not in e.mem or off not in e.mem[oid]:
                out.mem.setdefault(oid,{})[off]=UNDEF; continue
            fin=e.mem[oid][off]
            if not isinstance(fin,T.T) or not isinstance(hv,T.T):
                out.mem[oid][off]=UNDEF; continue
            d=T.sub(fin,hv)
            if T.occurs(hv,d):
                # distribute over ite: ite(c,hv+a,hv+b) - hv
                d=push_delta(fin,hv)
            if d is not None and not T.occurs_any(others,d) and not self._uses_arr(d,arrs):
                init=st.mem[oid].get(off)
                if init is None or isinstance(init,Undef): out.mem[oid][off]=UNDEF; continue
                out.mem[oid][off]=T.add(init,T.Sum(t,lo,hi,T.subst(d,{i:t})))
            elif not T.occurs_any(others,fin) and not self._uses_arr(fin,arrs):
                last=T.subst(fin,{i:T.sub(hi,T.IONE) if step==1 else lo})
                init=st.mem[oid].get(off)
                out.mem[oid][off]=last if self.prove(st,nonempty) else (T.ite(nonempty,last,init) if isinstance(init,T.T) else UNDEF_AFTER(last))
            else:
                out.mem[oid][off]=UNDEF   # not expressible: reading it later yields an unconstrained value
        for oid,ver in arrs.items():
            base=len(h.log[oid]); tail=e.log[oid][base:]
            self.sum_array(out,st,oid,ver,tail,i,lo,hi,others,e)
        out.pc=list(st.pc)
        self.loops.append('induction')
        return [(out,'normal',None)]
    def _uses_arr(self,t,arrs):
        vs=set(arrs.values())
        return any(u.op=='sel' and u.args[0] in vs for u in T.walk([t]))
    def sum_array(self,out,st,oid,ver,tail,i,lo,hi,others,e):
        """effect of the whole loop on array oid from the writes of one generic iteration."""
        ob=self.objs[oid]
        # collapse to unique (offset, vars) keys with their final value
        keys=[]; seen=set()
        for w in tail:
            k=(w.off,tuple(w.vars) if isinstance(w,Comp) else ())
            ren={v:T.var('!k%d'%j,'I') for j,(v,_,_) in enumerate(k[1])}     # the same range written again, under other names
            canon=(T.subst(k[0],ren),tuple((ren[v],T.subst(a,ren),T.subst(b,ren)) for v,a,b in k[1]))
            if canon not in seen: seen.add(canon); keys.append(k)
        fin=[]
        for off,vs in keys:
            s=e.copy(); s.pc+=[T.le(a,v) for v,a,b in vs]+[T.lt(v,b) for v,a,b in vs]
            val=self.read_log(s,oid,off,len(e.log[oid]))
            fin.append((off,list(vs),val))
        rng=[T.le(lo,i),T.lt(i,hi)]
        for off,vs,val in fin:
            if T.occurs_any(others,off) or T.occurs_any(others,val): raise Unsupported('array write depends on loop-carried value')
            dep=T.occurs(i,off)
            heads=[u for u in T.walk([val]) if u.op=='sel' and u.args[0]==ver]
            if any(u.args[1] is not off for u in heads): raise Unsupported('loop-carried array dependence on '+ob.name)
            if dep:
                # injectivity in the iteration, against every written offset
                i2=T.fresh('i2','I')
                for off2,vs2,_ in fin:
                    ren={v:T.fresh('r','I') for v,_,_ in vs2}; ren[i]=i2
                    asm=st.pc+rng+[T.le(lo,i2),T.lt(i2,hi),T.bnot(T.eq(i,i2))]
                    for v,a,b in vs: asm+=[T.le(a,v),T.lt(v,b)]
                    for v,a,b in vs2: asm+=[T.le(T.subst(a,ren),ren[v]),T.lt(ren[v],T.subst(b,ren))]
                    if not self.disjoint(asm,off,T.subst(off2,ren),i,i2): raise Unsupported('iterations may write the same element of '+ob.name)
                s=st.copy(); s.pc+=rng
                for v,a,b in vs: s.pc+=[T.le(a,v),T.lt(v,b)]
                before=self.read_log(s,oid,off,len(st.log[oid]))
                nv=T.fresh('c','I')
                val2=T.subst(val,{u:before for u in heads}) if heads else val
                ren={i:nv}
                out.log[oid].append(Comp([(nv,lo,hi)]+[(v,T.subst(a,ren),T.subst(b,ren)) for v,a,b in vs],T.subst(off,ren),T.subst(val2,ren)))
            else:
                s=st.copy()
                for v,a,b in vs: s.pc+=[T.le(a,v),T.lt(v,b)]
                before=self.read_log(s,oid,off,len(st.log[oid]))
                # other offsets must be disjoint from this one
                for off2,vs2,_ in fin:
                    if off2 is off: continue
                    ren={v:T.fresh('r','I') for v,_,_ in vs2}
                    asm=st.pc+rng+[T.le(a,v) for v,a,b in vs]+[T.lt(v,b) for v,a,b in vs]
                    for v,a,b in vs2: asm+=[T.le(T.subst(a,ren),ren[v]),T.lt(ren[v],T.subst(b,ren))]
                    if not self.disjoint(asm,off,T.subst(off2,ren),None,None): raise Unsupported('overlapping writes to '+ob.name)
                if not heads:
                    newv=T.ite(T.lt(lo,hi),T.subst(val,{i:T.sub(hi,T.IONE)}),before)
                else:
                    hd=heads[0]; z=T.fresh('hd'); d=T.sub(T.subst(val,{hd:z}),z)
                    if T.occurs(z,d):
                        d=push_delta(T.subst(val,{hd:z}),z)
                        if d is None: raise Unsupported('array accumulation not additive')
                    t=T.fresh('s','I')
                    newv=T.add(before,T.Sum(t,lo,hi,T.subst(d,{i:t})))
                if vs: out.log[oid].append(Comp(list(vs),off,newv))
                else: out.log[oid].append(W(off,newv))
    def disjoint(self,asm,a,b,i,i2):
        g=T.bnot(T.eq(a,b))
        if g is T.TRUE: return True
        if g is T.FALSE: return False
        lem=[]
        if i is not None:
            # lemma instances for products (valid over the integers): i<i2, n>=0 => n*i2 >= n*i+n
            for u in T.walk([a]):
                if u.op=='mul' and i in u.args:
                    n=T.mul(T.IONE,*[x for x in u.args if x is not i])
                    pos=T.le(T.IZERO,n)
                    lem.append(T.implies(T.band(T.lt(i,i2),pos),T.le(T.add(T.mul(n,i),n),T.mul(n,i2))))
                    lem.append(T.implies(T.band(T.lt(i2,i),pos),T.le(T.add(T.mul(n,i2),n),T.mul(n,i))))
        asm=asm+lem
        return P.z3_check(relevant(asm,g),g,4000)[0]=='unsat' or P.z3_check(asm,g,4000)[0]=='unsat'
    def upper(self,c,i):
        """hi with c <=> i<hi."""
        cs=c.args if c.op=='and' else (c,)
        if len(cs)!=1: return None
        c=cs[0]
        if c.op=='lt' and c.args[0] is i and not T.occurs(i,c.args[1]): return c.args[1]
        if c.op=='le' and c.args[0] is i and not T.occurs(i,c.args[1]): return T.add(c.args[1],T.IONE)
        return None
    def lower(self,c,i):
        """lo with c <=> i>=lo."""
        if c.op=='le' and c.args[1] is i and not T.occurs(i,c.args[0]): return c.args[0]
        if c.op=='lt' and c.args[1] is i and not T.occurs(i,c.args[0]): return T.add(c.args[0],T.IONE)
        return None

class ExitCall(Exception): pass
UNDEF_PTR=UNDEF
def UNDEF_AFTER(x): return UNDEF

def push_delta(t,h):
    """t - h when t is built from ites of (h + something); None otherwise."""
    if t.op=='ite':
        a,b=push_delta(t.args[1],h),push_delta(t.args[2],h)
        if a is None or b is None or T.occurs(h,t.args[0]): return None
        return T.ite(t.args[0],a,b)
    d=T.sub(t,h)
    return None if T.occurs(h,d) else d

def relevant(pc,goal):
    """assumptions sharing variables with the goal (transitively); dropping others is sound."""
    def vs(t): return {u if u.op=='var' else (u.args[0],) for u in T.walk([t]) if u.op in('var','sel')}
    need=vs(goal); rest=[(p,vs(p)) for p in pc]; out=[]; ch=True
    while ch:
        ch=False
        for x in list(rest):
            if x[1]&need or not x[1]:
                out.append(x[0]); need|=x[1]; rest.remove(x); ch=True
    return out
