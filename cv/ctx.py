"""Obligation book-keeping, verdicts and evidence for one property check."""
import os, json, time, traceback, sys, hashlib
from . import term as T, prove as P
from .cexec import Unsupported
from .cparse import ParseError

VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')

def _opaque(ts): return any(u.op=='f' and str(u.args[0]).startswith('unk!') for u in T.walk(ts))
class Ctx:
    def __init__(self,pid,tier,seed):
        self.pid=pid; self.tier=tier; self.seed=seed; self.t0=time.time()
        self.obs=[]; self.functions={}; self.assume=[]; self.bounded=[]; self.notes=[]
        self.dyn=None; self.defs=[]; self.unit_=None; self.samples=[]
    @property
    def quick(self): return self.tier!='thorough'
    def unit(self):
        if self.unit_ is None:
            from .cparse import load
            self.unit_=load(REPO)
        return self.unit_
    # ---- recording
    def function(self,name,where,kind='contract'): self.functions[name]={'where':where,'kind':kind}
    def trust(self,text):
        if text not in self.assume: self.assume.append(text)
    def rec(self,name,status,method='',detail='',t=0.0,bounded=False):
        self.obs.append(dict(name=name,status=status,method=method,detail=str(detail)[:1500],time=round(t,4),bounded=bounded))
        return status=='proved'
    def zero(self,name,term,pc=(),funcs=None,bounded=False,tries=40,env=None,limit=40.0,rtol=1e-12):
        """obligation: term == 0 under pc."""
        t=time.time()
        if isinstance(term,(int,float)): term=T.R(term)
        pc=[p for p in pc if p is not T.TRUE]
        try: r=P.prove_zero(term,pc,limit=limit)
        except RecursionError: r=P.Result('unknown','recursion')
        if r.status=='proved': return self.rec(name,'proved',r.method,'',time.time()-t,bounded)
        w=None; err=''
        if _opaque([term]+pc): return self.rec(name,'unknown',r.method,'refers to the effect of other loop iterations',time.time()-t,bounded)
        try: w=P.refute_zero(term,pc+self.defs,tries=tries,seed=self.seed+1,env_factory=env,funcs=funcs,tol=rtol)
        except Exception as e: err=repr(e)
        if w is not None:
            env_,v,sc=w
            self.rec(name,'refuted','numeric-witness','difference %s (scale %s) at %s %s; term %s'%(P.mpmath.nstr(v,8),P.mpmath.nstr(sc,4),{k:str(P.mpmath.nstr(x,8)) if not isinstance(x,int) else x for k,x in list(env_.vals.items())[:25]},
                {'%s[%s]'%k:str(P.mpmath.nstr(x,8)) if not isinstance(x,int) else x for k,x in list(env_.arr.items())[:20]},T.show(term,4)),time.time()-t,bounded)
        elif not self.defs and P.model_is_real(r.model): self.rec(name,'refuted','z3-model','model %s; term %s'%(str(r.model[0])[:900],T.show(term,5)),time.time()-t,bounded)
        else: self.rec(name,'failed' if r.method.endswith(':sat') else 'unknown',r.method,'%s %s; no numeric witness %s; term %s'%(r.status,r.detail,err,T.show(term,5)),time.time()-t,bounded)
        return False
    def true(self,name,goal,pc=(),timeout=20000,bounded=False):
        """obligation: goal holds under pc."""
        t=time.time()
        pc=[p for p in pc if p is not T.TRUE]
        r=P.prove_bool(goal,pc,timeout)
        if r.status=='proved': return self.rec(name,'proved',r.method,'',time.time()-t,bounded)
        st='failed' if r.method.endswith(':sat') else 'unknown'; m=''
        if _opaque([goal]+pc): return self.rec(name,'unknown',r.method,'goal %s refers to the effect of other loop iterations'%T.show(goal,6),time.time()-t,bounded) and False
        if r.model:
            try: m=str(r.model[0])[:900]
            except Exception: m=''
        if not self.defs and P.model_is_real(r.model): st='refuted'
        else:
            try: w=P.refute_bool(goal,pc+self.defs,seed=self.seed+1)
            except Exception: w=None
            if w is not None: st='refuted'; m='values %s %s'%({k:str(P.mpmath.nstr(x,8)) if not isinstance(x,int) else x for k,x in list(w.vals.items())[:25]},{'%s[%s]'%k:str(P.mpmath.nstr(x,8)) if not isinstance(x,int) else x for k,x in list(w.arr.items())[:20]})
        self.rec(name,st,r.method,'goal %s under %s; model %s'%(T.show(goal,6),[T.show(p,5) for p in pc][:12],m),time.time()-t,bounded)
        return False
    def check(self,name,cond,detail='',method='syntactic',bounded=False):
        return self.rec(name,'proved' if cond else 'refuted',method,detail,0.0,bounded)
    def vacuity(self,name,pc):
        """the precondition must be satisfiable."""
        t=time.time(); ok=P.feasible(list(pc),5000)
        return self.rec('vacuity: '+name,'proved' if ok else 'refuted','z3-sat','precondition unsatisfiable' if not ok else '',time.time()-t)
    def vcs(self,name,eng,seen=None):
        """discharge the run-time-error obligations collected by an engine."""
        from .cexec import relevant
        done=set()
        for kind,pc,goal,where in eng.vcs:
            rel=relevant(pc,goal)
            key=(goal,tuple(sorted(p.h for p in rel)))
            if key in done: continue
            done.add(key)
            if kind=='real-domain': self.domain('%s: %s %s'%(name,kind,where),goal,rel); continue
            if not self.true('%s: %s %s'%(name,kind,where),goal,rel) and len(rel)<len(pc):
                self.obs.pop(); self.true('%s: %s %s'%(name,kind,where),goal,pc)
        eng.vcs=[]
    def domain(self,name,goal,pc):
        """definedness of a real operation; not proved is listed but never a violation by itself, because an infinity
        or NaN that no output depends on is harmless (a division moved above its guard)"""
        t=time.time(); pc=[p for p in pc if p is not T.TRUE]; r=P.prove_bool(goal,pc,4000)
        self.rec(name,'proved' if r.status=='proved' else 'unknown',r.method,'' if r.status=='proved' else 'goal %s under %s'%(T.show(goal,6),[T.show(p,5) for p in pc][:12]),time.time()-t)
    def attempt(self,name,fn,*a,**k):
        """run an obligation generator; tool limits become 'unsupported'."""
        t=time.time()
        self.defs=[]
        try: return fn(*a,**k)
        except (Unsupported,ParseError,NotImplementedError,RecursionError) as e:
            self.rec(name,'unsupported','engine','%s: %s'%(type(e).__name__,e),time.time()-t)
        except Exception as e:
            self.rec(name,'unsupported','engine-error','%s: %s\n%s'%(type(e).__name__,e,traceback.format_exc()[-900:]),time.time()-t)
        finally: self.defs=[]
        return None
    # ---- verdict
    def summary(self):
        s={}
        for o in self.obs: s[o['status']]=s.get(o['status'],0)+1
        return s
