"""Contract of split_collect (C28), with threads by contract: a started thread runs at some time before it is joined; what it raises is not seen by the others."""
import types, itertools, numpy as np
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, explore, tr, tn, tt, Unsupported
from .pylib import full_loader, SUMS
W='traceon/util.py:'; K=T.var('k','I')
class Boom(Exception): pass
class Base(BaseException): pass
class Sched:
    """when the bodies of the threads run: 'start' immediately; 'join' when joined; an order: all of them at the first join, in that order."""
    def __init__(s,mode): s.mode=mode; s.all=[]
    def thread(s):
        sched=s
        class Thread:
            def __init__(t,group=None,target=None,name=None,args=(),kwargs=None,daemon=None): t.f=target; t.a=tuple(args); t.k=kwargs or {}; t.started=t.done=False; t.daemon=daemon; t.late=0; t.name=name or 't'
            def run(t): t.f(*t.a,**t.k)
            def go(t):
                if t.started and not t.done:
                    t.done=True
                    try: t.run()
                    except(Unsupported,Y.Infeasible,NotImplementedError,RecursionError): raise
                    except BaseException: pass
            def start(t):
                if t.started: raise RuntimeError('threads can only be started once')
                t.started=True; sched.all.append(t)
                if sched.mode=='start': t.go()
            def join(t,timeout=None):
                if not t.started: raise RuntimeError('cannot join thread before it is started')
                if timeout is not None and not t.done and t.late<2: t.late+=1; return      # may return before the thread has finished
                if isinstance(sched.mode,tuple):
                    for i in sched.mode:
                        if i<len(sched.all): sched.all[i].go()
                t.go()
            def is_alive(t): return t.started and not t.done
        return Thread
class Lock:
    def __enter__(s): return s
    def __exit__(s,*a): return False
    def acquire(s,*a,**k): return True
    def release(s): pass
def env(ctx,nthreads,mode,cpus=None):
    L,B,lib=full_loader(ctx.unit(),SUMS()); sch=Sched(mode)
    L.stubs.pop('traceon.util',None); L.mods.pop('traceon.util',None)
    L.stub('threading',Thread=sch.thread(),Lock=Lock,RLock=Lock); L.stub('concurrent',futures=Y.Opaque('concurrent.futures')); L.stubs['concurrent.futures']=Y.Opaque('concurrent.futures'); L.stubs['multiprocessing']=Y.Opaque('multiprocessing')
    import os
    L.stub('os',environ=({'TRACEON_THREADS':str(nthreads)} if nthreads is not None else {}),getenv=lambda k,d=None:(str(nthreads) if nthreads is not None and k=='TRACEON_THREADS' else d),sched_getaffinity=lambda p:Cpus(cpus),cpu_count=lambda:cpus,path=os.path)
    def array_split(a,k,axis=0):
        k=tn(k); n=tt(a.n); c=None
        for q in range(1,1+max(nthreads or 1,1)):
            if T.isc(k): c=int(T.cv(k)); break
            if Y.branch(T.eq(k,T.I(q))): c=q; break
        if c is None: raise Unsupported('number of parts')
        if c<1: raise ValueError('number sections must be larger than 0.')
        q,r=T.fresh('q','I'),T.fresh('r','I'); Y.cur.pc+=[T.eq(n,T.add(T.mul(T.I(c),q),r)),T.le(T.IZERO,r),T.lt(r,T.I(c)),T.le(T.IZERO,q)]
        o=[T.IZERO]
        for j in range(c): o.append(T.add(o[-1],q,T.ite(T.lt(T.I(j),r),T.IONE,T.IZERO)))
        return [A.SArr(T.sub(o[j+1],o[j]),a.tail,(lambda i,j=j:a.elem(T.add(o[j],i))),a.dt) for j in range(c)]
    L.np.extra['array_split']=array_split
    M=L.get('traceon.util')
    return L,M,sch
class Cpus:
    def __init__(s,n): s.n=n
    def __len__(s): return s.n
def span(p,name):
    """(first, length) of a part of the array."""
    if not hasattr(p,'elem') or not hasattr(p,'n'): raise Unsupported('part of the array')
    t=[tt(x) for x in np.ravel(p.elem(K))][0]
    if t.op!='f' or t.args[0]!=name: raise ValueError('not a part of the array')
    return T.sub(t.args[1],K),p.n
class Res:
    def __init__(s,j,o,n): s.j=j; s.o=o; s.n=n
def v_split_collect(ctx):
    ctx.function(W+'split_collect','every part of the input is processed exactly once, the results are in order, a failure of any part is raised','bounded')
    ctx.bounded.append('split_collect: 1 to 4 worker threads, bodies run one after the other in every order (arrays of any length); each part failing alone, pairs and all failing')
    for nt in(1,2,3,4):
        modes=['start','join']+[p for p in itertools.permutations(range(nt)) if p!=tuple(range(nt))] if nt<4 else ['start','join',(3,2,1,0),(1,3,0,2)]
        for debug in((False,True) if nt==1 else (False,)):
            for mode in modes:
                for tail in((),(3,)) if mode=='join' else ((),):
                    fails=[()]
                    if not debug: fails+=[c for r in range(1,nt+1) for c in itertools.combinations(range(nt),r) if r in(1,2,nt)] if mode in('start','join') else [(0,),(nt-1,)]
                    else: fails+=[(0,)]
                    for F in fails:
                        for exc in((Boom,Base) if F and mode=='join' else (Boom,)): one(ctx,nt,debug,mode,tail,F,exc)
def one(ctx,nt,debug,mode,tail,F,exc):
    L,M,sch=env(ctx,nt,mode); lab='split_collect (%d threads%s, %s%s)'%(nt,', debug' if debug else '',mode if isinstance(mode,str) else 'order '+''.join(map(str,mode)),', parts %s fail'%(F,) if F else '')
    M.DEBUG=debug
    if debug: M.logging=types.SimpleNamespace(log_debug=lambda *a:None,log_info=lambda *a:None)
    N=X('N','I'); a=A.arr('a',N,tail); log=[]; failed=[]
    def f(part):
        o,n=span(part,'free_a_0'); j=len(log); pos=None
        log.append((o,n))
        # which part this is: the number of parts before it, decided by its offset among the parts of this call
        for q in F:
            if is_part(o,q,sch,log): failed.append(q); raise exc('part %d'%q)
        return Res(j,o,n)
    f.__name__='f'
    parts=[]
    osp=L.np.extra['array_split']
    def rec_split(*x,**k): r=osp(*x,**k); parts[:]=[span(p,'free_a_0') for p in r]; return r
    L.np.extra['array_split']=rec_split
    def is_part(o,q,sch,log):
        if not parts: return q==0
        return q<len(parts) and (parts[q][0] is o or P.prove_bool(T.eq(parts[q][0],o),Y.cur.pc).status=='proved' and parts[q][1] is log[-1][1])
    def go():
        log.clear(); failed.clear(); sch.all.clear(); parts.clear()
        try: return 'ok',M.split_collect(f,a),list(log),list(failed)
        except(Unsupported,Y.Infeasible,NotImplementedError,RecursionError): raise
        except BaseException as e: return 'raise',e,list(log),list(failed)
    def body():
        n=0
        for o in explore(go,[T.le(T.IZERO,tt(N))]):
            if o.kind!='ok': ctx.check(lab+': runs',False,repr(o.val)); continue
            kind,r,lg,fl=o.val; n+=1
            if fl:
                ctx.check(lab+': the failure is reported to the caller',kind=='raise','returned normally although parts %s failed'%fl,bounded=True)
                if kind=='raise': ctx.check(lab+': the failure is the one that happened',isinstance(r,exc) or exc.__name__ in repr(r) or isinstance(getattr(r,'__cause__',None),exc),repr(r),bounded=True)
                continue
            if not ctx.check(lab+': no failure is invented',kind=='ok',repr(r),bounded=True): continue
            if not ctx.check(lab+': one result per processed part',isinstance(r,(list,tuple)) and all(isinstance(x,Res) for x in r) and len({id(x) for x in r})==len(r)==len(lg),'%d results for %d processed parts'%(len(r) if isinstance(r,(list,tuple)) else -1,len(lg)),bounded=True): continue
            end=T.IZERO; g=[]
            for x in r: g.append(T.eq(x.o,end)); end=T.add(x.o,x.n); g.append(T.le(T.IZERO,x.n))
            ctx.true(lab+': the parts are consecutive, in order, and cover the input once',T.band(*g,T.eq(end,tt(N))),o.pc,bounded=True)
        ctx.check(lab+': reachable',n>0,bounded=True)
    ctx.attempt(lab,body)
class SymList:
    """[x]*n for any n: the values stored so far."""
    __nosnap__=True
    def __init__(s,n): s.n=tt(n); s.st=[]
    def __len__(s): return S(s.n)
    def __setitem__(s,k,v):
        Y.cur.events.append(('index',A.inrange(tt(k),s.n),list(Y.cur.pc)+rng())); s.st.append((tt(k),v))
    def __getitem__(s,k): raise Unsupported('reading a list of arbitrary length')
    def __iter__(s): raise Unsupported('iterating a list of arbitrary length')
def rng(): return [T.band(T.le(lo,g),T.lt(g,hi)) for g,(lo,hi) in A.GEN.items()]
def v_any_threads(ctx):
    """any number of threads: an arbitrary thread processes its own part, stores it in its own place, and reports its failure."""
    ctx.function(W+'split_collect','every part of the input is processed exactly once, the results are in order, a failure of any part is raised','contract')
    for mode in('start','join',(1,0)):
        for tail in((),(3,)):
            c=X('cpus','I'); L,M,sch=env(ctx,None,mode,c); M.DEBUG=False; N=X('N','I'); a=A.arr('a',N,tail); lab='split_collect (any number of threads%s, %s)'%(', rows' if tail else '',mode if isinstance(mode,str) else 'reverse order'); log=[]; failed=[]; nparts=[]
            off=lambda i:T.mk('f',('free_off',tt(i)),'I')
            def split(x,k,axis=0):
                k=tn(k)
                if x is not a: raise Unsupported('other array')
                Y.cur.events.append(('index',T.lt(T.IZERO,k),list(Y.cur.pc))); nparts[:]=[k]; Y.cur.pc+=[T.eq(off(T.IZERO),T.IZERO),T.eq(off(k),tt(N))]
                return A.GenList(k,lambda i:A.SArr(T.sub(off(T.add(i,T.IONE)),off(i)),a.tail,lambda j:a.elem(T.add(off(i),j)),a.dt))
            L.np.extra['array_split']=split
            def f(part):
                o,n=span(part,'free_a_0'); log.append((o,n))
                if Y.branch(T.predv('fails',o)): failed.append(o); raise Boom('part')
                return Res(len(log)-1,o,n)
            f.__name__='f'
            def go():
                log.clear(); failed.clear(); sch.all.clear(); nparts.clear(); Y.LISTMUL[0]=lambda xs,n: SymList(n) if len(xs)==1 else (_ for _ in()).throw(Unsupported('list repetition'))
                try: r='ok',M.split_collect(f,a)
                except(Unsupported,Y.Infeasible,NotImplementedError,RecursionError): raise
                except BaseException as e: r='raise',e
                finally: Y.LISTMUL[0]=None
                return r+(list(log),list(failed),list(sch.all),dict(A.GEN),nparts[0] if nparts else None)
            def body():
                kinds=set()
                for o in explore(go,[T.le(T.IZERO,tt(N)),T.lt(T.IZERO,tt(c))]):
                    if o.kind!='ok': ctx.check(lab+': runs',False,repr(o.val)); continue
                    kind,r,lg,fl,ths,gens,k=o.val; pc=o.pc+[T.band(T.le(lo,g),T.lt(g,hi)) for g,(lo,hi) in gens.items()]; kinds.add(bool(fl))
                    for ev in o.events:
                        if ev[0]=='index': ctx.true(lab+': index in range',ev[1],ev[2]+pc)
                    if fl: ctx.check(lab+': the failure of an arbitrary part is reported',kind=='raise','returned normally'); continue
                    if not ctx.check(lab+': no failure is invented',kind=='ok',repr(r)): continue
                    if k is None: ctx.rec(lab,'unsupported','structure','np.array_split is not used'); continue
                    if not isinstance(r,SymList): ctx.rec(lab,'unsupported','structure','results'); continue
                    A.prove(ctx,lab+': as many results as parts',T.eq(r.n,k),pc)
                    gs=[g for g in gens if any(T.occurs(g,q) for q,_ in r.st)]
                    if not(len(r.st)==len(gs)==len(lg) and len(gs)==2 and len({id(v) for _,v in r.st})==len(r.st)): ctx.rec(lab,'unsupported','structure','%d stores, %d threads, %d calls'%(len(r.st),len(ths),len(lg))); continue
                    for q,v in r.st:
                        if not ctx.check(lab+': the result of the function is stored',isinstance(v,Res)): continue
                        A.prove(ctx,lab+': stored in the place of its part',T.band(T.eq(v.o,off(q)),T.eq(v.n,T.sub(off(T.add(q,T.IONE)),off(q)))),pc)
                        g=[g for g in gens if T.occurs(g,q)]
                        if len(g)==1:
                            # every place is filled exactly once: the place is the thread's own index, and the indices run over all places
                            lo,hi=gens[g[0]]; A.prove(ctx,lab+': every place is filled once',T.band(T.eq(q,g[0]),T.eq(lo,T.IZERO),T.eq(hi,k)),pc)
                        else: ctx.rec(lab+': every place is filled once','unsupported','structure','place')
                ctx.check(lab+': with and without failure',kinds=={True,False},str(kinds))
            ctx.attempt(lab,body)
def v_threads(ctx):
    """get_number_of_threads: the requested number, else half the cpus, at least one."""
    ctx.function(W+'get_number_of_threads','TRACEON_THREADS if set; otherwise at least 1 and at most the number of cpus','contract')
    for nt in(1,7): 
        L,M,s=env(ctx,nt,'join'); lab='get_number_of_threads (TRACEON_THREADS=%d)'%nt
        ctx.attempt(lab,lambda:[ctx.check(lab,o.kind=='ok' and tt(o.val) is T.I(nt),repr(o.val)) for o in explore(M.get_number_of_threads)])
    c=X('cpus','I'); L,M,s=env(ctx,None,'join',c); lab='get_number_of_threads'
    def go():
        for o in explore(M.get_number_of_threads,[T.lt(T.IZERO,tt(c))]):
            if ctx.check(lab+': returns',o.kind=='ok',repr(o.val)): ctx.true(lab+': at least one, at most the cpus',T.band(T.le(T.IONE,tn(o.val)),T.le(tn(o.val),tt(c))),o.pc)
    ctx.attempt(lab,go)
