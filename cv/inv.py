"""Loop invariants: one arbitrary iteration from an arbitrary state satisfying the invariant."""
from .cexec import *
from . import term as T, prove as P

class Invariant:
    """roles: {name: initial value term}; inv(vals)-> assumed facts (also checked on entry and after every iteration).
    on_end(head,end,state): extra obligations for an iteration that continues; on_return gets path via the normal results."""
    def __init__(s,ctx,label,roles,inv,on_end=None,arrays=(),nth=1,facts=None,optional=(),norm=None):
        s.norm=norm or (lambda ts,hv: ts)
        s.optional=set(optional)
        s.ctx=ctx; s.label=label; s.roles=roles; s.inv=inv; s.on_end=on_end; s.arrays=list(arrays); s.nth=nth; s.count=0; s.used=False
        s.facts=facts
    def __call__(s,eng,st,n,kind,cond,inc,body):
        s.count+=1
        if s.used or s.count<s.nth or s.plain(eng,st,cond,inc): return None
        s.used=True
        # cells modified by the loop
        hav={}; arrs={}
        rec=eng.record; eng.record=False
        try:
            for _ in range(12):
                h=s.head(eng,st,hav,arrs)
                c=eng.cond(h,cond) if cond and cond.get('kind') else T.TRUE
                b=h.copy(); b.pc.append(c); new=False
                for x,o,v in eng.stmt(b,body):
                    if o in('normal','continue') and inc is not None and inc.get('kind'): eng.ev(x,inc)
                    for oid,cells in h.mem.items():
                        ec=x.mem.get(oid,{})
                        for off in set(cells)|set(ec):
                            a,w=cells.get(off,UNDEF),ec.get(off,UNDEF)
                            if a is w or (isinstance(a,Ptr) and a.same(w)) or (oid,off) in hav: continue
                            new=True
                            hav[(oid,off)]=T.fresh('h_'+eng.objs[oid].name,w.sort) if isinstance(w,T.T) else UNDEF
                    for oid in h.log:
                        if len(x.log.get(oid,[]))!=len(h.log[oid]) and oid not in arrs:
                            eng.n+=1; arrs[oid]='%s@%d'%(eng.objs[oid].name,eng.n); new=True
                if not new: break
            else: raise Unsupported('loop frame does not stabilise')
        finally: eng.record=rec
        role={}; s.alt={}
        for name,terms in s.roles.items():
            for ai,term in enumerate(terms if isinstance(terms,list) else [terms]):
                ks=[k for k,v in hav.items() if isinstance(v,T.T) and s.same(eng,st,st.mem[k[0]].get(k[1]),term) and k not in role.values()]
                if ks: role[name]=ks[0]; s.alt[name]=ai; break
            else:
                if name not in s.optional: raise Unsupported('no loop variable with the initial value of '+name)
        s.rolekeys=role; s.arrs=arrs
        get=lambda x:{k:x.mem[o].get(f) for k,(o,f) in role.items()}
        v0=get(st)
        for nm,g in s.inv(v0,lambda a: None): s.ctx.true('%s: invariant holds on entry: %s'%(s.label,nm),g,st.pc)
        h=s.head(eng,st,hav,arrs); hv=get(h); s.head_vals=hv; s.head_state=h
        for nm,g in s.inv(hv,arrs): h.pc.append(g)
        for g in (s.facts(hv,h,arrs,eng) if s.facts else ()): h.pc.append(g)
        c=eng.cond(h,cond) if cond and cond.get('kind') else T.TRUE
        out=[]
        ex=h.copy(); ex.pc.append(T.bnot(c)); 
        if P.feasible(ex.pc,1000): out.append((ex,'normal',None)); s.exit_state=ex
        b=h.copy(); b.pc.append(c); s.body_cond=c
        for x,o,v in eng.stmt(b,body):
            if o in('normal','continue'):
                if inc is not None and inc.get('kind'): eng.ev(x,inc)
                ev=get(x)
                for nm,g in s.inv(ev,arrs):
                    z=s.norm([g]+list(x.pc),hv); s.ctx.true('%s: invariant preserved: %s'%(s.label,nm),z[0],z[1:])
                if s.on_end: s.on_end(hv,ev,x)
            elif o=='break': out.append((x,'normal',None))
            else: out.append((x,o,v))
        return out
    def plain(s,eng,st,cond,inc):
        """loops with a constant trip count are unrolled, not cut by an invariant."""
        try: c=eng._peek(st,cond)
        except Unsupported: return False
        return T.isc(c) and eng.const_trip(st,cond,inc) is not None
    def head(s,eng,st,hav,arrs):
        h=st.copy()
        for (oid,off),v in hav.items(): h.mem[oid][off]=v
        for oid,ver in arrs.items(): h.log[oid]=h.log[oid]+[ver]
        return h
    def same(s,eng,st,a,b):
        if not isinstance(a,T.T) or a.sort!=b.sort: return False
        if a is b: return True
        d=T.sub(a,b)
        if a.sort=='R': return P.poly_zero(d) or P.prove_zero(d,st.pc,limit=5).status=='proved'
        return d is T.IZERO or (T.isc(d) and T.cv(d)==0)
