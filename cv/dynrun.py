"""Run-time contract evaluation on the real built code, in a child process.

usage: python -m cv.dynrun ID OUT.json SEED TIER BUILD_DIR [CASE]
Each module dyn/<ID>.py defines CASES: list of (name, function(D)).
"""
import sys, os, json, time, traceback, random, signal
class Fail(Exception): pass
class D:
    def __init__(self,out,seed,tier,name,known):
        import numpy as np
        self.out=out; self.seed=seed; self.tier=tier; self.name=name; self.evals=0; self.samples=[]; self.cur=None; self.known=known
        self.rng=np.random.default_rng([seed]+[ord(c) for c in name]); self.known_hit=[]; self.keys=set(); self.np=np
        self.quick=tier!='thorough'; self.expects=0
    def n(self,quick,thorough=None): return quick if self.quick else (thorough or quick*10)
    def case(self,**kw):
        """announce the input about to be run (also the crash record)."""
        self.cur=kw; self.evals+=1
        s=self.show(kw); self.keys.add(hash(s))
        if len(self.samples)<2: self.samples.append(s[:300])
        self.out.last(self.name,s)
    def show(self,kw):
        import numpy as np
        def f(v):
            if isinstance(v,np.ndarray): return repr(v.tolist()) if v.size<=60 else 'array%s first=%s'%(v.shape,v.ravel()[:12].tolist())
            return repr(v)
        return ', '.join('%s=%s'%(k,f(v)) for k,v in kw.items())
    def expect(self,cond,what,known=None,**kw):
        self.expects+=1
        if bool(cond): return True
        if known is not None and known in self.known:
            if known not in self.known_hit: self.known_hit.append(known)
            return False
        raise Fail('%s [input: %s] %s'%(what,self.show(self.cur or {}),self.show(kw)))
    def close(self,got,want,what,rtol=1e-8,atol=1e-11,known=None,**kw):
        import numpy as np
        w=np.asarray(want,dtype=float)
        try: g=np.asarray(got,dtype=float)
        except (TypeError,ValueError): return self.expect(False,what+': not an array of numbers',known,got=str(got)[:300])
        ok=g.shape==w.shape and np.all(np.isfinite(g)==np.isfinite(w)) and np.allclose(g,w,rtol=rtol,atol=atol)
        return self.expect(ok,what,known,got=g if g.size<=30 else g.ravel()[:30],want=w if w.size<=30 else w.ravel()[:30],**kw)
    def raises(self,f,what,exc=Exception):
        try: f()
        except exc: return True
        return self.expect(False,what+' (no error raised)')
class Out:
    def __init__(self,path): self.path=path; self.fd=os.open(path+'.last',os.O_WRONLY|os.O_CREAT|os.O_TRUNC)
    def last(self,name,s):
        b=(name+'\n'+s[:1500]+'\n').encode(); os.pwrite(self.fd,b.ljust(2048),0)
def in_package(tb,pkg):
    """does the innermost relevant frame belong to the package (or code it called)?"""
    fr=traceback.extract_tb(tb); files=[f.filename for f in fr]
    here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
    last_h=max([i for i,f in enumerate(files) if f.startswith(verif+'/')],default=-1)
    return any(f.startswith(pkg) for f in files[last_h+1:])
def unusable(e):
    """an error made by evaluating a returned value (never one made by calling something with another signature)"""
    if isinstance(e,TypeError): return not ('argument' in str(e) or 'keyword' in str(e))
    return isinstance(e,(ValueError,IndexError,KeyError,ZeroDivisionError))
def main():
    pid,outp,seed,tier,bdir=sys.argv[1:6]; only=sys.argv[6] if len(sys.argv)>6 else None
    sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0,bdir)
    os.environ.setdefault('MPLBACKEND','Agg')
    out=Out(outp); res={'cases':[]}
    def save():
        with open(outp+'.tmp','w') as f: json.dump(res,f)
        os.replace(outp+'.tmp',outp)
    save()
    known=set(json.loads(os.environ.get('VP_KNOWN','[]')))
    out.last('import','import traceon')
    import importlib, warnings; warnings.simplefilter('ignore')
    import numpy as np; np.seterr(all='ignore')
    import traceon, traceon.backend
    assert traceon.__file__.startswith(bdir),traceon.__file__
    try:
        import traceon.logging as L; L.set_log_level(L.LogLevel.SILENT)
    except Exception: pass
    mod=importlib.import_module('dyn.'+pid)
    for name,fn in mod.CASES:
        if only and name!=only: continue
        d=D(out,int(seed),tier,name,known); t=time.time()
        r={'name':name,'status':'ok','msg':''}
        try: fn(d)
        except Fail as e: r['status']='fail'; r['msg']=str(e)
        except Exception as e:
            tb=traceback.format_exc()
            if in_package(e.__traceback__,bdir): r['status']='fail'; r['msg']='unexpected %s: %s [input: %s]\n%s'%(type(e).__name__,e,d.show(d.cur or {}),tb[-1500:])
            elif unusable(e) and d.cur is not None: r['status']='fail'; r['msg']='a result has another shape or kind than on the unchanged code, it cannot be evaluated: %s: %s [input: %s]\n%s'%(type(e).__name__,e,d.show(d.cur),tb[-1500:])
            else: r['status']='harness'; r['msg']=tb[-2500:]
        r.update(evals=d.evals,distinct=len(d.keys),expects=d.expects,samples=d.samples,known=d.known_hit,wall=round(time.time()-t,2))
        res['cases'].append(r); save()
    res['done']=True; save()
main()
