#!/opt/venv/bin/python
"""check.py ID: decide one property on /repo's current tree.  See DESIGN.md."""
import sys, os, json, time, importlib, subprocess, shutil, tempfile, re
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); sys.setrecursionlimit(20000)
sys.dont_write_bytecode=True
if os.environ.get('PYTHONHASHSEED')!='0':      # reproducible term order
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)
import cv
from cv import term as T, prove as P
from cv.ctx import Ctx, REPO
from cv import build as B

def known_findings(pid):
    out={}
    p=os.path.join(HERE,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)',l)
            if m and m.group(1)==pid: out[m.group(2)]=m.group(3).strip()
    return out

def run_dyn(ctx,tier,known,only=None,timeout=500):
    """returns dict(cases, failures, harness)"""
    res={'cases':[],'fail':None,'harness':[]}
    if not os.path.exists(os.path.join(HERE,'dyn',ctx.pid+'.py')): return res
    d=tempfile.mkdtemp(prefix='vp_build_')
    try:
        try: B.build(d)
        except B.BuildError as e:
            res['fail']={'case':'build','msg':'the backend does not compile: '+str(e)[:1500]}; return res
        out=os.path.join(d,'out.json')
        env=dict(os.environ,VP_KNOWN=json.dumps(list(known)),TRACEON_THREADS=os.environ.get('VP_THREADS','2'),OPENBLAS_NUM_THREADS='2',OMP_NUM_THREADS='2',PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg',PYTHONHASHSEED='0')
        env.pop('PYTHONPATH',None)
        cmd=[sys.executable,'-m','cv.dynrun',ctx.pid,out,str(ctx.seed),tier,d]+([only] if only else [])
        to=False
        p=subprocess.Popen(cmd,cwd=HERE,env=env,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True,start_new_session=True)
        try: _,err=p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to=True
            import signal; os.killpg(p.pid,signal.SIGKILL); _,err=p.communicate()
        try: r=json.load(open(out))
        except Exception: r={'cases':[]}
        res['cases']=r['cases']
        for c in r['cases']:
            if c['status']=='fail' and res['fail'] is None: res['fail']={'case':c['name'],'msg':c['msg']}
            if c['status']=='harness': res['harness'].append({'case':c['name'],'msg':c['msg']})
        if not r.get('done'):
            try: last=open(out+'.last').read().strip()
            except OSError: last='?'
            if res['fail'] is None:
                if to: res['fail']={'case':last.split('\n')[0],'msg':'does not return within %d s (the unchanged code takes seconds): %s'%(timeout,last)}
                elif p.returncode<0: res['fail']={'case':last.split('\n')[0],'msg':'the process died with signal %d on: %s'%(-p.returncode,last)}
                elif 'Traceback' not in err: res['fail']={'case':last.split('\n')[0],'msg':'the library ended the process (exit code %d) on: %s'%(p.returncode,last)}
                else:
                    res['fail_import']=err[-2000:]
                    if "traceon" in err and 'harness' not in err: res['fail']={'case':'import','msg':'running the package failed: '+err[-1500:]}
                    else: res['harness'].append({'case':'run','msg':err[-2000:]})
    finally: shutil.rmtree(d,ignore_errors=True)
    return res

def main():
    pid=sys.argv[1]
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    if '--thorough' in sys.argv: tier='thorough'
    only=None
    if '--replay' in sys.argv:
        j=json.load(open(sys.argv[sys.argv.index('--replay')+1])); only=j.get('case'); seed=j.get('seed',seed); tier=j.get('tier',tier)
        print(json.dumps(j,indent=1)[:4000])
    ctx=Ctx(pid,tier,seed)
    known=known_findings(pid)
    mod=None
    if os.path.exists(os.path.join(HERE,'props',pid+'.py')) and only is None:
        mod=importlib.import_module('props.'+pid)
        try: mod.static(ctx)
        except Exception as e:
            import traceback
            ctx.rec('static','unsupported','engine-error',traceback.format_exc()[-2500:])
    t_static=time.time()-ctx.t0
    dyn=run_dyn(ctx,tier,known,only,timeout=3000 if tier=='thorough' else max(120,780-t_static))
    # verdict
    s=ctx.summary(); bad=[o for o in ctx.obs if o['status']=='refuted']+[o for o in ctx.obs if o['status']=='failed']; unk=[o for o in ctx.obs if o['status'] in('unknown','unsupported')]
    khit=[]
    for c in dyn['cases']: khit+=c.get('known',[])
    for k in dict.fromkeys(khit): print('KNOWN-FINDING: property=%s %s'%(pid,known[k]))
    rc=0
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    rp=os.path.join(HERE,'evidence','replay_%s.json'%pid)
    viol=None
    if dyn['fail'] is not None:
        viol=dict(property=pid,kind='failing-input',case=dyn['fail']['case'],seed=seed,tier=tier,message=dyn['fail']['msg'],failed_obligations=bad[:10],
            how_to_replay='/opt/venv/bin/python /verif/check.py %s --replay %s'%(pid,rp))
        tail=''
    elif bad:
        viol=dict(property=pid,kind='failed-obligation',failed_obligations=bad[:20],undischarged=unk[:10],message=bad[0]['name']); tail=' no-failing-input-found'
    if viol is not None and only is None:
        with open(rp,'w') as f: json.dump(viol,f,indent=1)
    if viol is not None:
        print(('failing input: ' if viol['kind']=='failing-input' else 'failed obligation: ')+viol['message'][:1500])
        for o in bad[:5]: print('failed obligation:',o['name'],'|',o['detail'][:400])
        print('VIOLATION property=%s replay=%s%s'%(pid,rp,tail)); rc=1
    if rc==0 and only is None:
        nob=len(ctx.obs); nev=sum(c['evals'] for c in dyn['cases'])
        if mod is not None and nob==0: print('no obligations were generated'); rc=2
        if nob==0 and nev==0: print('nothing was checked'); rc=2
    proved=[o for o in ctx.obs if o['status']=='proved']
    method={}
    for o in proved: method[o['method']]=method.get(o['method'],0)+1
    level=getattr(mod,'LEVEL','proof') if mod is not None else 'exploration'
    ev=dict(property=pid,tier=tier,seed=seed,level=level,wall_s=round(time.time()-ctx.t0,2),coverage=dict(
        obligations=len(ctx.obs),discharged=len(proved),undischarged=[dict(name=o['name'],status=o['status'],detail=o['detail'][:300]) for o in unk][:40],
        refuted=len(bad),by_back_end=method,bounded_obligations=sum(1 for o in ctx.obs if o['bounded']),
        checker_cmd='/opt/venv/bin/python /verif/check.py '+pid,
        trusted_base=ctx.assume,functions_under_contract=ctx.functions,bounded=ctx.bounded,
        solver=dict(z3_calls=P.STAT['z3_calls'],z3_s=round(P.STAT['z3_time'],2),nf_calls=P.STAT['nf_calls'],nf_s=round(P.STAT['nf_time'],2),cvc5_calls=P.STAT['cvc5_calls']),
        static_s=round(t_static,2),
        obligation_names=[o['name'] for o in ctx.obs][:400],
        evaluations=sum(c['evals'] for c in dyn['cases']),distinct_nontrivial=sum(c['distinct'] for c in dyn['cases']),contract_checks=sum(c.get('expects',0) for c in dyn['cases']),
        rule='run-time contract evaluation on the built package: each case draws inputs satisfying the precondition (seeded) and evaluates the postcondition against an independent reference; distinct by printed input',
        samples=[s_ for c in dyn['cases'] for s_ in c['samples']][:12]+[o['name'] for o in proved[:6]],
        dynamic_cases=[{k:c[k] for k in('name','status','evals','wall')} for c in dyn['cases']],harness_problems=[h['case']+': '+h['msg'][-300:] for h in dyn['harness']]))
    if only is None:
        with open(os.path.join(HERE,'evidence',pid+'.json'),'w') as f: json.dump(ev,f,indent=1)
    print('%s: obligations %d discharged %d (%s), dynamic evaluations %d, %.1f s'%(pid,len(ctx.obs),len(proved),s,ev['coverage']['evaluations'],time.time()-ctx.t0))
    for o in unk[:8]: print('  undischarged:',o['status'],o['name'],'|',o['detail'][:300].replace('\n',' '))
    for h in dyn['harness']: print('  harness:',h['case'],h['msg'][-400:])
    sys.exit(rc)
if __name__=='__main__': main()
