import numpy as np
from . import lib as L, tr as R
def run(D):
    rng=D.rng
    for k in range(D.n(40,400)):
        kind=R.KINDS[k%4]; f,F,data=R.make(rng,kind,scale=float(rng.choice([.1,1,10.]))); p,v=R.start(rng,kind,data); b=np.array([[-.2,.2],[-.2,.2],[-.2,.2]]); atol=float(rng.choice([1e-10,1e-8,1e-12,1e-6]))
        D.case(kind=kind,position=p,velocity=v,atol=atol,bounds=b)
        q=R.trace(D,f,F,b,p,v,**(dict(atol=atol) if k%3 else {})); atol=atol if k%3 else 1e-10
        if q is None: continue
        t,y=q
        D.expect(len(t)==len(y) and y.shape[1]==6,'one state per time'); hmax=.01/np.linalg.norm(y[0,3:])
        idx=range(len(t)-1) if len(t)<25 else sorted(set([0,1,len(t)-2,len(t)-3])|set(map(int,rng.integers(0,len(t)-1,size=8))))
        for i in idx: R.check_step(D,F,y[i],y[i+1],t[i+1]-t[i],t[i],atol,kind+' step %d'%i,hmax)
def callback(D):
    """the general tracer with an arbitrary field function"""
    import traceon.backend as B
    rng=D.rng
    for k in range(D.n(12,120)):
        A=rng.normal(size=(3,6))*np.array([50,50,50,1e-5,1e-5,1e-5]); c=rng.normal(size=3)*30; fun=lambda x,y,z,vx,vy,vz: c+A@np.array([x,y,z,vx,vy,vz])+np.array([np.sin(9*y),x*z*80,0])
        p=rng.uniform(-.1,.1,3); v=rng.normal(size=3)*2e6; atol=float(rng.choice([1e-8,1e-10,1e-12])); b=np.array([[-.3,.3]]*3); D.case(position=p,velocity=v,atol=atol)
        t,y=B.trace_particle(p,v,fun,b,atol); hmax=.01/np.linalg.norm(v)
        class G: pass
        def step(y0,h):
            ks=[]
            for i in range(6):
                yi=y0+sum((q*w for q,w in zip(R.B_[i],ks)),np.zeros(6)); ks.append(h*np.concatenate([yi[3:],R.EM*fun(*yi)]))
            ks=np.array(ks); e=np.abs(np.array(R.CT)@ks); return y0+np.array(R.CH)@ks,e[:3].max()+h*e[3:].max(),np.abs(ks).max(0)
        for i in range(0,len(t)-1,max(1,len(t)//10)):
            h=t[i+1]-t[i]; yr,err,sc=step(y[i],h); tol=sc*(4e-15*t[i+1]/h+3e-9)+1e-14*np.abs(yr)+1e-16; D.expect(np.all(np.abs(yr-y[i+1])<=tol),'step with a general field function',got=y[i+1],want=yr); D.expect(err<=atol*(1+1e-4)+1e-15,'error within tolerance',error=err); D.expect(h<=hmax*(1+1e-9)+1e-15*t[i],'maximum step',h=h)
def order(D):
    """fifth-order convergence of the recorded step against a fine reference solution (uniform E)"""
    import traceon.backend as B
    for k in range(D.n(10,50)):
        g=D.rng.normal(size=3)*40; p=np.zeros(3); v=D.rng.normal(size=3)*1e6; D.case(field=g,velocity=v); t,y=B.trace_particle(p,v,lambda *a: g,np.array([[-.05,.05]]*3),1e-10)
        D.close(y[:,:3],v*t[:,None]+.5*R.EM*g*t[:,None]**2,'uniform acceleration is integrated exactly',rtol=1e-9,atol=1e-13); D.close(y[:,3:],v+R.EM*g*t[:,None],'velocity under uniform acceleration',rtol=1e-9,atol=1e-4)
CASES=[('tracers',run),('field-function',callback),('uniform-field',order)]
