"""Reference tracing: independent Lorentz force, Runge-Kutta-Fehlberg step and field constructions."""
import numpy as np, math
from . import lib as L
EM=-175882001077.2163; MU0=1.25663706212e-06; E_=1.602176634e-19
B_=[[],[2/9],[1/12,1/4],[69/128,-243/128,135/64],[-17/12,27/4,-27/5,16/15],[65/432,-5/16,13/16,4/27,5/144]]
CH=[47/450,0,12/25,32/225,1/30,6/25]; CT=[-1/150,0,3/100,-16/75,-1/20,6/25]
def accel(F,y):
    E,H=F(y[:3]); return EM*(E+np.cross(y[3:],MU0*H))
def rkf(F,y,h):
    k=[]
    for i in range(6):
        yi=y+sum((b*q for b,q in zip(B_[i],k)),np.zeros(6)); k.append(h*np.concatenate([yi[3:],accel(F,yi)]))
    k=np.array(k); e=np.abs(np.array(CT)@k); return y+np.array(CH)@k, e[:3].max()+h*e[3:].max(), np.abs(k).max(0)
def poly(c,d,z0): return np.array([sum(c[i][j]*d**(5-j) for j in range(6)) for i in range(9)])
def axial_ref(z,c):
    def f(p):
        if not(z[0]<=p[2]<=z[-1]): return np.zeros(3)
        i=min(max(int(np.searchsorted(z,p[2],side='right'))-1,0),len(z)-2); d=poly(c[i],p[2]-z[i],0); r2=p[0]**2+p[1]**2
        fr=.5*(d[2]-r2/8*d[4]+r2**2/192*d[6]-r2**3/9216*d[8]); return np.array([p[0]*fr,p[1]*fr,-d[1]+r2/4*d[3]-r2**2/64*d[5]+r2**3/2304*d[7]])
    return f
def axial3d_ref(z,c):
    def f(p):
        if not(z[0]<=p[2]<=z[-1]): return np.zeros(3)
        i=min(max(int(np.searchsorted(z,p[2],side='right'))-1,0),len(z)-2); t=p[2]-z[i]; E=np.zeros(3); x,y=p[0],p[1]; w=complex(x,y)
        P=lambda q: ((q[0]*t+q[1])*t+q[2])*t+q[3]
        dP=lambda q: (3*q[0]*t+2*q[1])*t+q[2]
        r2=x*x+y*y
        for nu in range(4):
            for m in range(8):
                A,B=P(c[i][0][nu][m]),P(c[i][1][nu][m]); dA,dB=dP(c[i][0][nu][m]),dP(c[i][1][nu][m])
                wm=w**m; re,im=wm.real,wm.imag; g=A*re+B*im
                if m: w1=w**(m-1); gx=m*(A*w1.real+B*w1.imag); gy=m*(-A*w1.imag+B*w1.real)
                else: gx=gy=0.
                q=r2**nu; qx=2*nu*x*r2**(nu-1) if nu else 0.; qy=2*nu*y*r2**(nu-1) if nu else 0.
                E-=np.array([qx*g+q*gx,qy*g+q*gy,q*(dA*wm.real+dB*wm.imag)])
        return E
    return f
class Axial3D:
    def __init__(s,z,ce,cm): s.z,s.electrostatic_coeffs,s.magnetostatic_coeffs=z,ce,cm
    def get_tracer(s,b):
        import traceon.tracing as T
        return T.Tracer3DAxial(s,b)
def make(rng,kind,scale=1.,none=()):
    """a field of the given kind with independent reference F(point)->(E,H)."""
    import traceon.solver as S, traceon.interpolation as I
    Bs=scale*8e2
    if kind=='radial':
        e,m,c=[(q[0]*s,q[1],q[2]) for q,s in((L.eff2d(rng,2,rmin=.5),20*scale),(L.eff2d(rng,int(rng.integers(0,3)),rmin=.5),Bs),(L.effcur(rng,int(rng.integers(0,3))),Bs))]
        if 'e' in none: e=(e[0]*0,e[1],e[2])
        f=S.FieldRadialBEM(L.EPC(e),L.EPC(m),L.EPC(c))
        return f,lambda p: (L.field2d(p,*e),L.field2d(p,*m)+L.fieldcur(p,*c)),(e,m,c)
    if kind=='3d':
        e,m=[(q[0]*s,q[1],q[2]) for q,s in((L.eff3d(rng,2,lo=.5),20*scale),(L.eff3d(rng,int(rng.integers(0,3)),lo=.5),Bs))]
        f=S.Field3D_BEM(L.EPC(e),L.EPC(m)); return f,lambda p:(L.field3d(p,*e),L.field3d(p,*m)),(e,m)
    N=int(rng.integers(2,7)); z=np.linspace(-1.,1.,N)
    if kind=='axial':
        ce,cm=[rng.normal(size=(N-1,9,6))*s for s in(20*scale,Bs)]; f=object.__new__(I.FieldRadialAxial); I.FieldAxial.__init__(f,z,ce,cm); a,b=axial_ref(z,ce),axial_ref(z,cm)
    else:
        ce,cm=[rng.normal(size=(N-1,2,4,8,4))*s for s in(20*scale,Bs)]; f=Axial3D(z,ce,cm); a,b=axial3d_ref(z,ce),axial3d_ref(z,cm)
    return f,lambda p:(a(p),b(p)),(z,ce,cm)
KINDS=('radial','3d','axial','axial3d')
def sources(kind,data):
    if kind=='radial': return np.concatenate([s[2][...,[0,-1]].reshape(-1,2) for s in data]),'radial'
    if kind=='3d': return np.concatenate([s[2].reshape(-1,3) for s in data]),'3d'
    return np.zeros((0,3)),'3d'
def start(rng,kind,data):
    """position and velocity (in eV vector form) away from the sources."""
    import traceon.tracing as T
    r=.12; p=np.array([rng.uniform(-r,r),rng.uniform(-r,r),rng.uniform(-.15,.15)])
    if rng.random()<.2: p[:2]=0
    v=T.velocity_vec(float(rng.choice([5.,30.,500.,3000.])),rng.normal(size=3)+np.array([0,0,-1.])); return p,v
def check_step(D,F,y0,y1,dt,t,atol,what,hmax=None,tolmul=1.):
    yr,err,sc=rkf(F,y0,dt)
    eps=4e-15*(abs(t)+dt)/dt+3e-9   # the time difference is only known up to rounding of the times
    sc=np.repeat([sc[:3].max(),sc[3:].max()],3); tol=sc*eps*tolmul+1e-14*np.abs(y1)+1e-16; tol[3:]+=1e-13*np.linalg.norm(y1[3:]); tol[:3]+=1e-13*np.linalg.norm(y1[3:])*dt
    D.expect(np.all(np.abs(yr-y1)<=tol),what+': the step is the Runge-Kutta-Fehlberg step',state=y0,next=y1,want=yr,h=dt)
    D.expect(err<=atol*(1+1e-4)+1e-17*np.linalg.norm(y1[3:])*dt+1e-15,what+': the recorded step has an error estimate within the tolerance',error=err,atol=atol,state=y0,h=dt)
    if hmax is not None: D.expect(dt<=hmax*(1+1e-9)+4e-16*abs(t),what+': no step exceeds the maximum step',h=dt,hmax=hmax)
def inside(b,p): return all(b[i][0]<=p[i]<=b[i][1] for i in range(3))
import os, pickle, select, signal, time
def trace(D,f,F,b,p,v,limit=6.,field=None,**kw):
    """f.get_tracer(b)(p,v,**kw) in a forked child with a time limit; None when the particle is trapped."""
    rd,wr=os.pipe(); pid=os.fork()
    if pid==0:
        os.close(rd)
        try:
            try: r=('ok',f.get_tracer(b)(p,v,**kw))
            except BaseException as e:
                import traceback; r=('err','%s: %s\n%s'%(type(e).__name__,e,traceback.format_exc()[-1200:]))
            d=pickle.dumps(r,4)
            while d: d=d[os.write(wr,d):]
        finally: os._exit(0)
    os.close(wr); buf=[]; t0=time.time(); to=False
    while True:
        left=limit-(time.time()-t0)
        if left<=0 or not select.select([rd],[],[],left)[0]: to=True; break
        d=os.read(rd,1<<20)
        if not d: break
        buf.append(d)
    os.close(rd)
    if to: os.kill(pid,signal.SIGKILL)
    _,st=os.waitpid(pid,0)
    if to:
        # does the reference leave the bounds quickly?  then the tracer should have as well
        y=np.concatenate([p,vel(v)]).astype(float); h=hm=.01/np.linalg.norm(y[3:]); atol=kw.get('atol',1e-10); n=0
        while inside(b,y) and n<3000:
            y1,e,_=rkf(F,y,h); n+=1
            if e<=atol: y=y1
            h=min(.9*h*(atol/max(e,1e-300))**.2,hm)
        D.expect(inside(b,y),'tracing does not end although the particle leaves the bounds after %d steps'%n); return None
    D.expect(os.WIFEXITED(st),'the process died (signal %d) while tracing'%(os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0))
    k,r=pickle.loads(b''.join(buf)); D.expect(k=='ok','tracing raised an error: %s'%(r if k!='ok' else '')); return r
def vel(v):
    v=np.array(v,float); n=np.linalg.norm(v); return math.sqrt(2*n*1.602176634e-19/9.1093837015e-31)*v/n
