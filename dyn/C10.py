import numpy as np, math
from . import lib as L, tr as R
def common(D,t,y,p,v0,b,kind):
    D.expect(len(t)==len(y) and y.ndim==2 and y.shape[1]==6,'one state per time')
    D.expect(np.array_equal(y[0,:3],np.array(p,float)),'starts at exactly the given position',got=y[0],want=p); D.expect(t[0]==0,'starts at time zero',got=t[0])
    D.expect(np.all(np.diff(t)>0),'times strictly increase'); D.expect(np.all(np.isfinite(y)),'finite states')
    lo,hi=np.array(b,float).T; ins=np.all((lo<=y[:,:3])&(y[:,:3]<=hi),axis=1)
    D.expect(np.all(ins[:-1]),'every sample except possibly the last lies inside the bounds',first_outside=int(np.argmin(ins)),samples=len(t)); D.expect(not ins[-1],'the last sample lies outside the bounds',got=y[-1])
def run(D):
    import traceon.tracing as T
    rng=D.rng
    for k in range(D.n(60,600)):
        kind=R.KINDS[k%4]; f,F,data=R.make(rng,kind,scale=float(rng.choice([.1,1,5.]))); p,v=R.start(rng,kind,data)
        b=np.array([[-rng.uniform(.13,.3),rng.uniform(.13,.3)],[-rng.uniform(.13,.3),rng.uniform(.13,.3)],[-rng.uniform(.16,.4),rng.uniform(.16,.4)]])
        if k%5==0: p=rng.integers(-1,2,size=3)*0; b=np.array([[-1,1]]*3) if kind in('axial','axial3d') else b
        if k%7==0: b=b.tolist(); p=list(map(float,p))
        if k%11==0: b=np.array(b); b[int(rng.integers(0,3))]=[3.,4.]      # starts outside
        atol=float(rng.choice([1e-10,1e-7])); D.case(kind=kind,position=p,velocity=v,bounds=b,atol=atol)
        p0,v0=np.array(p),np.array(v); q=R.trace(D,f,F,b,p,v,atol=atol)
        if q is None: continue
        t,y=q; common(D,t,y,p,v,b,kind)
        vs=math.sqrt(2*np.linalg.norm(v)*1.602176634e-19/9.1093837015e-31)*v/np.linalg.norm(v); D.close(y[0,3:],vs,'starts with exactly the given velocity',rtol=1e-8,atol=1e-6)
        D.expect(np.array_equal(p0,p) and np.array_equal(v0,v),'inputs are not modified')
        t2,y2=f.get_tracer(b)(p,v,atol=atol); D.expect(np.array_equal(t,t2) and np.array_equal(y,y2),'tracing twice gives the same trajectory')
def blocks(D):
    """field-free particles whose trajectory ends right before, at, or right after the end of the storage block"""
    import traceon.solver as S, traceon.backend as B, traceon.tracing as T
    N=B.TRACING_BLOCK_SIZE; rng=D.rng
    for kind in R.KINDS:
        for last in(N-2,N-1,N,2*N-2,2*N-1) if kind in('radial','axial') or not D.quick else (N-1,):
            if kind=='radial': f=S.FieldRadialBEM()
            elif kind=='3d': f=S.Field3D_BEM()
            elif kind=='axial': f,_,_=R.make(rng,'axial',0.)
            else: f,_,_=R.make(rng,'axial3d',0.)
            zmax=.01*(last-.5); b=[[-1.,1.],[-1.,1.],[-1.,zmax]]; d=np.array([1e-7,-2e-7,1.]); v=T.velocity_vec(30.,d); p=np.array([.1,-.2,0.]); D.case(kind=kind,last_sample=last,zmax=zmax)
            t,y=f.get_tracer(b)(p,v); common(D,t,y,p,v,b,kind); D.expect(len(t)==last+1,'number of samples',got=len(t),want=last+1)
            D.close(np.diff(y[:,2]),np.full(last,.01),'every step of a free particle is the maximum step (no sample lost, repeated or altered)',rtol=1e-6,atol=0)
            D.close(y[:,:3],p+np.outer(t,y[0,3:]),'free particle moves in a straight line',rtol=1e-9,atol=1e-9); D.expect(np.all(y[:,3:]==y[0,3:]),'free particle keeps its velocity')
def joined(D):
    """gyrating particle: steps across the block boundary are the same Runge-Kutta-Fehlberg steps"""
    import traceon.solver as S, traceon.interpolation as I, traceon.backend as B, traceon.tracing as T
    N=B.TRACING_BLOCK_SIZE; rng=D.rng
    for k in range(D.n(2,8)):
        z=np.linspace(-50.,50.,3); ce=np.zeros((2,9,6)); cm=np.zeros((2,9,6)); H=2.0e4*(1+rng.random()); cm[:,1,5]=-H
        f=object.__new__(I.FieldRadialAxial); I.FieldAxial.__init__(f,z,ce,cm); F=lambda p:(np.zeros(3),np.array([0,0,H]))
        v=T.velocity_vec(200.,[1.,0,.004]); p=np.array([0.,0.,-.3]); L_=None; steps=130000
        b=np.array([[-1.,1.],[-1.,1.],[-1.,3.]]); D.case(H=H,velocity=v); t,y=f.get_tracer(b)(p,v,atol=1e-9); common(D,t,y,p,v,b,'axial')
        if len(t)<=N: 
            b[2,1]=1e2; t,y=f.get_tracer(b)(p,v,atol=1e-9); common(D,t,y,p,v,b,'axial')
        D.samples.append('%d samples'%len(t))
        for m in [q*N for q in range(1,len(t)//N+1)]+[0,N//2]:
            for i in range(m-4,m+4):
                if 0<=i<len(t)-1: R.check_step(D,F,y[i],y[i+1],t[i+1]-t[i],t[i],1e-9,'sample %d'%i,None,tolmul=3.)
def guarded(D):
    """the storage block ends on an inaccessible page: one write too many kills the process"""
    import traceon.backend as B, ctypes as C, traceon.solver as S
    N=B.TRACING_BLOCK_SIZE
    for kind,zmax in(('radial',.01*(N-1-.5)),('radial',.01*(N-2-.5)),('radial',1e9),('callback',1e9),('3d',1e9)):
        t=L.guard(np.zeros(N)); y0=np.zeros((N,6)); y0[0]=[0,0,0,0,0,1e6]; y=L.guard(y0); b=np.array([[-1.,1.],[-1.,1.],[-1.,zmax]]); D.case(kind=kind,zmax=zmax)
        if kind=='radial': n=B.backend_lib.trace_particle_radial(t,y,b,1e-10,None,B.EffectivePointCharges2D(S.EffectivePointCharges.empty_2d()),B.EffectivePointCharges2D(S.EffectivePointCharges.empty_2d()),B.EffectivePointCharges3D(S.EffectivePointCharges.empty_3d()))
        elif kind=='3d': n=B.backend_lib.trace_particle_3d(t,y,b,1e-10,B.EffectivePointCharges3D(S.EffectivePointCharges.empty_3d()),B.EffectivePointCharges3D(S.EffectivePointCharges.empty_3d()),None)
        else: n=B.backend_lib.trace_particle(t,y,B.wrap_field_fun(lambda *a: np.zeros(3)),b,1e-10,None)
        D.expect(0<n<=N,'number of samples fits the block',got=n); D.expect(np.all(np.diff(t[:n])>0),'times increase')
CASES=[('tracers',run),('block-boundaries',blocks),('joined-blocks',joined),('guarded-block',guarded)]
