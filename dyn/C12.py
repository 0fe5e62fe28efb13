import numpy as np, math
from . import lib as L, tr as R
QE=1.602176634e-19; ME=9.1093837015e-31
def force(D):
    """difference quotient of the first recorded step: acceleration = (e/m)(E + v x mu0 H) to first order, through every tracer"""
    import traceon.backend as B
    rng=D.rng
    for k in range(D.n(60,600)):
        kind=R.KINDS[k%4]; f,F,data=R.make(rng,kind,scale=float(rng.choice([.3,1.]))); p,v=R.start(rng,kind,data); D.case(kind=kind,position=p,velocity=v)
        b=np.array([[-.16,.16],[-.16,.16],[-.2,.2]]); q=R.trace(D,f,F,b,p,v,atol=1e-9)
        if q is None: continue
        t,y=q
        for i in sorted(set([0,len(t)-2]+list(map(int,rng.integers(0,len(t)-1,size=3))))): R.check_step(D,F,y[i],y[i+1],t[i+1]-t[i],t[i],1e-9,kind+': the particle is driven by E + v x mu0 (H of charges + H of currents)')
def combine(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(300,3000)):
        v,e,m,c=rng.normal(size=3)*1e6,rng.normal(size=3)*1e3,rng.normal(size=3)*1e4,rng.normal(size=3)*1e4; D.case(v=v,E=e,Hm=m,Hc=c); g=B.combine_elec_magnetic_field(v,e,m,c); w=e+np.cross(v,R.MU0*(m+c)); D.expect(np.all(np.abs(g-w)<=1e-9*(np.abs(e)+np.linalg.norm(v)*R.MU0*np.linalg.norm(m+c)+1e-12)),'E + v x mu0 (Hm + Hc)',got=g,want=w)
def parts(D):
    """each source alone drives the particle: only E, only magnetic charges, only currents"""
    import traceon.solver as S
    rng=D.rng
    for k in range(D.n(24,240)):
        e,m,c=(L.eff2d(rng,2,rmin=.5),L.eff2d(rng,2,rmin=.5),L.effcur(rng,2)); z2=lambda q:(q[0]*0,q[1],q[2]); w=k%3
        e=(e[0]*30*(w==0),e[1],e[2]); m=(m[0]*6e2*(w==1),m[1],m[2]); c=(c[0]*6e2*(w==2),c[1],c[2]); f=S.FieldRadialBEM(*[L.EPC(q) for q in(e,m,c)]); F=lambda p:(L.field2d(p,*e),L.field2d(p,*m)+L.fieldcur(p,*c)); p,v=R.start(rng,'radial',None); D.case(only='E magnetic current'.split()[w],position=p,velocity=v)
        b=np.array([[-.16,.16]]*2+[[-.2,.2]]); q=R.trace(D,f,F,b,p,v,atol=1e-9)
        if q is None: continue
        t,y=q
        for i in(0,len(t)//2,len(t)-2): R.check_step(D,F,y[i],y[i+1],t[i+1]-t[i],t[i],1e-9,'single source')
        if w: s=np.linalg.norm(y[:500,3:],axis=1); D.close(s,np.full(len(s),s[0]),'a magnetic field does no work',rtol=1e-4)
def velocity(D):
    import traceon.tracing as T
    rng=D.rng
    for _ in range(D.n(400,4000)):
        eV=float(rng.choice([rng.uniform(.01,1000),1.,30000.,1e-3])); d=rng.normal(size=3) if rng.random()<.7 else rng.integers(-2,3,size=3)
        if not np.any(d): continue
        d=d*(1 if rng.random()<.5 or d.dtype!=float else 1e-3) if isinstance(d,np.ndarray) else d; D.case(eV=eV,direction=d)
        dd=np.array(d,float); v=T.velocity_vec(eV,list(d) if rng.random()<.5 else d); D.close(v,eV*dd/np.linalg.norm(dd),'velocity vector has the energy as length, along the direction',rtol=1e-12,atol=1e-14*eV)
        s=T._convert_velocity_to_SI(v); D.close(np.linalg.norm(s)**2*ME/(2*QE),eV,'|v|^2 = 2 e E / m',rtol=1e-8); D.close(s/np.linalg.norm(s),dd/np.linalg.norm(dd),'along the requested direction',rtol=1e-10,atol=1e-12)
        back=.5*ME*np.dot(s,s)/QE*s/np.linalg.norm(s); D.close(back,v,'conversions are mutually inverse',rtol=1e-8,atol=1e-12*eV)
        th,ph=rng.uniform(0,math.pi),rng.uniform(-math.pi,math.pi); D.case(eV=eV,theta=th,phi=ph); D.close(T.velocity_vec_spherical(eV,th,ph),eV*np.array([math.sin(th)*math.cos(ph),math.sin(th)*math.sin(ph),math.cos(th)]),'spherical direction',rtol=1e-12,atol=1e-13*eV)
        a=rng.uniform(-1.5,1.5); D.case(eV=eV,angle=a); D.close(T.velocity_vec_xz_plane(eV,a),eV*np.array([math.sin(a),0,-math.cos(a)]),'xz plane, downward',rtol=1e-12,atol=1e-13*eV); D.close(T.velocity_vec_xz_plane(eV,a,downward=False),eV*np.array([math.sin(a),0,math.cos(a)]),'xz plane, upward',rtol=1e-12,atol=1e-13*eV)
CASES=[('force',force),('lorentz',combine),('single-sources',parts),('velocity',velocity)]
