import numpy as np, math
from . import lib as L
def kernels(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(300,5000)):
        s=rng.uniform(.01,10); p=rng.normal(size=3)*s; q=rng.normal(size=3)*s
        if rng.random()<.3: q[int(rng.integers(3))]=p[int(rng.integers(3))]
        if np.linalg.norm(p-q)<.05*s: continue
        D.case(kernel='3d point',target=p,source=q)
        E=-np.array([f(*p,*q,None) for f in(B.backend_lib.dx1_potential_3d_point,B.backend_lib.dy1_potential_3d_point,B.backend_lib.dz1_potential_3d_point)]); d=p-q; R=np.linalg.norm(d)
        D.close(E,d/(4*np.pi*R**3),'point source field',rtol=1e-10,atol=1e-13/s**2); D.close(B.backend_lib.potential_3d_point(*p,*q,None),1/(4*np.pi*R),'point source potential',rtol=1e-11)
    for _ in range(D.n(400,8000)):
        s=float(rng.choice([1,1,1e-3,50])); r0,a=s*rng.uniform(.02,3,2); z0,z=s*rng.uniform(-2,2,2)
        if rng.random()<.2: z=z0
        if rng.random()<.1: r0=a
        d=math.hypot(r0-a,z0-z)
        if d<.02*s: continue
        D.case(kernel='ring',r0=r0,z0=z0,r=a,z=z)
        Er,Ez=L.ring_E(r0,z0,a,z); m=(math.hypot(Er,Ez)+L.ring_pot(r0,z0,a,z)/s)
        D.expect(abs(B.potential_radial_ring(r0,z0,a,z)-L.ring_pot(r0,z0,a,z))<3e-7*L.ring_pot(r0,z0,a,z),'ring potential',got=B.potential_radial_ring(r0,z0,a,z),want=L.ring_pot(r0,z0,a,z))
        D.expect(abs(-B.dr1_potential_radial_ring(r0,z0,a,z)-Er)<1e-6*m*(1+a/r0),'ring radial derivative',got=-B.dr1_potential_radial_ring(r0,z0,a,z),want=Er)
        D.expect(abs(-B.dz1_potential_radial_ring(r0,z0,a,z)-Ez)<1e-6*m,'ring axial derivative',got=-B.dz1_potential_radial_ring(r0,z0,a,z),want=Ez)
    for _ in range(D.n(60,600)):
        a=rng.uniform(.1,3); z0,z=rng.uniform(-2,2,2); r0=float(rng.choice([0.,5e-11,9.9e-11])); D.case(kernel='ring on axis',r0=r0,z0=z0,r=a,z=z)
        D.expect(B.dr1_potential_radial_ring(r0,z0,a,z)==0.,'radial derivative on the axis is zero'); D.close(-B.dz1_potential_radial_ring(r0,z0,a,z),a/2*(z0-z)/(a*a+(z0-z)**2)**1.5,'axial derivative on the axis',rtol=1e-6,atol=1e-9)
        D.close(B.potential_radial_ring(r0,z0,a,z),a/2/math.hypot(a,z0-z),'potential on the axis',rtol=1e-6)
def meshes(D):
    """whole-source fields against the gradient of the source potential (closed form), and against differences of the returned potential"""
    import traceon.solver as S
    rng=D.rng
    for k in range(D.n(60,800)):
        n=int(rng.choice([1,2,5,17])); kind='3d' if k%2 else '2d'; mag=rng.random()<.5
        src=L.eff3d(rng,n) if kind=='3d' else L.eff2d(rng,n)
        kw={('magneto' if mag else 'electro')+'static_point_charges':L.EPC(src)}
        f=S.Field3D_BEM(**kw) if kind=='3d' else S.FieldRadialBEM(**kw)
        w=np.abs(src[0][:,None]*src[1]).sum()
        for _ in range(3):
            p=L.offpoint(rng,kind,src[2]); D.case(kind=kind,magnetostatic=mag,n=n,point=p)
            E=f.magnetostatic_field_at_point(p) if mag else f.electrostatic_field_at_point(p); pf=f.magnetostatic_potential_at_point if mag else f.electrostatic_potential_at_point
            ref=(L.field3d if kind=='3d' else L.field2d)(p,*src)
            r=math.hypot(p[0],p[1]); tol=1e-9*w if kind=='3d' else 3e-6*w*(1+(1/r if r>1e-6 else 0))
            D.expect(np.all(np.abs(E-ref)<=tol*3),'field equals minus the gradient of the potential of the source',got=E,want=ref)
            if r>.2 or kind=='3d':
                g=-L.fd_grad(pf,p,1e-3 if kind=='2d' else 2e-3)
                D.expect(np.all(np.abs(E-g)<=1e-3*w*(8 if kind=='3d' else 20)),'field equals minus the difference quotient of the returned potential',got=E,want=g)
            elif r==0 and kind=='2d':
                D.expect(E[0]==0 and E[1]==0,'no transverse field on the axis',got=E)
            D.expect(np.array_equal(f.field_at_point(p),E) and f.potential_at_point(p)==pf(p),'generic accessors return the same field and potential')
def expansions(D):
    import traceon.backend as B
    from . import C01
    rng=D.rng
    for k in range(D.n(40,500)):
        z,c=C01.tables(D,'3d' if k%2 else 'radial'); 
        for _ in range(4):
            p=np.array([*rng.uniform(-.8,.8,2),rng.uniform(z[0],z[-1])])
            if rng.random()<.2: p[0]=p[1]=0.
            i=C01.pieces(z,p[2])
            if len(i)>1: continue
            i=i[0]; D.case(kind='3d expansion' if k%2 else 'radial expansion',point=p,z=np.array(z))
            if k%2: V,e,s=C01.ser3(np.array(c[i]),p,p[2]-z[i]); E=B.field_3d_derivs(p,z,c); s2=s
            else: V,e,s1,s2=C01.rad_series(np.array(c[i]),p,p[2]-z[i]); E=B.field_radial_derivs(p,z,c)
            D.expect(np.all(np.abs(E-e)<=1e-8*s2),'field is minus the gradient of the expansion',got=E,want=e)
    # consistent table (coefficients of derivative orders are the derivatives): difference quotients of the returned potential
    for _ in range(D.n(15,150)):
        z=np.linspace(0,1,int(rng.integers(2,6))); N=len(z); c=np.zeros((N-1,9,6)); P=rng.normal(size=6)
        for i in range(N-1):
            sh=np.poly1d(P)(np.poly1d([1,z[i]]))
            for d in range(9):
                q=np.polyder(sh,d).coeffs if d<6 else np.array([0.]); c[i,d,6-len(q):]=q
        p=np.array([*rng.uniform(-.4,.4,2),rng.uniform(.05,.95)]); D.case(kind='consistent radial table',point=p,poly=P)
        g=-L.fd_grad(lambda q:B.potential_radial_derivs(q,z,c),p,1e-4)
        D.expect(np.all(np.abs(B.field_radial_derivs(p,z,c)-g)<1e-6*np.abs(P).sum()*100),'radial expansion field is minus the gradient of its potential',got=B.field_radial_derivs(p,z,c),want=g)
CASES=[('kernels',kernels),('sources',meshes),('axial-expansions',expansions)]
