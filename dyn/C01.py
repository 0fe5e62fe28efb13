import numpy as np, math
from . import lib as L
def tables(D,k,guard=True):
    """(z, radial coeffs, 3d coeffs): equally spaced samples, random polynomial pieces, ending at a guard page"""
    rng=D.rng; N=int(rng.choice([2,2,3,4,7,40])); z0=rng.uniform(-3,3) if rng.random()<.7 else float(rng.integers(-2,3)); dz=float(rng.choice([.1,.5,1.,rng.uniform(.01,.8)]))
    z=z0+dz*np.arange(N) if rng.random()<.5 else np.linspace(z0,z0+dz*(N-1),N)
    if k=='radial': c=rng.normal(size=(N-1,9,6))
    else: c=rng.normal(size=(N-1,2,4,8,4))
    end=rng.random()<.7
    return L.guard(z,end),L.guard(c,end)
def zs(D,z):
    """z values of interest: inside, at / next to every kind of sample, outside"""
    rng=D.rng; N=len(z); i=int(rng.integers(0,N)); out=[]
    out+=[z[0],z[-1],np.nextafter(z[0],-np.inf),np.nextafter(z[0],np.inf),np.nextafter(z[-1],-np.inf),np.nextafter(z[-1],np.inf)]
    out+=[z[i],np.nextafter(z[i],-np.inf),np.nextafter(z[i],np.inf),z[0]-rng.uniform(0,3),z[-1]+rng.uniform(0,3),z[-1]+(z[1]-z[0])*.5,z[0]-(z[1]-z[0])*.5,-1e6,1e6,z[0]-1e-9,z[-1]+1e-9]
    out+=list(rng.uniform(z[0],z[-1],6))
    return [float(v) for v in out]
def pieces(z,zz):
    """admissible piece indices: the sampling interval containing zz (both neighbours within rounding of a sample)"""
    N=len(z); dz=z[1]-z[0]; t=(zz-z[0])/dz; out=set()
    for e in(-1e-9,0,1e-9):
        out.add(min(max(int(math.floor(t+e)),0),N-2))
    return sorted(out)
def rad_series(c,p,d):
    D=np.array([np.polyval(c[i],d) for i in range(9)]); Dd=D; r2=p[0]**2+p[1]**2
    V=sum((-1)**n*(r2/4)**n/math.factorial(n)**2*D[2*n] for n in range(5))
    # transverse field / x and axial field, up to the documented order
    tr=-sum((-1)**n*2*n*r2**(n-1)/4**n/math.factorial(n)**2*D[2*n] for n in range(1,5))
    Ez=-sum((-1)**n*(r2/4)**n/math.factorial(n)**2*D[2*n+1] for n in range(4))
    sV=sum((r2/4)**n/math.factorial(n)**2*abs(D[2*n]) for n in range(5)); sE=sum(abs(D))*(1+r2**3)
    return V,np.array([p[0]*tr,p[1]*tr,Ez]),sV,sE
def ser3(c,p,d):
    A=np.zeros((2,4,8)); dA=np.zeros((2,4,8))
    for a in range(2):
        for nu in range(4):
            for m in range(8): A[a,nu,m]=np.polyval(c[a,nu,m],d); dA[a,nu,m]=np.polyval(np.polyder(c[a,nu,m]),d)
    w=complex(p[0],p[1]); r2=abs(w)**2; V=0.;g=np.zeros(3);s=0.
    for nu in range(4):
        for m in range(8):
            u=w**m*r2**nu; V+=A[0,nu,m]*u.real+A[1,nu,m]*u.imag; g[2]+=dA[0,nu,m]*u.real+dA[1,nu,m]*u.imag
            # d/dx, d/dy of r^(2nu) * (x+iy)^m
            ux=(m*w**(m-1) if m else 0)*r2**nu+w**m*(nu*r2**(nu-1)*2*p[0] if nu else 0)
            uy=(1j*m*w**(m-1) if m else 0)*r2**nu+w**m*(nu*r2**(nu-1)*2*p[1] if nu else 0)
            ux=complex(ux);uy=complex(uy)
            g[0]+=A[0,nu,m]*ux.real+A[1,nu,m]*ux.imag; g[1]+=A[0,nu,m]*uy.real+A[1,nu,m]*uy.imag
            s+=(abs(A[0,nu,m])+abs(A[1,nu,m])+abs(dA[0,nu,m])+abs(dA[1,nu,m]))*(1+abs(w))**(m+2*nu)*(1+m+2*nu)
    return V,-g,s
def check(D,k,p,z,c,f_pot,f_fld):
    zz=p[2]
    D.case(kind=k,point=p,z=np.array(z),N=len(z))
    V=f_pot(p); E=np.array(f_fld(p))
    if zz<z[0] or zz>z[-1]:
        D.expect(V==0.0,'potential outside the samples is exactly zero',got=V); D.expect(np.all(E==0.0) and E.shape==(3,),'field outside the samples is exactly zero',got=E); return
    ok=False;best=None
    for i in pieces(z,zz):
        if k=='radial': v,e,s1,s2=rad_series(np.array(c[i]),p,zz-z[i])
        else: v,e,s=ser3(np.array(c[i]),p,zz-z[i]); s1=s2=s
        best=(i,v,e)
        if abs(V-v)<=1e-9*(s1+1e-300)+1e-12 and np.all(np.abs(E-e)<=1e-8*(s2+1e-300)+1e-12): ok=True
    D.expect(ok,'value is the series of the interval containing z',potential=V,field=E,want=str(best))
def pts(D,z,k,n):
    rng=D.rng
    for zz in zs(D,z):
        for _ in range(n):
            t=rng.integers(0,5)
            if t==0: x,y=0.,0.
            elif t==1: x,y=rng.uniform(-1,1),0.
            elif t==2: x,y=0.,rng.uniform(-1,1)
            else: x,y=rng.uniform(-1,1,2)
            yield np.array([x,y,zz])
def radial_backend(D):
    import traceon.backend as B
    for _ in range(D.n(25,300)):
        z,c=tables(D,'radial')
        for p in pts(D,z,'radial',1): check(D,'radial',p,z,c,lambda q:B.potential_radial_derivs(q,z,c),lambda q:B.field_radial_derivs(q,z,c))
def three_d_backend(D):
    import traceon.backend as B
    for _ in range(D.n(12,150)):
        z,c=tables(D,'3d')
        for p in pts(D,z,'3d',1): check(D,'3d',p,z,c,lambda q:B.potential_3d_derivs(q,z,c),lambda q:B.field_3d_derivs(q,z,c))
def classes(D):
    """the field classes (interpolation.FieldRadialAxial and solver.FieldRadialAxial) pass their own tables"""
    import traceon.interpolation as I, traceon.solver as S
    for k in range(D.n(12,100)):
        z,ce=tables(D,'radial'); cm=L.guard(D.rng.normal(size=ce.shape))
        if k%2==0: f=S.FieldRadialAxial(z,ce,cm)
        else:
            f=object.__new__(I.FieldRadialAxial); I.FieldAxial.__init__(f,z,ce,cm)
        for p in pts(D,z,'radial',1):
            q=list(p) if D.rng.random()<.3 else p
            check(D,'radial',p,z,ce,lambda _:f.electrostatic_potential_at_point(q),lambda _:f.electrostatic_field_at_point(q))
            check(D,'radial',p,z,cm,lambda _:f.magnetostatic_potential_at_point(q),lambda _:f.magnetostatic_field_at_point(q))
def built(D):
    """tables built from a real charge distribution: close to the axis the value is the source potential"""
    import traceon.interpolation as I, traceon.solver as S
    rng=D.rng
    for _ in range(D.n(4,30)):
        src=L.eff2d(rng,3,rmin=1.,rmax=3.); f=S.FieldRadialBEM(electrostatic_point_charges=L.EPC(src)); N=int(rng.integers(60,120)); a=I.FieldRadialAxial(f,-1.,1.5,N)
        for _ in range(6):
            th=rng.uniform(0,2*np.pi); r=rng.uniform(0,.12); p=np.array([r*math.cos(th),r*math.sin(th),float(rng.choice([-1.,1.5,rng.uniform(-1,1.5)]))]); D.case(point=p,N=N)
            s=np.abs(src[0][:,None]*src[1]).sum()
            D.expect(abs(a.electrostatic_potential_at_point(p)-L.pot2d(p,*src))<2e-5*s,'axial potential close to the axis',got=a.electrostatic_potential_at_point(p),want=L.pot2d(p,*src))
            D.expect(np.all(np.abs(a.electrostatic_field_at_point(p)-L.field2d(p,*src))<3e-4*s),'axial field close to the axis',got=a.electrostatic_field_at_point(p),want=L.field2d(p,*src))
CASES=[('radial-series',radial_backend),('3d-series',three_d_backend),('field-classes',classes),('built-table',built)]
