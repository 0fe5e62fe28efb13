import numpy as np, math
from . import lib as L
def coeff(x,zi):
    """[2][4][8] coefficients of 1/(4 pi |p - x|) around (0,0,zi): |p-x|^-1 = sum_l r^l/R^(l+1) P_l((rho/R) cos(phi-mu))"""
    rho=math.hypot(x[0],x[1]); mu=math.atan2(x[1],x[0]); R=math.hypot(rho,x[2]-zi); s=rho/R; out=np.zeros((2,4,8))
    for nu in range(4):
        for m in range(8):
            l=m+2*nu; P=np.polynomial.legendre.leg2poly([0]*l+[1]); a=0.
            for k,c in enumerate(P):
                if c and (k-m)%2==0 and k>=m: a+=c*s**k*math.comb(k,(k-m)//2)/2**k*(1 if m==0 else 2)
            a/=R**(l+1)*4*math.pi; out[0,nu,m]=a*math.cos(m*mu); out[1,nu,m]=a*math.sin(m*mu)
    return out
def amp(x,zi):
    R=np.linalg.norm(np.asarray(x)-[0,0,zi]); return np.array([[[3./R**(m+2*nu+1) for m in range(8)] for nu in range(4)]]*2)
def point(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(250,4000)):
        s=10**rng.uniform(-1,1); x=rng.normal(size=3)*s; k=rng.integers(6)
        if k==0: x[1]=0.
        if k==1: x[0]=0.
        if k==2: x[0]=-abs(x[0]); x[1]=rng.choice([0.,-0.])
        if math.hypot(x[0],x[1])<.05*s: continue
        zi=x[2] if rng.random()<.1 else s*rng.normal(); h=int(rng.integers(2)); kk=int(rng.integers(12)); c=np.zeros(2); j=np.zeros((2,12)); P=np.tile(np.array([s,s,s]),(2,12,1)); c[h]=1.5; j[h,kk]=2.; P[h,kk]=x
        D.case(source=x,z=zi,element=h,quadrature_point=kk); got=B.axial_coefficients_3d(c,j,P,np.array([zi]))
        D.expect(got.shape==(1,2,4,8),'shape',got=got.shape); want=3*coeff(x,zi)
        bad=np.abs(got[0]-want)>1e-9*amp(x,zi); D.expect(not bad.any(),'coefficients of a unit source',at=np.argwhere(bad)[:3].tolist(),got=got[0][bad][:3],want=want[bad][:3])
def sums(D):
    import traceon.backend as B
    rng=D.rng
    for n in[0,1,2,3,5,9,17]*D.n(1,8):
        c,j,x=L.eff3d(rng,n); x=x+np.where(np.hypot(x[...,0],x[...,1])<.15,.3,0.)[...,None]*np.array([1,1,0]); nz=int(rng.integers(1,5)); z=rng.uniform(-1,1,nz); D.case(n=n,z=z); got=B.axial_coefficients_3d(c,j,x,z); want=np.zeros((nz,2,4,8)); A=np.zeros((nz,2,4,8))+1e-30
        for i in range(nz):
            for h in range(n):
                for k in range(12): want[i]+=c[h]*j[h,k]*coeff(x[h,k],z[i]); A[i]+=abs(c[h]*j[h,k])*amp(x[h,k],z[i])
        D.expect(np.all(np.abs(got-want)<=1e-9*A),'coefficients accumulate over every element and quadrature point'); D.expect(np.all(np.abs(B.axial_coefficients_3d(-2.5*c,j,x,z)+2.5*got)<=1e-10*A),'linear in the charges')
        d=rng.normal(size=n); D.expect(np.all(np.abs(B.axial_coefficients_3d(c+d,j,x,z)-got-B.axial_coefficients_3d(d,j,x,z))<=1e-10*A*10),'additive in the charges')
def near_axis(D):
    """the truncated series reproduces the potential of the source close to the axis"""
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(60,600)):
        n=int(rng.integers(1,5)); c,j,x=L.eff3d(rng,n,lo=1.5,hi=3.); x=x+np.where(np.hypot(x[...,0],x[...,1])<.3,.6,0.)[...,None]*np.array([1,1,0]); zi=rng.uniform(-.3,.3); C=B.axial_coefficients_3d(c,j,x,np.array([zi]))[0]; ph=rng.uniform(-math.pi,math.pi); r=rng.uniform(0,.12); D.case(n=n,z=zi,r=r,phi=ph)
        V=sum((C[0,nu,m]*math.cos(m*ph)+C[1,nu,m]*math.sin(m*ph))*r**(m+2*nu) for nu in range(4) for m in range(8)); W=L.pot3d(np.array([r*math.cos(ph),r*math.sin(ph),zi]),c,j,x)
        D.expect(abs(V-W)<1e-7*np.abs(c[:,None]*j).sum(),'series equals the potential near the axis',got=V,want=W)
CASES=[('point-source',point),('sums',sums),('near-axis',near_axis)]
