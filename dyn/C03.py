import numpy as np, math
from . import lib as L
def sums(D):
    import traceon.solver as S, traceon.backend as B
    rng=D.rng
    sizes=[0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,64,100,129]+([255,257,513,1000,2049] if not D.quick else [257])
    for n in sizes*(1 if D.quick else 4):
        for kind in('2d','3d','cur'):
            src={'2d':L.eff2d,'3d':L.eff3d,'cur':L.effcur}[kind](rng,n); e=L.EPC(src)
            if n and rng.random()<.3: e.charges[int(rng.integers(n))]=0.; src=(e.charges.copy(),src[1],src[2])
            w=np.abs(src[0][:,None]*src[1]).sum()+1e-30
            p=L.offpoint(rng,kind,src[2]); q=p.astype(int) if np.all(p==p.astype(int)) and rng.random()<.5 else p
            D.case(kind=kind,n=n,point=q); r=math.hypot(p[0],p[1]); tol=1e-5*w*(1+(1/r if r>1e-6 else 0))
            if kind=='3d':
                for mag in(False,True):
                    f=S.Field3D_BEM(**{('magneto' if mag else 'electro')+'static_point_charges':e})
                    V=f.magnetostatic_potential_at_point(q) if mag else f.electrostatic_potential_at_point(q); E=f.magnetostatic_field_at_point(q) if mag else f.electrostatic_field_at_point(q)
                    D.expect(abs(V-L.pot3d(p,*src))<1e-10*w+1e-25,'potential is the sum over elements and quadrature points',got=V,want=L.pot3d(p,*src)); D.expect(np.all(np.abs(E-L.field3d(p,*src))<1e-9*w+1e-25),'field is the sum over elements and quadrature points',got=E,want=L.field3d(p,*src))
            elif kind=='2d':
                for mag in(False,True):
                    f=S.FieldRadialBEM(**{('magneto' if mag else 'electro')+'static_point_charges':e})
                    V=f.magnetostatic_potential_at_point(q) if mag else f.electrostatic_potential_at_point(q); E=f.magnetostatic_field_at_point(q) if mag else f.electrostatic_field_at_point(q)
                    D.expect(abs(V-L.pot2d(p,*src))<1e-6*w,'potential is the sum over elements and quadrature points',got=V,want=L.pot2d(p,*src)); D.expect(np.all(np.abs(E-L.field2d(p,*src))<tol),'field is the sum over elements and quadrature points',got=E,want=L.field2d(p,*src))
            else:
                f=S.FieldRadialBEM(current_point_charges=e); E=f.current_field_at_point(q); H=f.magnetostatic_field_at_point(q)
                D.expect(np.all(np.abs(E-L.fieldcur(p,*src))<tol),'current field is the sum over elements and quadrature points',got=E,want=L.fieldcur(p,*src)); D.expect(np.allclose(H,E,rtol=1e-12,atol=0),'current field is part of the magnetostatic field')
                z=float(p[2]); wnt=np.sum((src[0][:,None]*src[1])*(-(z-src[2][...,2])/(2*np.hypot(z-src[2][...,2],src[2][...,0])))) if n else 0.
                D.expect(abs(f.current_potential_axial(z)-wnt)<1e-9*w,'axial current potential is the sum',got=f.current_potential_axial(z),want=wnt)
def unit(D):
    """one unit charge on one quadrature point at a time: no element or point is skipped or re-weighted"""
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(3,20)):
        n=int(rng.integers(1,6)); p=np.array([.1,.05,.2])
        for kind,q,dim in(('2d',16,2),('3d',12,3),('cur',12,3)):
            src={'2d':L.eff2d,'3d':L.eff3d,'cur':L.effcur}[kind](rng,n); x=src[2]
            for i in range(n):
                for k in range(q):
                    c=np.zeros(n); j=np.zeros((n,q)); c[i]=2.5; j[i,k]=.5; D.case(kind=kind,n=n,element=i,point=k)
                    if kind=='2d': D.close(B.potential_radial(p,c,j,x),1.25*L.ring_pot(math.hypot(p[0],p[1]),p[2],*x[i,k]),'unit source potential',rtol=1e-6); D.close(B.field_radial(p,c,j,x),L.field2d(p,c,j,x),'unit source field',rtol=1e-4,atol=1e-5); D.close(B.axial_derivatives_radial(np.array([.2,.7]),c,j,x)[:,0],[1.25*x[i,k,0]/2/math.hypot(x[i,k,0],zz-x[i,k,1]) for zz in(.2,.7)],'unit axial value',rtol=1e-10)
                    elif kind=='3d': D.close(B.potential_3d(p,c,j,x),1.25/(4*np.pi*np.linalg.norm(p-x[i,k])),'unit source potential',rtol=1e-10); D.close(B.field_3d(p,c,j,x),L.field3d(p,c,j,x),'unit source field',rtol=1e-9,atol=1e-12)
                    else: D.close(B.current_field(p,c,j,x),L.fieldcur(p,c,j,x),'unit current field',rtol=1e-4,atol=1e-5); D.close(B.current_axial_derivatives_radial(np.array([.2,.7]),c,j,x)[:,0],[-1.25*(zz-x[i,k,2])/2/math.hypot(x[i,k,0],zz-x[i,k,2]) for zz in(.2,.7)],'unit axial current value',rtol=1e-10,atol=1e-12)
def axial(D):
    import traceon.solver as S
    rng=D.rng
    for n in[0,1,2,5,16,33]*D.n(1,10):
        src=L.eff2d(rng,n); cur=L.effcur(rng,n+1); nz=int(rng.choice([1,2,5])); z=rng.uniform(-2,2,nz)
        m=L.eff2d(rng,max(n-1,0))
        f=S.FieldRadialBEM(L.EPC(src),L.EPC(m),L.EPC(cur)); D.case(n=n,z=z)
        def ref(s,cu):
            out=np.zeros((nz,9))
            for i in range(nz):
                for a in range(len(s[0])):
                    for k in range(s[1].shape[1]): out[i]+=s[0][a]*s[1][a,k]*ring_derivs(z[i],s[2][a,k,0],s[2][a,k,-1],cu)
            return out
        for got,want in((f.get_electrostatic_axial_potential_derivatives(z),ref(src,False)),(f.get_current_axial_potential_derivatives(z),ref(cur,True)),(f.get_magnetostatic_axial_potential_derivatives(z),ref(m,False)+ref(cur,True))):
            D.expect(got.shape==(nz,9) and np.all(np.abs(got-want)<=1e-8*(1+np.abs(want).max())),'axial derivatives are the charge-weighted sums',got=got,want=want)
def ring_derivs(z0,r,z,cu,n=9):
    """Taylor coefficients of f(z0+t): f = r/2/sqrt(r^2+d^2) or -d/2/sqrt(r^2+d^2), by power series arithmetic"""
    d=z0-z; q=np.zeros(n); q[0]=r*r+d*d
    if n>1: q[1]=2*d
    if n>2: q[2]=1.
    s=np.zeros(n); s[0]=q[0]**-.5          # s = q^(-1/2): k q0 s_k = sum_{i=1..k} (-i/2-(k-i)) ... (standard power rule)
    for k in range(1,n): s[k]=sum((-.5*i-(k-i))*q[i]*s[k-i] for i in range(1,min(k,2)+1))/(k*q[0])
    if cu: t=-.5*np.array([d*s[k]+(s[k-1] if k else 0) for k in range(n)])
    else: t=r/2*s
    return t*np.array([math.factorial(k) for k in range(n)],float)
def both(D):
    """electrostatic, magnetostatic and current sources in one field: each quantity sums over its own sources"""
    import traceon.solver as S
    rng=D.rng
    for _ in range(D.n(40,400)):
        n=int(rng.integers(0,7)); m=n if rng.random()<.6 else int(rng.integers(0,7)); k=n if rng.random()<.5 else int(rng.integers(0,5)); same=n==m and rng.random()<.3
        e,g=L.eff3d(rng,n),L.eff3d(rng,m)
        if same: g=(g[0],g[1],e[2])
        f=S.Field3D_BEM(electrostatic_point_charges=L.EPC(e),magnetostatic_point_charges=L.EPC(g)); p=L.offpoint(rng,'3d',np.concatenate((e[2].reshape(-1,3),g[2].reshape(-1,3)))); D.case(kind='3d',electrostatic=n,magnetostatic=m,same_positions=same,point=p)
        for nm,s in(('electro',e),('magneto',g)):
            w=np.abs(s[0][:,None]*s[1]).sum()+1e-30
            D.expect(abs(getattr(f,nm+'static_potential_at_point')(p)-L.pot3d(p,*s))<1e-9*w+1e-25,nm+'static potential sums over its own sources'); D.expect(np.all(np.abs(getattr(f,nm+'static_field_at_point')(p)-L.field3d(p,*s))<1e-8*w+1e-25),nm+'static field sums over its own sources')
        e,g,c=L.eff2d(rng,n),L.eff2d(rng,m),L.effcur(rng,k)
        if same: g=(g[0],g[1],e[2])
        f=S.FieldRadialBEM(L.EPC(e),L.EPC(g),L.EPC(c)); x=[s[2].reshape(-1,s[2].shape[-1])[:,[0,-1]] for s in(e,g,c)]; p=L.offpoint(rng,'2d',np.concatenate(x)[:,None,:]); D.case(kind='radial',electrostatic=n,magnetostatic=m,currents=k,same_positions=same,point=p); r=math.hypot(p[0],p[1])
        for nm,s in(('electro',e),('magneto',g)):
            w=np.abs(s[0][:,None]*s[1]).sum()+1e-30; wc=np.abs(c[0][:,None]*c[1]).sum() if nm=='magneto' else 0.; want=L.field2d(p,*s)+(L.fieldcur(p,*c) if nm=='magneto' else 0.)
            D.expect(abs(getattr(f,nm+'static_potential_at_point')(p)-L.pot2d(p,*s))<1e-6*w,nm+'static potential sums over its own sources'); D.expect(np.all(np.abs(getattr(f,nm+'static_field_at_point')(p)-want)<1e-5*(w+wc)*(1+(1/r if r>1e-6 else 0))),nm+'static field sums over its own sources')
CASES=[('both',both),('sums',sums),('unit-sources',unit),('axial-sums',axial)]
