import numpy as np, math
from . import lib as L
def pv(c,d,k):
    """k-th derivative of the polynomial with coefficients c (highest first) at d"""
    for _ in range(k): c=np.polyder(c) if len(c)>1 else np.array([0.])
    return np.polyval(c,d)
def check(D,z,c,S,what):
    N=len(z); D.expect(c.shape==(N-1,9,6) and np.all(np.isfinite(c)),what+': one polynomial per interval and order',shape=c.shape)
    dz=z[1]-z[0]; w=np.array([dz**k for k in range(5,-1,-1)])
    for o in range(9):
        for k in range(3 if o+2<9 else 1):
            # rounding scale of the k-th derivative of the piece
            for i in range(N-1):
                s=max(np.max(np.abs(c[i,o])*w)/dz**k*30,abs(S[i,o+k]),abs(S[i+1,o+k]),1e-30)
                for e in(0,1):
                    g=pv(c[i,o],e*(z[i+1]-z[i]),k)
                    D.expect(abs(g-S[i+e,o+k])<=1e-9*s,what+': derivative %d of the order-%d polynomial at the %s of interval %d is the sampled value'%(k,o,'end' if e else 'start',i),got=g,want=S[i+e,o+k])
def tables(D):
    import traceon.solver as SV, traceon.interpolation as I
    from . import C03
    rng=D.rng
    for t in range(D.n(40,300)):
        ne,nm,nc=[int(x) for x in rng.choice([0,1,3,12,60],3)]
        if ne+nm+nc==0: ne=2
        e,m,c=L.eff2d(rng,ne),L.eff2d(rng,nm),L.effcur(rng,nc); f=SV.FieldRadialBEM(L.EPC(e),L.EPC(m),L.EPC(c))
        a=rng.uniform(-2,0); b=a+rng.uniform(.2,3); Nd=int(.2*max(ne,nm)); N=int(rng.choice([2,3,4,5,8,21])); default=Nd>=3 and rng.random()<.5
        D.case(charges=ne,magnetic=nm,currents=nc,zmin=a,zmax=b,N=None if default else N)
        if rng.random()<.2 : a,b=int(math.floor(a)),int(math.ceil(b))+1
        ax=I.FieldRadialAxial(f,a,b) if default else (I.FieldRadialAxial(f,a,b,N) if rng.random()<.5 else I.FieldRadialAxial(f,a,b,N=N)); N=Nd if default else N
        D.close(ax.z,np.linspace(a,b,N),'samples cover zmin to zmax with the requested number',rtol=1e-13,atol=1e-13)
        def sm(src,cu):
            out=np.zeros((N,9))
            for i,zz in enumerate(ax.z):
                for el in range(len(src[0])):
                    for k in range(src[1].shape[1]): out[i]+=src[0][el]*src[1][el,k]*C03.ring_derivs(zz,src[2][el,k,0],src[2][el,k,-1],cu)
            return out
        small=(ne+nm+nc)<=8
        Se=sm(e,False) if small else f.get_electrostatic_axial_potential_derivatives(ax.z); Sm=sm(m,False)+sm(c,True) if small else f.get_magnetostatic_axial_potential_derivatives(ax.z)
        check(D,ax.z,ax.electrostatic_coeffs,Se,'electrostatic'); check(D,ax.z,ax.magnetostatic_coeffs,Sm,'magnetostatic')
        D.expect(bool(ax.is_electrostatic())==(ne>0) and bool(ax.is_magnetostatic())==(nm+nc>0),'tables are kept apart')
        # evaluating on the axis at the samples gives the sampled potential and field
        for i in range(N):
            p=[0.,0.,ax.z[i]]
            for V,E,S in((ax.electrostatic_potential_at_point(p),ax.electrostatic_field_at_point(p),Se),(ax.magnetostatic_potential_at_point(p),ax.magnetostatic_field_at_point(p),Sm)):
                s=np.abs(S[:,:3]).max()*(1+1/(ax.z[1]-ax.z[0]))+1e-30; D.expect(abs(V-S[i,0])<1e-8*s and abs(E[2]+S[i,1])<1e-7*s,'the sampled potential and field are reproduced on the axis',got=(V,E[2]),want=(S[i,0],-S[i,1]))
    for za,zb in((1.,1.),(1.,0.)): D.case(zmin=za,zmax=zb); D.raises(lambda: I.FieldRadialAxial(f,za,zb,5),'a reversed or empty range is an error')
def splines(D):
    import traceon.interpolation as I
    rng=D.rng
    for _ in range(D.n(150,2000)):
        N=int(rng.integers(2,12)); z=np.linspace(rng.uniform(-3,0),rng.uniform(.1,3),N); S=rng.normal(size=(N,9))*10**rng.uniform(-2,2,9); D.case(N=N,z=z); c=I._quintic_spline_coefficients(z,S.T.copy()); check(D,z,c,S,'table')
CASES=[('fields',tables),('tables',splines)]
