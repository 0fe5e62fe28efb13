import numpy as np, math, ctypes as C
from . import lib as L
from .C03 import ring_derivs
FN=[('axial_derivatives_radial_ring',False),('current_axial_derivatives_radial_ring',True)]
def ring(B,name,z0,r,z):
    out=np.zeros(9); d=C.c_double; f=getattr(C.CDLL(B.backend_lib._name),name); f.restype=None; f(d(z0),d(r),d(z),out.ctypes.data_as(C.c_void_p)); return out
def rings(D):
    import traceon.backend as B
    rng=D.rng
    for _ in range(D.n(3000,40000)):
        s=10**rng.uniform(-3,3); r=s*rng.uniform(.05,3); z=s*rng.uniform(-2,2); z0=z if rng.random()<.1 else s*rng.uniform(-6,6); R=math.hypot(r,z0-z)
        for name,cu in FN:
            D.case(function=name,z0=z0,r=r,z=z); got=ring(B,name,z0,r,z); want=ring_derivs(z0,r,z,cu); f0=r/2/R if not cu else -(z0-z)/2/R
            amp=(r/2/R if not cu else 1.)*np.array([math.factorial(n)/R**n for n in range(9)])*2
            D.expect(abs(got[0]-f0)<=1e-12*(abs(f0)+amp[0]*1e-2),'the zeroth derivative is the axial potential',got=got[0],want=f0)
            for n in range(9): D.expect(abs(got[n]-want[n])<=1e-9*amp[n],'derivative %d'%n,got=got[n],want=want[n])
        D.close(B.backend_lib.current_potential_axial_radial_ring(z0,r,z),-(z0-z)/2/R,'current potential on the axis',rtol=1e-12)
        D.expect(abs(B.potential_radial_ring(0.,z0,r,z)-r/2/R)<1e-7*r/R,'the zeroth derivative equals the ring potential on the axis')
def meshes(D):
    import traceon.backend as B, traceon.solver as S
    rng=D.rng
    for n in([0,1,2,3,7,16,40])*D.n(2,12):
        for cu in(False,True):
            q=12 if cu else 16; src=(L.effcur if cu else L.eff2d)(rng,n,q); nz=int(rng.choice([1,2,3,8])); z=rng.uniform(-3,3,nz); D.case(current=cu,n=n,z=z)
            want=np.zeros((nz,9))
            for i in range(nz):
                for a in range(n):
                    for k in range(q): want[i]+=src[0][a]*src[1][a,k]*ring_derivs(z[i],src[2][a,k,0],src[2][a,k,-1],cu)
            got=(B.current_axial_derivatives_radial if cu else B.axial_derivatives_radial)(z,*src); D.expect(got.shape==(nz,9),'shape',got=got.shape)
            amp=1e-30+sum(abs(src[0][a]*src[1][a,k])*np.array([math.factorial(m)/src[2][a,k,0]**m for m in range(9)]) for a in range(n) for k in range(q))
            D.expect(np.all(np.abs(got-want)<=1e-9*amp),'mesh derivatives are the charge-weighted sums of the ring values',got=got,want=want)
            if n:
                kw={'current_point_charges':L.EPC(src)} if cu else {'electrostatic_point_charges':L.EPC(src),'magnetostatic_point_charges':L.EPC((2*src[0],src[1],src[2]))}
                f=S.FieldRadialBEM(**kw); 
                if cu: D.close(f.get_current_axial_potential_derivatives(z),got,'field method',rtol=1e-12,atol=1e-25); D.close(f.get_magnetostatic_axial_potential_derivatives(z),got,'field method',rtol=1e-12,atol=1e-25); D.expect(all(abs(f.current_potential_axial(float(zz))-g)<1e-9*amp[0] for zz,g in zip(z,got[:,0])),'zeroth is the axial current potential')
                else:
                    D.close(f.get_electrostatic_axial_potential_derivatives(z),got,'field method',rtol=1e-12,atol=1e-25); D.close(f.get_magnetostatic_axial_potential_derivatives(z),2*got,'field method',rtol=1e-10,atol=1e-10*amp.max())
                    D.expect(all(abs(f.electrostatic_potential_at_point([0.,0.,zz])-g)<1e-6*amp[0] for zz,g in zip(z,got[:,0])),'zeroth is the potential on the axis')
                    D.expect(all(abs(-f.electrostatic_field_at_point([0.,0.,zz])[2]-g)<2e-6*amp[1] for zz,g in zip(z,got[:,1])),'first is minus the field on the axis')
CASES=[('rings',rings),('meshes',meshes)]
