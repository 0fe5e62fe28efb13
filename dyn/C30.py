import numpy as np, math
from . import lib as L
from .C08 import coil_mesh
def coils(D):
    import traceon.excitation as E, traceon.solver as S
    rng=D.rng
    for _ in range(D.n(60,600)):
        nc=int(rng.integers(1,5)); m=L.radial_raw_mesh(rng,2,2); m=coil_mesh(rng,m,nc); ex=E.Excitation(m,E.Symmetry.RADIAL); ex.add_magnetostatic_potential(g0=1.); ex.add_voltage(g1=2.); cur={}
        for c in rng.permutation(nc):
            if rng.random()<.75: cur['coil%d'%c]=float(rng.normal()*10**rng.uniform(-3,3)) if rng.random()<.9 else 0.
        if cur: ex.add_current(**cur)
        D.case(coils=nc,currents=cur); s=S.MagnetostaticSolver(ex); q=s.current_charges; f=S.solve_direct(ex)
        for src in(q,f.current_point_charges):
            tri={n:m.points[m.triangles[m.physical_to_triangles[n]]] for n in cur}; want=sum(len(t) for t in tri.values())
            D.expect(len(src.charges)==want,'one current source per coil element',got=len(src.charges),want=want)
            used=np.zeros(want,bool)
            for n,I in cur.items():
                T=tri[n]; A=sum(L.tri_area(t) for t in T); tot=0.
                for t in T:
                    # the source whose points lie in this element
                    c=t.mean(0); d=np.linalg.norm(src.positions.mean(1)-c,axis=1) if want else np.zeros(0); i=int(np.argmin(d)); D.expect(d[i]<1e-6 and not used[i],'every coil element carries exactly one source',coil=n,distance=d[i]); used[i]=True
                    D.close(np.sum(src.jacobians[i]),L.tri_area(t),'weights sum to the area',rtol=1e-9); D.close(src.charges[i],I/A,'uniform current density',rtol=1e-9,atol=1e-300)
                    x=src.positions[i]; e1,e2=t[1]-t[0],t[2]-t[0]; nn=L.tri_normal(t); D.expect(np.all(np.abs((x-t[0])@nn)<1e-9),'sources lie on the cross section')
                    tot+=src.charges[i]*np.sum(src.jacobians[i])
                D.close(tot,I,'total current of the coil is the prescribed current',rtol=1e-9,atol=1e-300,coil=n)
            D.close(np.sum(src.charges[:,None]*src.jacobians) if want else 0.,sum(cur.values()),'total current',rtol=1e-8,atol=1e-9*(1+sum(map(abs,cur.values()))))
def areas(D):
    import traceon.solver as S, traceon.backend as B
    rng=D.rng; GP,GW=np.polynomial.legendre.leggauss(24)
    for k in range(D.n(80,800)):
        rad=bool(k%2); n=int(rng.integers(1,8)); ch=rng.normal(size=n)
        if rad:
            V=np.array([L.rand_line(rng,rng.random()<.6) for _ in range(n)]); j,p=B.fill_jacobian_buffer_radial(V); A=np.array([2*math.pi*np.sum(GW*L.line_jac(v,GP)*L.line_pos(v,GP)[:,0]) for v in V]); f=S.FieldRadialBEM(electrostatic_point_charges=S.EffectivePointCharges(ch,j,p)); tol=1e-8
        else:
            V=np.array([L.rand_tri(rng,10**rng.uniform(-3,2)) for _ in range(n)]); j,p=B.fill_jacobian_buffer_3d(V); A=np.array([L.tri_area(t) for t in V]); f=S.Field3D_BEM(electrostatic_point_charges=S.EffectivePointCharges(ch,j,p)); tol=1e-9
            D.case(triangles=n); D.close(B.triangle_areas(V),A,'triangle areas',rtol=1e-9)
        D.case(radial=rad,n=n,vertices=V)
        for i in range(n): D.close(f.area_of_element(i),A[i],'area of element',rtol=tol if not rad else 1e-6); D.close(f.charge_on_element(i),A[i]*ch[i],'charge is density times area',rtol=1e-6)
        if rad:
            for i in range(n): D.close(B.charge_radial(V[i],float(ch[i])),A[i]*ch[i],'charge of a radial element',rtol=1e-6)
        for idx in([],list(range(n)),list(map(int,rng.permutation(n)[:max(1,n//2)])),np.array([n-1])):
            D.close(f.area_of_elements(idx),float(sum(A[i] for i in idx)),'area of a set of elements',rtol=1e-6,atol=1e-12); D.close(f.charge_on_elements(idx),float(sum(A[i]*ch[i] for i in idx)),'charge on a set of elements',rtol=1e-6,atol=1e-6*np.abs(A*ch).sum())
def groups(D):
    """charge and area of a named group of a solved problem"""
    import traceon.excitation as E, traceon.solver as S
    rng=D.rng
    for _ in range(D.n(10,60)):
        m=L.radial_raw_mesh(rng,3,3,extra=1); ex=E.Excitation(m,E.Symmetry.RADIAL); ex.add_voltage(g0=1.,g2=-3.); ex.add_dielectric(g1=2.); _,names=ex.get_electrostatic_active_elements(); f=S.solve_direct(ex); D.case(groups=list(names)); GP,GW=np.polynomial.legendre.leggauss(24)
        for n in names:
            V=m.points[m.lines[m.physical_to_lines[n]]]; A=[2*math.pi*np.sum(GW*L.line_jac(v,GP)*L.line_pos(v,GP)[:,0]) for v in V]; D.close(f.area_of_elements(names[n]),sum(A),'area of a named group',rtol=1e-6)
            D.close(f.charge_on_elements(names[n]),sum(f.electrostatic_point_charges.charges[i]*f.area_of_element(i) for i in names[n]),'charge of a named group',rtol=1e-9,atol=1e-12)
CASES=[('coils',coils),('areas',areas),('groups',groups)]
