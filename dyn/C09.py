import numpy as np, math
from . import lib as L
from .C08 import coil_mesh
def build(ex,spec):
    for n,(k,v) in spec.items():
        {'V':ex.add_voltage,'D':ex.add_dielectric,'P':ex.add_magnetostatic_potential,'M':ex.add_magnetizable,'I':ex.add_current}[k](**{n:v})
    return ex
def values(f,p):
    out=[]
    for g in(f.electrostatic_field_at_point,f.magnetostatic_field_at_point): out.append(np.array(g(p)))
    out.append(np.array([f.electrostatic_potential_at_point(p)]))
    out.append(np.array([f.magnetostatic_potential_at_point(p)]))
    return np.concatenate(out)
def run(D):
    import traceon.excitation as E, traceon.solver as S
    rng=D.rng
    for k in range(D.n(24,250)):
        rad=bool(rng.integers(0,3)); ng=int(rng.integers(1,5)); per=int(rng.integers(1,3)); names=['g%d'%i for i in range(ng)]
        m=L.radial_raw_mesh(rng,ng,per,names=names,extra=int(rng.integers(0,2))) if rad else L.tri_raw_mesh(rng,ng,per,names=names)
        nc=int(rng.integers(0,3)) if rad else 0; m=coil_mesh(rng,m,nc); sym=E.Symmetry.RADIAL if rad else E.Symmetry.THREE_D
        fam=int(rng.integers(0,3)); spec={}
        for i,n in enumerate(names):
            c=str(rng.choice({0:['V','V','D'],1:['P','M','P'],2:['V','D','P','M']}[fam])); v=float(rng.choice([rng.normal(),2.,0.])) if c in 'VP' else float(rng.uniform(.2,20))
            if c in 'VP' and rng.random()<.3: v=int(rng.integers(-3,4))
            spec[n]=(c,v)
        for c in range(nc):
            if fam: spec['coil%d'%c]=('I',float(rng.choice([rng.normal(),0.,3.])))
        items=list(spec.items()); 
        spec=dict([items[i] for i in rng.permutation(len(items))])
        D.case(radial=rad,spec=spec)
        ex=build(E.Excitation(m,sym),spec); before=dict(ex.excitation_types)
        res=S.solve_direct_superposition(ex)
        D.expect(ex.excitation_types==before,'the excitation is not modified')
        want={n for n,(t,v) in spec.items() if t in 'VPI' and v!=0}
        D.expect(set(res)==want,'one field for each group with a non-zero fixed potential or current',got=sorted(res),want=sorted(want))
        pts=[L.offpoint(rng,'3d',np.zeros((0,3))) for _ in range(3)]
        if rad: pts=[np.array([rng.uniform(.01,.2)*math.cos(a),.1*math.sin(a),rng.uniform(-2,2)]) for a in rng.uniform(0,6,3)]
        else: pts=[np.array([-1.5-rng.random(),rng.uniform(-1,3),rng.uniform(-1,3)]) for _ in range(3)]
        for n in want:
            t=spec[n][0]; elec=t=='V'
            one={q:(a,1. if q==n else (0. if a in 'VPI' else b)) for q,(a,b) in spec.items()}
            e1=build(E.Excitation(m,sym),one)
            sol=(S.ElectrostaticSolver if elec else S.MagnetostaticSolver)(e1).solve_matrix()[0]
            for p in pts:
                a,b=values(res[n],p),values(sol,p); sc=np.abs(b).max()+1e-9; D.close(a/sc,b/sc,'field of the unit excitation of '+n,rtol=1e-7,atol=1e-8,point=p)
        if want:
            tot=None
            for n in want:
                g=float(spec[n][1])*res[n]; tot=g if tot is None else tot+g
            elec=any(t=='V' for t,v in spec.values()); mag=any(t in 'PI' for t,v in spec.values())
            full=S.solve_direct(build(E.Excitation(m,sym),spec))
            for p in pts:
                a,b=values(tot,p),values(full,p); sc=np.abs(b).max()+1e-9; D.close(a/sc,b/sc,'recombined with the original values it is the full solve',rtol=1e-6,atol=1e-7,point=p)
def functions(D):
    import traceon.excitation as E, traceon.solver as S
    for _ in range(3):
        m=L.radial_raw_mesh(D.rng,2,2); ex=E.Excitation(m,E.Symmetry.RADIAL); ex.add_voltage(g0=lambda x,y,z: x,g1=2.); D.case(what='voltage function'); D.raises(lambda: S.solve_direct_superposition(ex),'voltage functions are refused in superposition')
def loworder(D):
    """a first-order 2D mesh is upgraded, both ways of solving agree"""
    import traceon.excitation as E, traceon.solver as S, traceon.mesher as M
    rng=D.rng
    for _ in range(D.n(6,40)):
        n=int(rng.integers(2,5)); pts=[];lines=[]
        for i in range(n):
            a=np.array([rng.uniform(.5,1),0,i*.7]); b=a+np.array([rng.uniform(.1,.3),0,rng.uniform(-.2,.2)]); lines.append([len(pts),len(pts)+1]); pts+=[a,b]
        m=M.Mesh(points=pts,lines=lines,physical_to_lines={'a':np.arange(0,n,2),'b':np.arange(1,n,2)},ensure_outward_normals=False); ex=E.Excitation(m,E.Symmetry.RADIAL); ex.add_voltage(a=3.,b=-2.); D.case(points=m.points)
        r=S.solve_direct_superposition(ex); f=3.*r['a']-2.*r['b']; g=S.solve_direct(ex); p=np.array([.1,.05,.6]); D.close(values(f,p),values(g,p),'recombination on an upgraded mesh',rtol=1e-8,atol=1e-10)
CASES=[('unit-response',run),('voltage-functions',functions),('upgraded-mesh',loworder)]
