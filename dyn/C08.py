import numpy as np, math
from . import lib as L
def factor(K): return 2*(K-1)/(K+1)
EL=('voltage','fun','dielectric','eboundary'); MA=('pot','magnetizable','mboundary')
def assign(rng,ex,nm,kind):
    """returns (code,value or function)"""
    v=float(rng.choice([rng.normal(),0.,1.])) if rng.random()<.9 else int(rng.integers(-3,4))
    if kind=='voltage': ex.add_voltage(**{nm:v}); return 1,v
    if kind=='fun':
        a=rng.normal(size=4); f=lambda x,y,z: a[0]+a[1]*x+a[2]*y+a[3]*z; ex.add_voltage(**{nm:f}); return 2,f
    if kind=='dielectric': K=float(rng.uniform(0,5)); ex.add_dielectric(**{nm:K}); return 3,K
    if kind=='eboundary': ex.add_electrostatic_boundary(nm,ensure_inward_normals=False); return 3,0
    if kind=='pot': ex.add_magnetostatic_potential(**{nm:v}); return 5,v
    if kind=='magnetizable': K=float(rng.uniform(0,500)); ex.add_magnetizable(**{nm:K}); return 6,K
    if kind=='mboundary': ex.add_magnetostatic_boundary(nm,ensure_inward_normals=False); return 6,0
def center(v): return v.mean(0) if len(v)==3 else np.array([L.line_pos(v,0.)[0],0.,L.line_pos(v,0.)[1]])
def coil_mesh(rng,m,nc):
    """add nc triangulated coil sections to a radial line mesh"""
    import traceon.mesher as M
    pts=[];tris=[];ph={}
    own=[]
    for c in range(nc):
        x,z=5.+1.5*c,rng.uniform(-1,1); w,h=rng.uniform(.2,.8,2); u,v=rng.uniform(.15,.85,2); b=len(pts)
        pts+=[[x,0,z],[x+w,0,z],[x+w,0,z+h],[x,0,z+h],[x+w*u,0,z+h*v]]
        for a in range(4): tris.append([b+a,b+(a+1)%4,b+4]); own.append(c)
    p=rng.permutation(len(tris)); tris=[tris[i] for i in p]; own=np.array(own)[p]
    for c in range(nc): ph['coil%d'%c]=np.where(own==c)[0]
    cm=M.Mesh(points=pts,triangles=tris,physical_to_triangles=ph,ensure_outward_normals=False) if nc else None
    return m if cm is None else m+cm
def elements(D):
    import traceon.excitation as E, traceon.solver as S
    rng=D.rng
    for k in range(D.n(80,800)):
        rad=bool(rng.integers(0,2)); ng=int(rng.integers(1,6)); per=int(rng.integers(1,5)); names=[('g%d'%i) for i in range(ng)]; rng.shuffle(names)
        m=L.radial_raw_mesh(rng,ng,per,extra=int(rng.integers(0,4)),names=list(names)) if rad else L.tri_raw_mesh(rng,ng,per,extra=int(rng.integers(0,4)),names=list(names))
        nc=int(rng.integers(0,3)) if rad else 0
        m=coil_mesh(rng,m,nc)
        sym=E.Symmetry.RADIAL if rad else E.Symmetry.THREE_D
        ex=E.Excitation(m,sym); spec={}
        order=list(names); rng.shuffle(order)
        for nm in order:
            kind=str(rng.choice(EL+MA+('none',)))
            if kind!='none': spec[nm]=(kind,)+assign(rng,ex,nm,kind)
        cur={}
        for c in range(nc):
            if rng.random()<.7: I=float(rng.normal()); ex.add_current(**{'coil%d'%c:I}); cur['coil%d'%c]=I
        elems=m.lines if rad else m.triangles; ph=m.physical_to_lines if rad else m.physical_to_triangles
        kinds={n:(s[0],s[1]) for n,s in spec.items()}; D.case(radial=rad,groups={n:list(map(int,ph[n])) for n in names},excitations=kinds,coils=cur)
        for which,get,cls,members in(('electrostatic',ex.get_electrostatic_active_elements,S.ElectrostaticSolver,EL),('magnetostatic',ex.get_magnetostatic_active_elements,S.MagnetostaticSolver,MA)):
            act=[n for n in names if n in spec and spec[n][0] in members]
            want=sorted({int(i) for n in act for i in ph[n]}); pts,nmap=get()
            D.expect(set(nmap)==set(act),which+': the map names exactly the excited groups',got=sorted(nmap),want=sorted(act))
            D.expect(len(pts)==len(want),which+': number of active elements',got=len(pts),want=len(want))
            allr=np.concatenate([np.asarray(nmap[n]) for n in act]) if act else np.zeros(0,int)
            D.expect(sorted(map(int,allr))==list(range(len(want))),which+': every row belongs to exactly one excited group',rows=allr)
            for n in act:
                D.expect(len(nmap[n])==len(ph[n]),which+': rows of '+n)
                for r,e in zip(nmap[n],ph[n]): D.expect(np.array_equal(pts[r],m.points[elems[e]]),which+': a row carries the vertices of its own element',group=n,row=int(r),element=int(e))
            s=cls(ex)
            D.expect(len(s.vertices)==len(want),'solver elements')
            F=s.get_right_hand_side(); D.expect(F.shape==(len(want),),'right hand side shape')
            for n in act:
                kind,code,val=spec[n]
                for r,e in zip(nmap[n],ph[n]):
                    v=m.points[elems[e]]; c=center(v)
                    D.expect(int(s.excitation_types[r])==code,which+': row carries the type given for its group',group=n,got=int(s.excitation_types[r]),want=code)
                    w=val(*c) if code==2 else val
                    D.close(s.excitation_values[r],w,which+': row carries the value given for its group',rtol=1e-10,atol=1e-12,group=n)
                    if code in(1,2,5): D.close(F[r],w,which+': right-hand side is the potential',rtol=1e-10,atol=1e-12,group=n)
                    elif code==3: D.expect(F[r]==0,which+': right-hand side of a dielectric is zero',got=F[r],group=n)
                    else:
                        H=np.zeros(3)
                        for cn,I in cur.items():
                            T=m.points[m.triangles[m.physical_to_triangles[cn]]]; A=sum(L.tri_area(t) for t in T)
                            import traceon.backend as B
                            for t in T:
                                x,w_=tri_rule(t); hr,hz=L.ring_H(c[0],c[2],x[:,0],x[:,2]); H+=np.array([np.sum(w_*hr),0,np.sum(w_*hz)])*I/A
                        nn=L.line_normal(v,0.) if rad else np.zeros(2); want_=-factor(val)*(H[0]*nn[0]+H[2]*nn[1])
                        D.close(F[r],want_,which+': right-hand side of a magnetizable row is minus the factor times the normal field of the coils',rtol=1e-5,atol=1e-9,group=n)
_rule=None
def tri_rule(t):
    """32x32 collapsed Gauss rule on a triangle"""
    global _rule
    if _rule is None:
        x,w=np.polynomial.legendre.leggauss(12); x=(x+1)/2; w=w/2; a,b=np.meshgrid(x,x); W=np.outer(w,w); _rule=(a.ravel(),(b*(1-a)).ravel(),(W*(1-a)).ravel())
    a,b,w=_rule; return t[0]+a[:,None]*(t[1]-t[0])+b[:,None]*(t[2]-t[0]),w*2*L.tri_area(t)
def flags(D):
    import traceon.excitation as E
    rng=D.rng
    for _ in range(D.n(40,200)):
        m=L.radial_raw_mesh(rng,3,2); m=coil_mesh(rng,m,1); ex=E.Excitation(m,E.Symmetry.RADIAL); ks=[str(rng.choice(EL+MA+('none',))) for _ in range(3)]; cur=bool(rng.integers(0,2))
        for i,k in enumerate(ks):
            if k!='none': assign(rng,ex,'g%d'%i,k)
        if cur: ex.add_current(coil0=2.)
        D.case(kinds=ks,current=cur)
        D.expect(ex.is_electrostatic()==any(k in('voltage','fun') for k in ks),'is_electrostatic'); D.expect(ex.is_magnetostatic()==(cur or 'pot' in ks),'is_magnetostatic'); D.expect(ex.has_current()==cur,'has_current')
        # re-assigning replaces the earlier excitation
        ex.add_voltage(g0=5.); ex.add_voltage(g0=7.); D.expect(float(ex.excitation_types['g0'][1])==7.,'the last value given counts')
        for f in(ex.add_voltage,ex.add_dielectric,ex.add_magnetizable,ex.add_magnetostatic_potential): D.raises(lambda: f(nothere=1.),'an unknown name is an error')
CASES=[('active-elements',elements),('flags',flags)]
