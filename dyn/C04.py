import numpy as np, math
from . import lib as L
def snap(f):
    return [(e.charges.copy(),e.jacobians.copy(),e.positions.copy()) for e in(f.electrostatic_point_charges,f.magnetostatic_point_charges,f.current_point_charges)]
def same(a,b): return all(all(np.array_equal(x,y) for x,y in zip(p,q)) for p,q in zip(a,b))
def rnd(D,three,base=None):
    """a field with electrostatic, magnetostatic and current parts; shares the mesh of base or not"""
    import traceon.solver as S
    rng=D.rng; parts=[]
    for i,gen in enumerate([L.eff3d,L.eff3d] if three else [L.eff2d,L.eff2d,L.effcur]):
        if base is not None and rng.random()<.3:
            b=[base.electrostatic_point_charges,base.magnetostatic_point_charges,base.current_point_charges][i]
            parts.append(S.EffectivePointCharges(rng.normal(size=len(b)),b.jacobians.copy(),b.positions.copy()))
        elif base is not None and rng.random()<.3:     # same positions, other weights
            b=[base.electrostatic_point_charges,base.magnetostatic_point_charges,base.current_point_charges][i]
            parts.append(S.EffectivePointCharges(rng.normal(size=len(b)),b.jacobians*rng.uniform(.5,2),b.positions.copy()))
        elif base is not None and rng.random()<.5:     # same weights, other positions (shifted, one point moved, or elements permuted)
            b=[base.electrostatic_point_charges,base.magnetostatic_point_charges,base.current_point_charges][i]
            pos=b.positions.copy(); m=int(rng.integers(3))
            if m==0: pos[...,-1]+=rng.uniform(.2,1)
            elif m==1 and len(b): pos[int(rng.integers(len(b))),int(rng.integers(pos.shape[1])),-1]+=rng.uniform(.2,1)
            else: pos=pos[rng.permutation(len(b))]
            parts.append(S.EffectivePointCharges(rng.normal(size=len(b)),b.jacobians.copy(),pos))
        else: parts.append(L.EPC(gen(rng,int(rng.choice([0,1,3,6])))))
    return S.Field3D_BEM(*parts) if three else S.FieldRadialBEM(*parts)
def ev(f,p,three):
    return np.concatenate([[f.electrostatic_potential_at_point(p)],f.electrostatic_field_at_point(p),[f.magnetostatic_potential_at_point(p)],f.magnetostatic_field_at_point(p)])
def allpos(fs):
    x=[np.concatenate([e.positions[...,[0,-1]].reshape(-1,2),np.zeros((0,2))]) for f in fs for e in(f.electrostatic_point_charges,f.magnetostatic_point_charges,f.current_point_charges)]
    return np.concatenate(x).reshape(-1,1,2)
def scalars(rng): return [0,1,-1,2,-3,0.5,-2.25,float(rng.normal()),np.float64(rng.normal()),int(rng.integers(-5,6)),True,1e3,0.0]
def bem(D):
    rng=D.rng
    for k in range(D.n(60,800)):
        three=bool(k%2); f=rnd(D,three); g=rnd(D,three,f if rng.random()<.7 else None); s0,s1=snap(f),snap(g)
        if three:
            xs=np.concatenate([e.positions.reshape(-1,1,3) for q in(f,g) for e in(q.electrostatic_point_charges,q.magnetostatic_point_charges)]); pts=[L.offpoint(rng,'3d',xs,.05) for _ in range(2)]
        else: pts=[L.offpoint(rng,'2d',allpos([f,g]),.03) for _ in range(2)]
        a=scalars(rng)[int(rng.integers(13))]; b=scalars(rng)[int(rng.integers(13))]
        ops=[('f+g',lambda:f+g,1,1),('f-g',lambda:f-g,1,-1),('a*f',lambda:a*f,a,0),('f*a',lambda:f*a,a,0),('-f',lambda:-f,-1,0),('g+f',lambda:g+f,1,1),('a*f+b*g',lambda:a*f+b*g,a,b),('a*(f-g)',lambda:a*(f-g),a,-a),('f+f',lambda:f+f,2,0),('f-f',lambda:f-f,0,0),('-(f+g)',lambda:-(f+g),-1,-1),('f+g+f',lambda:f+g+f,2,1)]
        for nm,op,ca,cb in ops:
            D.case(op=nm,three_d=three,a=a,b=b,sizes=[len(e[0]) for e in s0+s1],points=pts)
            h=op()
            D.expect(type(h) is type(f),'the result has the same kind')
            D.expect(same(s0,snap(f)) and same(s1,snap(g)),'the operands are not modified')
            for p in pts:
                want=ca*ev(f,p,three)+cb*ev(g,p,three); tol=1e-9*(1+abs(float(ca))*np.abs(ev(f,p,three)).max()+abs(float(cb))*np.abs(ev(g,p,three)).max())
                D.expect(np.all(np.abs(ev(h,p,three)-want)<=tol),'pointwise superposition',got=ev(h,p,three),want=want)
        # results do not alias the operands
        h=f+g; k2=2*f; D.case(op='alias',three_d=three)
        for r in(h,k2):
            for e in(r.electrostatic_point_charges,r.magnetostatic_point_charges,r.current_point_charges): e.charges+=1.
        D.expect(same(s0,snap(f)) and same(s1,snap(g)),'changing a result does not change the operands')
def axial(D):
    import traceon.interpolation as I, traceon.solver as S, traceon.tracing as T
    rng=D.rng
    def mk(z,e,m,k):
        if k: return S.FieldRadialAxial(z,e,m)
        f=object.__new__(I.FieldRadialAxial); I.FieldAxial.__init__(f,z,e,m); return f
    fields=[]
    for k in range(D.n(40,400)):
        N=int(rng.choice([2,3,6])); z=np.linspace(-1,1,N); c=[rng.normal(size=(N-1,9,6))*(rng.random()<.8) for _ in range(4)]; kind=k%3
        if kind==2:
            src=[S.FieldRadialBEM(L.EPC(L.eff2d(rng,2,rmin=1.5)),L.EPC(L.eff2d(rng,int(rng.integers(0,2)),rmin=1.5)),L.EPC(L.effcur(rng,int(rng.integers(0,2))))) for _ in range(2)]
            f,g=[I.FieldRadialAxial(s,-1.,1.,max(N,4)) for s in src]
        else: f=mk(z,c[0],c[1],kind); g=mk(z,c[2],c[3],kind)
        s=[x.copy() for x in(f.electrostatic_coeffs,f.magnetostatic_coeffs,g.electrostatic_coeffs,g.magnetostatic_coeffs)]
        a=scalars(rng)[int(rng.integers(13))]; b=scalars(rng)[int(rng.integers(13))]; p=np.array([*rng.uniform(-.3,.3,2),rng.uniform(-1,1)])
        for nm,op,ca,cb in[('f+g',lambda:f+g,1,1),('f-g',lambda:f-g,1,-1),('a*f',lambda:a*f,a,0),('f*a',lambda:f*a,a,0),('-f',lambda:-f,-1,0),('a*f+b*g',lambda:a*f+b*g,a,b),('f-f',lambda:f-f,0,0),('-(g-f)',lambda:-(g-f),1,-1)]:
            D.case(op=nm,kind=['interpolation','solver','built'][kind],a=a,b=b,N=N,point=p); h=op()
            D.expect(type(h) is type(f),'the result has the same kind')
            want=ca*ev(f,p,0)+cb*ev(g,p,0); tol=1e-9*(1+abs(float(ca))*np.abs(ev(f,p,0)).max()+abs(float(cb))*np.abs(ev(g,p,0)).max())
            D.expect(np.all(np.abs(ev(h,p,0)-want)<=tol),'pointwise superposition',got=ev(h,p,0),want=want)
            D.expect(bool(h.is_electrostatic())==bool(np.any(h.electrostatic_coeffs!=0)) and bool(h.is_magnetostatic())==bool(np.any(h.magnetostatic_coeffs!=0)),'kind flags follow the tables')
            D.expect(all(np.array_equal(x,y) for x,y in zip(s,(f.electrostatic_coeffs,f.magnetostatic_coeffs,g.electrostatic_coeffs,g.magnetostatic_coeffs))),'the operands are not modified')
        h=f+g; h.electrostatic_coeffs+=1; h.magnetostatic_coeffs+=1
        D.expect(all(np.array_equal(x,y) for x,y in zip(s,(f.electrostatic_coeffs,f.magnetostatic_coeffs,g.electrostatic_coeffs,g.magnetostatic_coeffs))),'changing a result does not change the operands')
CASES=[('charge-fields',bem),('axial-fields',axial)]
