import numpy as np, math
from . import lib as L
def run(D):
    import traceon.solver as S, traceon.interpolation as I, traceon.backend as B
    rng=D.rng
    for k in range(D.n(60,600)):
        e,m,c=L.eff2d(rng,int(rng.integers(1,4))),L.eff2d(rng,int(rng.integers(0,3))),L.effcur(rng,int(rng.integers(0,3)))
        f=S.FieldRadialBEM(L.EPC(e),L.EPC(m),L.EPC(c)); N=int(rng.integers(2,6)); z=np.linspace(-2,2,N)
        ax=object.__new__(I.FieldRadialAxial); I.FieldAxial.__init__(ax,z,rng.normal(size=(N-1,9,6)),rng.normal(size=(N-1,9,6))); ax2=S.FieldRadialAxial(z,ax.electrostatic_coeffs,ax.magnetostatic_coeffs)
        xs=np.concatenate([s[2][...,[0,-1]].reshape(-1,1,2) for s in(e,m,c)])
        while True:
            r=float(rng.choice([rng.uniform(.05,2.5),2e-10,1e-6,1e-3])); zz=rng.uniform(-2,2)
            if np.sqrt((r-xs[...,0])**2+(zz-xs[...,1])**2).min()>.05: break
        for nm,F in(('charges',f),('axial',ax),('axial-solver',ax2)):
            fs=[F.electrostatic_field_at_point,F.magnetostatic_field_at_point]+([F.current_field_at_point] if nm=='charges' else []); vs=[F.electrostatic_potential_at_point,F.magnetostatic_potential_at_point]
            ref=None
            for t in [0,.5*np.pi,np.pi,1.5*np.pi,rng.uniform(0,2*np.pi),rng.uniform(0,2*np.pi),.25*np.pi]:
                ct,st=(round(math.cos(t)),round(math.sin(t))) if abs(t/(np.pi/2)-round(t/(np.pi/2)))<1e-9 else (math.cos(t),math.sin(t))
                p=np.array([r*ct,r*st,zz]); D.case(field=nm,r=r,angle=t,z=zz)
                E=[g(p) for g in fs]; V=[g(p) for g in vs]; cyl=[(v[0]*ct+v[1]*st,-v[0]*st+v[1]*ct,v[2]) for v in E]
                s=[1e-9+np.linalg.norm(v) for v in E]
                for v,q,sc in zip(E,cyl,s): D.expect(abs(q[1])<=1e-9*sc,'transverse field is parallel to (x, y)',field_=v)
                if ref is None: ref=(cyl,V)
                else:
                    tol=[1e-6*sc*(1+1/max(r,1e-3) if nm=='charges' else 1) for sc in s]
                    for q,q0,tl in zip(cyl,ref[0],tol): D.expect(abs(q[0]-q0[0])<=tl and abs(q[2]-q0[2])<=tl,'field rotates with the point',got=q,want=q0)
                    D.close(V,ref[1],'potential depends on r and z only',rtol=1e-6 if nm=='charges' else 1e-9,atol=1e-7 if nm=='charges' else 1e-9)
            for p in([0.,0.,zz],[0,0,1],np.array([0.,-0.,zz]),[3e-11,-4e-11,zz]):
                p=np.array(p)
                if np.sqrt((0-xs[...,0])**2+(p[2]-xs[...,1])**2).min()<.05: continue
                D.case(field=nm,on_axis=p)
                for g in fs:
                    v=g(p); h=np.array([0,0,1e-4]); gr=np.abs(g(p+h)[2]-g(p-h)[2])/2e-4+np.abs(v[2]); rr=math.hypot(p[0],p[1])
                    D.expect((v[0]==0 and v[1]==0) if (nm=='charges' or rr==0) else np.all(np.abs(v[:2])<=1e3*rr*(1+gr)),'no transverse field on the axis',got=v)
                    D.expect(np.all(np.isfinite(v)),'finite on the axis',got=v)
def integers(D):
    import traceon.solver as S
    rng=D.rng
    for _ in range(D.n(40,400)):
        e,m,c=L.eff2d(rng,2,rmin=.3,rmax=.8),L.eff2d(rng,1,rmin=.3,rmax=.8),L.effcur(rng,2); c[2][...,0]*=.25; f=S.FieldRadialBEM(L.EPC(e),L.EPC(m),L.EPC(c)); p=rng.integers(-4,5,size=3)
        if abs(p[0])+abs(p[1])<1: continue
        if math.hypot(p[0],p[1])<1.2: p[0]+=2
        D.case(point=p)
        for g in(f.electrostatic_field_at_point,f.magnetostatic_field_at_point,f.current_field_at_point):
            a,b=g(p),g(p.astype(float)); D.expect(np.array_equal(a,b),'integer coordinates are the same point',got=a,want=b)
            q=np.array([-p[1],p[0],p[2]]); v=g(q); D.close([v[1],-v[0],v[2]],a,'quarter turn of an integer point',rtol=1e-6,atol=1e-9)
CASES=[('rotation',run),('integer-points',integers)]
