import numpy as np, math
from . import lib as L
def lines(D):
    import traceon.backend as B
    rng=D.rng
    for k in range(D.n(80,1000)):
        n=int(rng.choice([1,2,3,7,20])); v=np.array([L.rand_line(rng,curved=rng.random()<.7) for _ in range(n)])*float(rng.choice([1,1e-3,100,1e-7])); j,x=B.fill_jacobian_buffer_radial(v); D.case(n=n,vertices=v)
        s=np.abs(v).max()
        D.expect(j.shape==(n,16) and x.shape==(n,16,2),'buffer shapes')
        for i in range(n):
            # the points are the element at the Gauss nodes, the weights are speed times Gauss weight (in any order)
            ref=np.concatenate([L.line_pos(v[i],L.GP),(L.GW*L.line_jac(v[i],L.GP))[:,None]],1); got=np.concatenate([x[i],j[i][:,None]],1)
            Lm=j[i].sum(); d=np.abs(ref[:,None,:2]-got[None,:,:2]).max(-1); pr=d.argmin(1)
            D.expect(sorted(pr)==list(range(16)) and np.all(np.abs(ref-got[pr])<=1e-11*s),'quadrature points and weights',got=got,want=ref,element=i)
            # straight: exact length; node passage; normals
            for al,idx in((-1,0),(-1/3,2),(1/3,3),(1,1)):
                jj,pp=B.position_and_jacobian_radial(al,v[i][0],v[i][2],v[i][3],v[i][1]); D.expect(np.all(np.abs(pp-v[i][idx][[0,2]])<=1e-12*s),'element passes through its node',parameter=al,got=pp,want=v[i][idx]); D.close(jj,L.line_jac(v[i],al),'speed at node',rtol=1e-9)
            al=rng.uniform(-1,1); jj,pp=B.position_and_jacobian_radial(al,v[i][0],v[i][2],v[i][3],v[i][1]); D.expect(np.all(np.abs(pp-L.line_pos(v[i],al))<=1e-12*s) and abs(jj-L.line_jac(v[i],al))<=1e-10*s,'position and speed',parameter=al)
            nn=B.higher_order_normal_radial(al,np.ascontiguousarray(v[i])); D.close(nn,L.line_normal(v[i],al),'higher order normal',rtol=1e-9,atol=1e-10)
    for k in range(D.n(80,1000)):   # straight elements: exact length and low-degree polynomials
        v=L.rand_line(rng,curved=False); j,x=B.fill_jacobian_buffer_radial(v[None]); a,b=v[0],v[1]; ln=np.linalg.norm(b-a); D.case(straight=v)
        D.close(j.sum(),ln,'weights sum to the length',rtol=1e-11)
        for d in range(0,6):
            t=np.polynomial.legendre.leggauss(10); w=np.sum(t[1]*(a[0]+(b[0]-a[0])*(t[0]+1)/2)**d*(a[2]+(b[2]-a[2])*(t[0]+1)/2)**2)*ln/2
            D.close(np.sum(j[0]*x[0,:,0]**d*x[0,:,1]**2),w,'polynomial integral',rtol=1e-10,atol=1e-13)
def normals(D):
    import traceon.backend as B
    rng=D.rng
    for k in range(D.n(300,4000)):
        v=L.rand_line(rng); al=float(rng.choice([0.,-1.,1.,rng.uniform(-1,1)])); D.case(vertices=v,alpha=al)
        D.close(B.higher_order_normal_radial(al,v),L.line_normal(v,al),'unit normal orthogonal to the element, orientation by vertex order',rtol=1e-9,atol=1e-11)
        p=rng.normal(size=2);q=rng.normal(size=2); D.case(p1=p,p2=q); t=(q-p)/np.linalg.norm(q-p); D.close(B.normal_2d(p,q),[t[1],-t[0]],'line normal',rtol=1e-10,atol=1e-12)
        t=L.rand_tri(rng,1.)*float(rng.choice([1e-7,1])) if rng.random()<.5 else L.rand_tri(rng,float(rng.choice([1,1e-3,100]))); D.case(triangle=t); D.close(B.normal_3d(t),L.tri_normal(t),'triangle normal',rtol=1e-8,atol=1e-10)
def triangles(D):
    import traceon.backend as B
    rng=D.rng
    def ex(i,j): return 2*math.factorial(i)*math.factorial(j)/math.factorial(i+j+2)   # mean over the triangle of b1^i b2^j
    for k in range(D.n(80,1000)):
        n=int(rng.choice([1,2,5,9])); s=float(rng.choice([1,1e-3,50,1e-7])); t=np.array([L.rand_tri(rng,s) if s>1e-5 else L.rand_tri(rng,1.)*s for _ in range(n)]); j,x=B.fill_jacobian_buffer_3d(t); D.case(n=n,triangles=t); a=B.triangle_areas(t)
        for i in range(n):
            A=L.tri_area(t[i]); D.close(a[i],A,'triangle area',rtol=1e-9); D.close(j[i].sum(),A,'weights sum to the area',rtol=1e-9)
            M=np.array([t[i][1]-t[i][0],t[i][2]-t[i][0]]).T; b,res,_,_=np.linalg.lstsq(M,(x[i]-t[i][0]).T,rcond=None); b1,b2=b
            D.expect(np.abs(M@b+t[i][0][:,None]-x[i].T).max()<=1e-9*s,'quadrature points lie in the plane of the triangle'); D.expect(np.all(b1>0) and np.all(b2>0) and np.all(b1+b2<1) and np.all(j[i]>0),'quadrature points lie inside the triangle',b1=b1,b2=b2)
            for p in range(7):
                for q in range(7-p): D.expect(abs(np.sum(j[i]*b1**p*b2**q)/A-ex(p,q))<1e-8,'polynomials up to degree 6 are integrated exactly',degree=(p,q),got=np.sum(j[i]*b1**p*b2**q)/A,want=ex(p,q))
            al,be=rng.uniform(0,.5,2); jj,pp=B.position_and_jacobian_3d(al,be,t[i]); D.close(pp,t[i][0]+al*M[:,0]+be*M[:,1],'point of the triangle',rtol=1e-10,atol=1e-11*s); D.close(jj,2*A,'jacobian is twice the area',rtol=1e-9)
def meshed(D):
    """elements as used by the solver: lengths, areas, normals through the public classes"""
    import traceon.solver as S, traceon.excitation as E
    rng=D.rng
    for _ in range(D.n(6,40)):
        m=L.radial_raw_mesh(rng,2,4); ex=E.Excitation(m,E.Symmetry.RADIAL); ex.add_magnetostatic_potential(g0=1.); ex.add_magnetizable(g1=3.); s=S.MagnetostaticSolver(ex); D.case(vertices=s.vertices)
        for i,v in enumerate(s.vertices):
            D.close(s.normals[i],L.line_normal(np.array(v),0.),'solver normal',rtol=1e-8,atol=1e-10)
            D.close(s.get_center_of_element(i),[L.line_pos(v,0.)[0],0,L.line_pos(v,0.)[1]],'element center',rtol=1e-10,atol=1e-11)
            D.close(s.jac_buffer[i].sum(),np.sum(L.GW*L.line_jac(v,L.GP)),'element length',rtol=1e-9)
        m=L.tri_raw_mesh(rng,2,3); ex=E.Excitation(m,E.Symmetry.THREE_D); ex.add_magnetostatic_potential(g0=1.); ex.add_magnetizable(g1=3.); s=S.MagnetostaticSolver(ex); D.case(vertices=s.vertices)
        for i,v in enumerate(s.vertices): D.close(s.normals[i],L.tri_normal(v),'solver normal',rtol=1e-8,atol=1e-10); D.close(s.get_center_of_element(i),v.mean(0),'element center',rtol=1e-10,atol=1e-11); D.close(s.jac_buffer[i].sum(),L.tri_area(v),'element area',rtol=1e-9)
CASES=[('line-elements',lines),('normals',normals),('triangles',triangles),('solver-elements',meshed)]
