import numpy as np, math, os
from scipy.integrate import quad
from . import lib as L
FIX=('voltage','pot')
def factor(K): return 2*(K-1)/(K+1)
def radial_entry(v,i,j,flux,n,t):
    if i!=j:
        x=L.line_pos(v[j],L.GP); w=L.GW*L.line_jac(v[j],L.GP)
        if not flux: return float(np.sum(w*L.ring_pot(t[0],t[1],x[:,0],x[:,1])))
        Er,Ez=L.ring_E(t[0],t[1],x[:,0],x[:,1]); return float(np.sum(w*(n[0]*Er+n[1]*Ez)))
    def g(a):
        x=L.line_pos(v[j],a); w=L.line_jac(v[j],a)
        if not flux: return float(w*L.ring_pot(t[0],t[1],x[0],x[1]))
        Er,Ez=L.ring_E(t[0],t[1],x[0],x[1]); return float(w*(n[0]*Er+n[1]*Ez))
    return quad(g,-1,1,points=(0,),epsabs=1e-9,epsrel=1e-9,limit=250)[0]
def check_radial(D,s,M,what,rows=None):
    v=np.array(s.vertices)
    for i in (range(len(v)) if rows is None else rows):
        t=L.line_pos(v[i],0.); n=L.line_normal(v[i],0.); flux=int(s.excitation_types[i]) in(3,6); f=factor(s.excitation_values[i]) if flux else 1.
        for j in range(len(v)):
            w=f*radial_entry(v,i,j,flux,n,t)-(1. if flux and i==j else 0.)
            D.close(M[i,j],w,what,rtol=2e-6 if i!=j else 2e-5,atol=1e-9 if i!=j else 1e-6,row=i,column=j,boundary_type=int(s.excitation_types[i]))
def solver(rng,m,sym,magnetic,names,nofix=False):
    import traceon.solver as S, traceon.excitation as E
    ex=E.Excitation(m,sym)
    for k,nm in enumerate(names):
        c=rng.integers(0,3) if k or nofix else 0
        if magnetic:
            if c==0: ex.add_magnetostatic_potential(**{nm:float(rng.normal())})
            else: ex.add_magnetizable(**{nm:float(rng.choice([0.,.5,1.,3.,1000.]))})
        else:
            if c==0: ex.add_voltage(**{nm:float(rng.normal())})
            elif c==1: ex.add_dielectric(**{nm:float(rng.choice([0.,.3,1.,4.,80.]))})
            else: ex.add_voltage(**{nm:(lambda x,y,z: x+2*z)})
    return (S.MagnetostaticSolver if magnetic else S.ElectrostaticSolver)(ex)
def radial(D):
    import traceon.excitation as E
    rng=D.rng
    for k in range(D.n(8,60)):
        names=['g%d'%i for i in range(int(rng.integers(1,4)))]; per=int(rng.integers(1,4)); m=L.radial_raw_mesh(rng,len(names),per,extra=int(rng.integers(0,2)))
        s=solver(rng,m,E.Symmetry.RADIAL,bool(k%2),names); os.environ['TRACEON_THREADS']=str(int(rng.choice([1,2,3,8]))); D.case(elements=len(s.vertices),types=s.excitation_types,values=s.excitation_values,vertices=s.vertices,threads=os.environ['TRACEON_THREADS'])
        M=s.get_matrix(); D.expect(M.shape==(len(s.vertices),)*2,'matrix shape'); check_radial(D,s,M,'matrix entry states its boundary condition')
def entry3(D,s,M,i,what):
    v=np.array(s.vertices); t=v[i].mean(0); flux=int(s.excitation_types[i]) in(3,6); f=factor(s.excitation_values[i]) if flux else 1.; n=L.tri_normal(v[i])
    for j in range(len(v)):
        if i==j and flux: D.expect(M[i,i]==-1.,what+' (diagonal of a flux row is -1)',got=M[i,i],row=i); continue
        if flux: w=f*float(n@L.tri_field(v[j],t))/(4*L.PI); sc=abs(f)*L.tri_area(v[j])/(4*L.PI*(np.linalg.norm(v[j]-t,axis=1).min())**2)
        else: w=L.tri_pot(v[j],t)/(4*L.PI); sc=abs(w)
        # either the exact integral or the element's own 12-point rule
        x=s.pos_buffer[j]; d=t-x; r=np.linalg.norm(d,axis=1)
        q=f*float(np.sum(s.jac_buffer[j]*(d@n)/r**3))/(4*L.PI) if flux else float(np.sum(s.jac_buffer[j]/r))/(4*L.PI)
        g=M[i,j]; far=np.linalg.norm(v[j]-t,axis=1).min()>3.9*max(np.linalg.norm(v[j][a]-v[j][a-1]) for a in range(3))
        ok=abs(g-w)<=1e-6*sc+3e-9*(1+abs(f)) or (far and abs(g-q)<=1e-9*sc+1e-13)
        ok=ok or (i!=j and abs(g-q)<=1e-9*sc+1e-13 and abs(g-w)<=.05*sc)
        D.expect(ok,what,row=i,column=j,got=g,exact=w,rule=q,boundary_type=int(s.excitation_types[i]))
def three_d(D):
    import traceon.excitation as E, traceon.mesher as Me
    rng=D.rng
    for k in range(D.n(8,60)):
        names=['g%d'%i for i in range(int(rng.integers(1,4)))]
        if k%3==2:
            v,t=L.sphere_mesh_arrays(rng,['octa','ico','tetra'][k%9//3]); own=np.arange(len(t))%len(names)
            m=Me.Mesh(points=v,triangles=t,physical_to_triangles={nm:np.where(own==i)[0] for i,nm in enumerate(names)},ensure_outward_normals=False)
        else: m=L.tri_raw_mesh(rng,len(names),int(rng.integers(1,5)),extra=int(rng.integers(0,2)))
        s=solver(rng,m,E.Symmetry.THREE_D,bool(k%2),names); os.environ['TRACEON_THREADS']=str(int(rng.choice([1,2,3,8]))); D.case(types=s.excitation_types,values=s.excitation_values,vertices=s.vertices,threads=os.environ['TRACEON_THREADS'])
        M=s.get_matrix()
        for i in range(len(s.vertices)): entry3(D,s,M,i,'matrix entry states its boundary condition')
def partitions(D):
    import traceon.excitation as E, traceon.backend as B
    rng=D.rng
    for k in range(D.n(16,120)):
        rad=bool(k%2); names=['g0','g1']; m=L.radial_raw_mesh(rng,2,int(rng.integers(2,5))) if rad else L.tri_raw_mesh(rng,2,int(rng.integers(2,6)))
        s=solver(rng,m,E.Symmetry.RADIAL if rad else E.Symmetry.THREE_D,bool(rng.integers(0,2)),names); N=len(s.vertices); fill=B.fill_matrix_radial if rad else B.fill_matrix_3d
        full=np.zeros((N,N)); fill(full,s.vertices,s.excitation_types,s.excitation_values,s.jac_buffer,s.pos_buffer,0,N-1)
        a=int(rng.integers(0,N)); b=int(rng.integers(a,N)); D.case(radial=rad,rows=(a,b),N=N,types=s.excitation_types)
        part=np.full((N,N),7.25); part[a:b+1]=0.; part=L.guard(part); fill(part,s.vertices,s.excitation_types,s.excitation_values,s.jac_buffer,s.pos_buffer,a,b)
        D.close(part[a:b+1],full[a:b+1],'rows a..b are filled with the same values',rtol=1e-12,atol=1e-14)
        D.expect(np.all(part[:a]==7.25) and np.all(part[b+1:]==7.25),'all other rows are untouched')
        ref=None
        for th in(1,2,3,5,N,N+3,40):
            os.environ['TRACEON_THREADS']=str(th); D.case(radial=rad,threads=th,N=N); M=s.get_matrix()
            if ref is None: ref=M
            D.close(M,ref,'the matrix does not depend on the number of threads',rtol=1e-12,atol=1e-14)
    os.environ['TRACEON_THREADS']='2'
def single(D):
    """one element only, and many elements per thread"""
    import traceon.excitation as E
    rng=D.rng
    for n in(1,1,2,17):
        for rad in(True,False):
            m=L.radial_raw_mesh(rng,1,n) if rad else L.tri_raw_mesh(rng,1,n); s=solver(rng,m,E.Symmetry.RADIAL if rad else E.Symmetry.THREE_D,bool(rng.integers(0,2)),['g0'],nofix=True); os.environ['TRACEON_THREADS']='4'; D.case(n=n,radial=rad,types=s.excitation_types); M=s.get_matrix()
            for i in sorted({0,n-1,n//2}):
                if rad: check_radial(D,s,M,'matrix entry',rows=[i])
                else: entry3(D,s,M,i,'matrix entry')
CASES=[('radial-entries',radial),('3d-entries',three_d),('partitions',partitions),('sizes',single)]
