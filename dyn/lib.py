"""Independent references and input generators shared by the run-time contract checks."""
import numpy as np, math, ctypes, mmap
from scipy import special as sp
PI=math.pi
# ---------------------------------------------------------------- guarded memory
libc=ctypes.CDLL(None,use_errno=True)
_keep=[]
def guard(a,end=True):
    """copy of a whose end (or start) touches an inaccessible page: any access past it kills the process."""
    a=np.ascontiguousarray(a); pg=mmap.PAGESIZE; n=max(1,-(-a.nbytes//pg))
    m=mmap.mmap(-1,(n+2)*pg); base=ctypes.addressof(ctypes.c_char.from_buffer(m))
    off=pg+(n*pg-a.nbytes if end else 0)
    v=np.frombuffer(m,dtype=a.dtype,count=a.size,offset=off).reshape(a.shape); v[...]=a
    libc.mprotect(ctypes.c_void_p(base),pg,0); libc.mprotect(ctypes.c_void_p(base+(n+1)*pg),pg,0)
    _keep.append((m,v)); return v
# ---------------------------------------------------------------- ring sources (closed form with scipy's elliptic integrals)
def ring_pot(r0,z0,a,z):
    Q=(r0+a)**2+(z0-z)**2; t=((r0-a)**2+(z0-z)**2)/Q
    return a*sp.ellipkm1(t)/(PI*np.sqrt(Q))
def ellip_em1(t):
    return sp.ellipe(1-t)
def ring_E(r0,z0,a,z):
    """(Er,Ez) of a ring with unit line charge density."""
    dz=z0-z; Q=(r0+a)**2+dz**2; P=(r0-a)**2+dz**2; t=P/Q; K=sp.ellipkm1(t); E=ellip_em1(t)
    Ez=a/PI*dz*E/(P*np.sqrt(Q))
    with np.errstate(all='ignore'):
        Er=np.where(np.asarray(r0)<1e-10,0.,a/(2*PI*r0*np.sqrt(Q))*(K-(a*a-r0*r0+dz*dz)/P*E))
    return Er,Ez
def ring_pot_quad(r0,z0,a,z,n=4096):
    p=2*PI*np.arange(n)/n
    return np.sum(a/(4*PI)/np.sqrt(r0**2+a**2-2*r0*a*np.cos(p)+(z0-z)**2))*2*PI/n
def ring_E_quad(r0,z0,a,z,n=4096):
    p=2*PI*np.arange(n)/n; d=np.sqrt(r0**2+a**2-2*r0*a*np.cos(p)+(z0-z)**2)
    return np.sum(a/(4*PI)*(r0-a*np.cos(p))/d**3)*2*PI/n, np.sum(a/(4*PI)*(z0-z)/d**3)*2*PI/n
def ring_H_quad(r0,z0,a,z,n=4096):
    """Biot-Savart field (Hr,Hz) at (r0,z0) of a ring of radius a at height z with unit current (anticlockwise from above)."""
    p=2*PI*np.arange(n)/n; d3=(r0**2+a**2-2*r0*a*np.cos(p)+(z0-z)**2)**1.5
    return np.sum(a*(z0-z)*np.cos(p)/d3)/(4*PI)*2*PI/n, np.sum(a*(a-r0*np.cos(p))/d3)/(4*PI)*2*PI/n
def ring_H(r0,z0,a,z):
    """vectorised closed form of ring_H_quad."""
    dz=z0-z; Q=(r0+a)**2+dz**2; P=(r0-a)**2+dz**2; m=4*r0*a/Q; K=sp.ellipk(m); E=sp.ellipe(m)
    with np.errstate(all='ignore'):
        Hr=np.where(np.asarray(r0)<1e-10,0.,dz/(2*PI*np.where(r0==0,1,r0)*np.sqrt(Q))*((a*a+r0*r0+dz*dz)/P*E-K))
    return Hr,1/(2*PI*np.sqrt(Q))*((a*a-r0*r0-dz*dz)/P*E+K)
# ---------------------------------------------------------------- effective charges
def eff2d(rng,n,q=16,rmin=.3,rmax=3.):
    return rng.normal(size=n),rng.uniform(.05,.5,size=(n,q)),np.stack([rng.uniform(rmin,rmax,(n,q)),rng.uniform(-2,2,(n,q))],-1)
def eff3d(rng,n,q=12,lo=.6,hi=3.):
    u=rng.normal(size=(n,q,3)); u/=np.linalg.norm(u,axis=-1,keepdims=True)
    return rng.normal(size=n),rng.uniform(.05,.5,size=(n,q)),u*rng.uniform(lo,hi,(n,q,1))
def effcur(rng,n,q=12):
    return rng.normal(size=n),rng.uniform(.05,.5,size=(n,q)),np.stack([rng.uniform(.4,3,(n,q)),np.zeros((n,q)),rng.uniform(-2,2,(n,q))],-1)
def EPC(t):
    import traceon.solver as S
    return S.EffectivePointCharges(*t)
# ---- reference sums
def pot2d(p,c,j,x):
    r=math.hypot(p[0],p[1]); return float(np.sum(c[:,None]*j*ring_pot(r,p[2],x[...,0],x[...,1]))) if len(c) else 0.
def field2d(p,c,j,x):
    r=math.hypot(p[0],p[1])
    if not len(c): return np.zeros(3)
    Er,Ez=ring_E(r,p[2],x[...,0],x[...,1]); w=c[:,None]*j; Er=np.sum(w*Er); Ez=np.sum(w*Ez)
    return np.array([p[0]/r*Er,p[1]/r*Er,Ez]) if r>=1e-10 else np.array([0,0,Ez])
def fieldcur(p,c,j,x):
    r=math.hypot(p[0],p[1])
    if not len(c): return np.zeros(3)
    Er,Ez=ring_H(r,p[2],x[...,0],x[...,2]); w=c[:,None]*j; Er=np.sum(w*Er); Ez=np.sum(w*Ez)
    return np.array([p[0]/r*Er,p[1]/r*Er,Ez]) if r>=1e-10 else np.array([0,0,Ez])
def pot3d(p,c,j,x):
    return float(np.sum(c[:,None]*j/np.linalg.norm(p-x,axis=-1)))/(4*PI) if len(c) else 0.
def field3d(p,c,j,x):
    if not len(c): return np.zeros(3)
    d=p-x; return np.sum((c[:,None]*j/np.linalg.norm(d,axis=-1)**3)[...,None]*d,axis=(0,1))/(4*PI)
def offpoint(rng,kind,x,dmin=.12):
    """a point not too close to any source; sometimes on or next to the axis, sometimes with integer coordinates."""
    for _ in range(1000):
        k=rng.integers(0,8)
        if k==0: p=np.array([0.,0.,rng.uniform(-3,3)])
        elif k==1: p=rng.integers(-3,4,size=3).astype(float)
        elif k==2: p=np.array([0.,rng.uniform(-2,2),rng.uniform(-2,2)])
        else: p=rng.uniform(-3,3,size=3)
        if x.size==0: return p
        if kind=='3d': d=np.linalg.norm(p-x,axis=-1).min()
        else: d=np.sqrt((math.hypot(p[0],p[1])-x[...,0])**2+(p[2]-x[...,-1])**2).min()
        if d>dmin: return p
    raise RuntimeError('harness: no point found')
# ---------------------------------------------------------------- elements
GP,GW=np.polynomial.legendre.leggauss(16)
def lagr(al):
    al=np.asarray(al,float); n=[-1.,-1/3,1/3,1.]
    return np.stack([np.prod([(al-n[j])/(n[i]-n[j]) for j in range(4) if j!=i],axis=0) for i in range(4)],-1)
def dlagr(al):
    al=np.asarray(al,float); n=[-1.,-1/3,1/3,1.]; out=[]
    for i in range(4):
        s=0
        for k in range(4):
            if k==i: continue
            s=s+np.prod([(al-n[j])/(n[i]-n[j]) for j in range(4) if j not in(i,k)],axis=0)/(n[i]-n[k])
        out.append(s)
    return np.stack(out,-1)
def line_pos(v,al):
    """position (x,z) on the 4-node element v (order: start, end, 1/3, 2/3)"""
    w=np.asarray(v)[[0,2,3,1]][:,[0,2]]; return lagr(al)@w
def line_der(v,al):
    w=np.asarray(v)[[0,2,3,1]][:,[0,2]]; return dlagr(al)@w
def line_jac(v,al): return np.linalg.norm(line_der(v,al),axis=-1)
def line_normal(v,al):
    d=line_der(v,al); return np.array([d[1],-d[0]])/np.hypot(*d)
def tri_area(t): return .5*np.linalg.norm(np.cross(t[1]-t[0],t[2]-t[0]))
def tri_normal(t):
    n=np.cross(t[1]-t[0],t[2]-t[0]); return n/np.linalg.norm(n)
def rand_line(rng,curved=True,xmin=.3,xmax=3.):
    a=np.array([rng.uniform(xmin,xmax),0,rng.uniform(-2,2)]); th=rng.uniform(0,2*PI); L=rng.uniform(.05,.25)
    b=a+L*np.array([math.cos(th),0,math.sin(th)])
    v=np.array([a,b,a+(b-a)/3,a+(b-a)*2/3])
    if curved:
        n=np.array([-(b-a)[2],0,(b-a)[0]]); k=rng.uniform(-.15,.15); v[2]+=k*n; v[3]+=k*n+rng.uniform(-.03,.03)*n
    return v
def rand_tri(rng,size=1.,minq=.25):
    for _ in range(1000):
        t=rng.normal(size=3)+size*rng.uniform(-1,1,(3,3)); e=max(np.linalg.norm(t[i]-t[(i+1)%3]) for i in range(3))
        if tri_area(t)/e**2>minq*.433 and e>.2*size: return t
# ---------------------------------------------------------------- uniform triangle (Wilton et al. 1984), R = |target - source|
def tri_pot(t,p):
    n=tri_normal(t); d=np.dot(p-t[0],n); tot=0.
    for i in range(3):
        a,b=t[i],t[(i+1)%3]; s=(b-a)/np.linalg.norm(b-a); m=np.cross(s,n)
        P0=np.dot(a-p,m); lm=np.dot(a-p,s); lp=np.dot(b-p,s); R0=P0*P0+d*d
        Rm=np.linalg.norm(a-p); Rp=np.linalg.norm(b-p)
        if abs(P0)>1e-14:
            f=math.log((Rp+lp)/(Rm+lm)) if (Rm+lm)>1e-8*Rm and Rp+lp>1e-8*Rp else math.log((Rm-lm)/(Rp-lp))
            tot+=P0*f-abs(d)*(math.atan(P0*lp/(R0+abs(d)*Rp))-math.atan(P0*lm/(R0+abs(d)*Rm)))
    return tot
def tri_field(t,p):
    """- grad of tri_pot"""
    n=tri_normal(t); d=np.dot(p-t[0],n); E=np.zeros(3); om=0.
    for i in range(3):
        a,b=t[i],t[(i+1)%3]; s=(b-a)/np.linalg.norm(b-a); m=np.cross(s,n)
        P0=np.dot(a-p,m); lm=np.dot(a-p,s); lp=np.dot(b-p,s); R0=P0*P0+d*d
        Rm=np.linalg.norm(a-p); Rp=np.linalg.norm(b-p)
        f=math.log((Rp+lp)/(Rm+lm)) if (Rm+lm)>1e-8*Rm and Rp+lp>1e-8*Rp else math.log((Rm-lm)/(Rp-lp))
        E+=m*f
        if abs(P0)>1e-14: om+=math.atan(P0*lp/(R0+abs(d)*Rp))-math.atan(P0*lm/(R0+abs(d)*Rm))
    return E+np.sign(d)*om*n
# ---------------------------------------------------------------- meshes
def sphere_mesh_arrays(rng,kind):
    """closed triangulated surfaces: vertices, triangles all oriented outwards"""
    if kind=='tetra':
        v=np.array([[1,1,1],[1,-1,-1],[-1,1,-1],[-1,-1,1.]]); t=[[0,1,2],[0,3,1],[0,2,3],[1,3,2]]
    elif kind=='octa':
        v=np.array([[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1.]]); t=[[0,2,4],[2,1,4],[1,3,4],[3,0,4],[2,0,5],[1,2,5],[3,1,5],[0,3,5]]
    elif kind=='ico':
        from scipy.spatial import ConvexHull
        v=rng.normal(size=(24,3)); v/=np.linalg.norm(v,axis=1,keepdims=True); t=ConvexHull(v).simplices.tolist()
    elif kind=='torus':
        n,m=9,6; R,r=2.,.6; v=[];t=[]
        for i in range(n):
            for j in range(m):
                a,b=2*PI*i/n,2*PI*j/m; v.append([(R+r*math.cos(b))*math.cos(a),(R+r*math.cos(b))*math.sin(a),r*math.sin(b)])
        for i in range(n):
            for j in range(m):
                A=i*m+j; B=((i+1)%n)*m+j; C=((i+1)%n)*m+(j+1)%m; D=i*m+(j+1)%m; t+=[[A,B,C],[A,C,D]]
        v=np.array(v)
    elif kind=='lshape':   # non-convex prism
        poly=np.array([[0,0],[2,0],[2,1],[1,1],[1,2],[0,2.]]); n=6
        v=np.array([[x,y,0.] for x,y in poly]+[[x,y,1.] for x,y in poly]); t=[]
        for i in range(n): j=(i+1)%n; t+=[[i,j,n+j],[i,n+j,n+i]]
        for a,b,c in[(0,1,2),(0,2,3),(0,3,4),(0,4,5)]: t+=[[a,c,b],[n+a,n+b,n+c]]
    v=np.array(v,float); t=np.array(t)
    if kind in('tetra','octa','ico'):
        c=v.mean(0)
        for k in range(len(t)):
            a,b,d=v[t[k]]
            if np.dot(np.cross(b-a,d-a),(a+b+d)/3-c)<0: t[k]=t[k][[0,2,1]]
    elif signed_volume(v,t)<0: t=t[:,[0,2,1]]
    return v,t
def signed_volume(v,t):
    a,b,c=v[t[:,0]],v[t[:,1]],v[t[:,2]]; return float(np.sum(np.einsum('ij,ij->i',a,np.cross(b,c))))/6
def edges_consistent(t):
    """every directed edge occurs once (closed, consistently oriented)"""
    from collections import Counter
    c=Counter()
    for a,b,d in t: c[(a,b)]+=1; c[(b,d)]+=1; c[(d,a)]+=1
    return all(v==1 for v in c.values()) and all((b,a) in c for a,b in c)
def rotm(axis,th):
    c,s=math.cos(th),math.sin(th)
    return {'x':np.array([[1,0,0],[0,c,-s],[0,s,c]]),'y':np.array([[c,0,s],[0,1,0],[-s,0,c]]),'z':np.array([[c,-s,0],[s,c,0],[0,0,1.]])}[axis]
def rand_rot(rng):
    q,_=np.linalg.qr(rng.normal(size=(3,3)))
    if np.linalg.det(q)<0: q[:,0]*=-1
    return q
def radial_raw_mesh(rng,ngroups,per,curved=True,extra=0,names=None):
    """higher-order 2D mesh with groups whose element indices are interleaved; extra elements belong to no group.
    elements sit in separate cells so that nothing overlaps."""
    import traceon.mesher as M
    n=ngroups*per+extra; pts=[];lines=[]
    cells=rng.permutation(max(n,1))
    for k in range(n):
        v=rand_line(rng,curved); c=cells[k]; v=v-v[0]+np.array([.6+.7*(c%5),0,.7*(c//5)-1.])
        lines.append([len(pts)+i for i in range(4)]); pts+=list(v)
    own=rng.permutation(n); names=names or ['g%d'%i for i in range(ngroups)]
    ph={nm:np.sort(own[i*per:(i+1)*per]) if rng.random()<.5 else own[i*per:(i+1)*per] for i,nm in enumerate(names)}
    return M.Mesh(points=pts,lines=lines,physical_to_lines=ph,ensure_outward_normals=False)
def tri_raw_mesh(rng,ngroups,per,extra=0,names=None):
    import traceon.mesher as M
    n=ngroups*per+extra; pts=[];tris=[]; cells=rng.permutation(max(n,1))
    for k in range(n):
        t=rand_tri(rng,.5); c=cells[k]; t=t-t.mean(0)+np.array([1.3*(c%3),1.3*((c//3)%3),1.3*(c//9)]); tris.append([len(pts)+i for i in range(3)]); pts+=list(t)
    own=rng.permutation(n); names=names or ['g%d'%i for i in range(ngroups)]
    ph={nm:own[i*per:(i+1)*per] for i,nm in enumerate(names)}
    return M.Mesh(points=pts,triangles=tris,physical_to_triangles=ph,ensure_outward_normals=False)
def fd_grad(f,p,h=1e-5):
    g=np.zeros(3)
    for i in range(3):
        e=np.zeros(3); e[i]=h; g[i]=(8*(f(p+e)-f(p-e))-(f(p+2*e)-f(p-2*e)))/(12*h)
    return g
