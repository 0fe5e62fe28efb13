"""The Python side of the backend (traceon/backend/__init__.py) executed on symbolic arrays: ctypes and the shared library are
contract objects, every library function behaves as its proved C contract says (sums over elements are linear in the charges,
table evaluations are linear in the coefficients)."""
import types, os, numpy as np
from fractions import Fraction as Fr
from . import term as T, pysym as Y, sarr as A, prove as P
from .pysym import S, V, X, FN, explore, same, tr, tb, tn, tt, vec, Unsupported
from .pygeo import ok
from .cparse import _find_value
NQ2,NQ3=16,12
class CVal:
    def __init__(s,v=None): s.value=v
    @classmethod
    def in_dll(c,lib,n): return CVal(lib.const(n))
def ctype(n): return type(n,(CVal,),{'cname':n})
class PtrTo:
    def __init__(s,o,ty=None): s.target=o; s.ty=ty
    @property
    def contents(s): return s.target
class View:
    """arr.ctypes"""
    def __init__(s,a): s.a=a
    def data_as(s,ty): return PtrTo(s.a,ty)
class Struct:
    def __init__(s,*a,**k): pass
def fake_ctypes(lib):
    m=types.ModuleType('ctypes')
    for n in('c_double','c_int','c_size_t','c_void_p','c_bool','c_uint8','c_long','c_uint64'): setattr(m,n,ctype(n))
    def POINTER(t): return type('P_'+getattr(t,'__name__','x'),(CVal,),{'cname':'ptr','to':t})
    def CFUNCTYPE(*a): return type('F',(CVal,),{'cname':'fn','sig':a,'__call__':lambda s,*x:s.value(*x)})
    m.POINTER=POINTER; m.CFUNCTYPE=CFUNCTYPE; m.Structure=Struct; m.pointer=lambda o:PtrTo(o); m.byref=m.pointer; m.cast=lambda o,t:PtrTo(o.target if isinstance(o,PtrTo) else o,t)
    m.CDLL=lambda p:lib
    return m
class LibFn:
    def __init__(s,lib,n): s.lib=lib; s.name=n; s.restype=None; s.argtypes=None
    def __call__(s,*a): return s.lib.invoke(s.name,a)
class Lib:
    def __init__(s,unit,contracts): s.unit=unit; s.con=contracts; s.fns={}
    def const(s,n):
        g=s.unit.globals[n]; v=_find_value(g); return int(float(v))
    def __getattr__(s,n):
        if n.startswith('__'): raise AttributeError(n)
        if n not in s.fns: s.fns[n]=LibFn(s,n)
        return s.fns[n]
    def invoke(s,n,a):
        if n not in s.con: raise Unsupported('library function %s has no contract here'%n)
        return s.con[n](*a)
def backend_module(L,unit,contracts,mod='traceon.backend'):
    """load the real wrapper module."""
    lib=Lib(unit,contracts)
    L.stub('ctypes',**vars(fake_ctypes(lib)))
    L.stub('scipy',LowLevelCallable=Y.OpaqueFn('scipy.LowLevelCallable')); L.stub('scipy.integrate',quad=Y.OpaqueFn('scipy.integrate.quad'))
    import numpy.ctypeslib, numpy.typing
    L.stubs['numpy.ctypeslib']=numpy.ctypeslib; L.stubs['numpy.typing']=numpy.typing
    import platform; L.stubs['platform']=types.SimpleNamespace(system=lambda:'Linux')
    p=types.ModuleType('os.path'); p.__dict__.update({k:v for k,v in vars(os.path).items() if not k.startswith('__')}); p.isfile=lambda f:True
    L.stubs['os.path']=p; o=types.ModuleType('os'); o.__dict__.update({k:v for k,v in vars(os).items() if not k.startswith('__')}); o.path=p; L.stubs['os']=o
    L.np.extra['require']=lambda a,dtype=None,requirements=None:a
    L.np.extra['vectorize']=lambda f,**k:f
    for n in('ctypeslib','typing'): L.np.extra[n]=getattr(np,n)
    for n in('float64','uint8','uint64','int32','int64','double'): L.np.extra[n]=getattr(np,n)
    B=L.get(mod)
    return B,lib
class OArr(np.ndarray):
    """object arrays whose conversion to floating point keeps symbolic values."""
    @property
    def ctypes(s): return View(s)
    def astype(s,dt,*a,**k):
        if s.dtype==object and np.dtype(dt).kind=='f':
            o=np.empty(s.shape,object)
            for i in np.ndindex(s.shape): o[i]=S(tr(s[i]))
            return o.view(OArr)
        return np.ndarray.astype(s,dt,*a,**k)
def oarr(f):
    def g(*a,**k):
        r=f(*a,**k)
        return r.view(OArr) if isinstance(r,np.ndarray) and r.dtype==object else r
    return g
def full_loader(unit,contracts,stubs=None):
    L=Y.Loader(); A.install(L)
    L.stub('traceon.logging',**{n:(lambda *a,**k:None) for n in('log_debug','log_info','log_warning','log_error','set_log_level')})
    for k,v in(stubs or {}).items(): L.stubs[k]=v
    for n in('array','asarray'): L.np.extra[n]=oarr(L.np.extra[n])
    A.SArr.ctypes=property(lambda s:View(s))
    return (L,)+backend_module(L,unit,contracts)
# ------------------------------------------------------------------ contracts of the summation routines (C03): linear in the charges
def need(what,g):
    if g is not T.TRUE: Y.cur.events.append(('precondition of '+what,g,list(Y.cur.pc)))
def leaves(a,o=T.IZERO):
    if not a.parts or len(a.parts)<2: return [(o,a.n,a)]
    return [l for o2,m,x in a.parts for l in leaves(x,T.add(o,o2))]
def elem_fn(name,point,j,p): return T.fun('free_'+name,*[tr(x) for x in point],*[tr(x) for x in np.ravel(j)],*[tr(x) for x in np.ravel(p)])
def total(name,point,q,jac,pos,N,nq,dim,c):
    n=tt(N); q,jac,pos=A.lift_arr(q),A.lift_arr(jac),A.lift_arr(pos)
    if jac.tail!=(nq,) or pos.tail!=(nq,dim): raise ValueError('array shape %s %s passed to %s'%(jac.tail,pos.tail,name))
    for w,a in(('charges',q),('jacobians',jac),('positions',pos)): need('%s: %s has the stated number of elements'%(name,w),T.eq(a.n,n))
    # parts of a concatenation are summed part by part
    lv={id(a):leaves(a) for a in(q,jac,pos)}; cut=[l for l in lv.values() if len(l)>1]; segs=[(T.IZERO,n)]; split=False
    if cut and all([x[:2] for x in c_]==[x[:2] for x in cut[0]] for c_ in cut): segs=[(o,m) for o,m,_ in cut[0]]; split=True
    r=T.ZERO
    for k,(o,m) in enumerate(segs):
        v=T.fresh('e','I')
        get=lambda a:(lv[id(a)][k][2].elem(v) if split and len(lv[id(a)])>1 else a.elem(T.add(o,v)))
        r=T.add(r,T.Sum(v,T.IZERO,m,T.mul(tr(get(q)),elem_fn('%s_%d'%(name,c),point,get(jac),get(pos)))))
    return S(r)
def scalar_fn(name,nq,dim): return lambda point,q,j,p,N: total(name,_pt(point),q,j,p,N,nq,dim,0)
def _pt(p):
    if isinstance(p,(list,np.ndarray)): return list(np.ravel(p))
    return [p]
def vector_fn(name,nq,dim):
    def f(point,result,q,j,p,N):
        if result.shape!=(3,): raise ValueError('result shape')
        for c in range(3): result[c]=total(name,_pt(point),q,j,p,N,nq,dim,c)
    return f
def table_fn(name,nq,dim,nd=9):
    def f(out,q,j,p,N,z,Nz):
        z=A.lift_arr(z); need(name+': number of z values',T.band(T.eq(z.n,tt(Nz)),T.eq(out.n,tt(Nz))))
        def el(i):
            o=np.empty(nd,object)
            for c in range(nd): o[c]=total(name,[z.elem(i)],q,j,p,N,nq,dim,c)
            return o
        out.elem=el
    return f
def SUMS():
    return {'potential_radial':scalar_fn('potential_radial',NQ2,2),'potential_3d':scalar_fn('potential_3d',NQ3,3),'field_radial':vector_fn('field_radial',NQ2,2),'field_3d':vector_fn('field_3d',NQ3,3),
        'current_field':vector_fn('current_field',NQ3,3),'current_potential_axial':scalar_fn('current_potential_axial',NQ3,3),'axial_derivatives_radial':table_fn('axial_derivatives_radial',NQ2,2),
        'current_axial_derivatives_radial':table_fn('current_axial_derivatives_radial',NQ3,3)}
def lin_table(name,tail,vecout):
    """contract of the table evaluations (C01): the polynomial piece of the interval containing z, linear in its coefficients, zero outside."""
    def val(point,z,co,N,c):
        z=A.lift_arr(z); co=A.lift_arr(co)
        if co.tail!=tail: raise ValueError('coefficient shape')
        need(name+': table lengths',T.band(T.eq(z.n,tt(N)),T.eq(T.add(co.n,T.IONE),tt(N))))
        zz=tr(point[2]); i=T.fun_i('interval_'+'_'.join(sorted({u.args[0] for u in T.walk([tr(z.elem(A.CAN))]) if u.op=='f'})),zz)
        inside=T.band(T.le(tr(z.elem(T.IZERO)),zz),T.le(zz,tr(z.elem(T.sub(z.n,T.IONE)))))
        row=co.elem(i); t=T.ZERO
        for k,x in enumerate(np.ravel(row)): t=T.add(t,T.mul(T.fun('free_w_%s_%d_%d'%(name,c,k),*[tr(v) for v in point],tr(z.elem(i))),tr(x)))
        return S(T.ite(inside,t,T.ZERO))
    if not vecout: return lambda point,z,co,N: val(_pt(point),z,co,N,0)
    def f(point,result,z,co,N):
        if result.shape!=(3,): raise ValueError('result shape')
        for c in range(3): result[c]=val(_pt(point),z,co,N,c)
    return f
def TABLES():
    return {'potential_radial_derivs':lin_table('potential_radial_derivs',(9,6),False),'field_radial_derivs':lin_table('field_radial_derivs',(9,6),True),
        'potential_3d_derivs':lin_table('potential_3d_derivs',(2,4,8,4),False),'field_3d_derivs':lin_table('field_3d_derivs',(2,4,8,4),True)}
# ------------------------------------------------------------------ interface conformance
def kinds(u,f):
    """parameter and result kinds of a C function."""
    n=u.funcs[f]; ps=[c for c in n.get('inner',()) if c['kind']=='ParmVarDecl']
    def k(ty,q):
        if ty[0] in('ptr','arr','fn'): return 'ptr'
        if ty[0]=='struct': return 'struct'
        if ty[0]=='int': return 'int:'+q
        return ty[0]
    ret=n['type']['qualType'].split('(')[0].strip()
    return [k(u.type(p['type']),p['type']['qualType']) for p in ps],k(u.ptype(ret),ret)
def declared(t):
    if t is None: return 'void'
    if t is bool: return 'int:bool'
    n=getattr(t,'cname',None)
    if n in('c_void_p','ptr','fn'): return 'ptr'
    if n=='c_double': return 'double'
    if n in('c_int','c_size_t','c_bool','c_uint8'): return 'int:'+{'c_int':'int','c_size_t':'size_t'}.get(n,n)
    if isinstance(t,type) and issubclass(t,Struct): return 'struct'
    if hasattr(t,'_shape_') or hasattr(t,'_ndim_'): return 'ptr'
    raise Unsupported('declared type %r'%t)
def v_interface(ctx,only=None):
    """every declared argument list agrees with the C prototype."""
    u=ctx.unit(); L,B,lib=full_loader(u,{})
    for f in sorted(lib.fns):
        fn=lib.fns[f]; d=B.backend_functions.get(f)
        if d is None or (only is not None and f not in only): continue
        ctx.function('traceon/backend/__init__.py:backend_functions[%s]'%f,'declared argument and result types','contract')
        if not ctx.check('%s: exists in the library'%f,f in u.funcs): continue
        ps,r=kinds(u,f); g=[declared(x) for x in d[1:]]; norm=lambda k:{'int:_Bool':'int:bool','int:size_t':'int:size_t','int:unsigned long':'int:size_t'}.get(k,k)
        ctx.check('%s: declared arguments are those of the C prototype'%f,[norm(x) for x in ps]==[norm(x) for x in g],'declared %s, prototype %s'%(g,ps))
        ctx.check('%s: declared result is that of the C prototype'%f,norm(r)==norm(declared(d[0])),'declared %s, prototype %s'%(declared(d[0]),r))
