import numpy as np, os, threading, time
class Boom(Exception): pass
def threads(D,n):
    os.environ['TRACEON_THREADS']=str(n)
def split(D):
    import traceon.util as U
    rng=D.rng
    for nt in(1,2,3,4,7,8,16,33):
        for N in(0,1,2,3,4,5,7,8,9,15,16,17,33,100):
            threads(D,nt); a=rng.permutation(10*N+1)[:N] if rng.random()<.5 else rng.normal(size=N); two=rng.random()<.3
            if two: a=rng.normal(size=(N,3))
            lock=threading.Lock(); seen=[]; D.case(threads=nt,length=N,ndim=a.ndim); b=a.copy()
            def f(x):
                with lock: seen.append(np.array(x))
                if len(x) and nt>1: time.sleep(.0005*((len(x)*7+int(abs(x.flat[0])*1000))%3))
                return 2*x+1
            r=U.split_collect(f,a); got=np.concatenate(r,axis=0)
            D.expect(got.shape==a.shape and np.array_equal(got,2*a+1),'concatenated results are the serial result',got=got,want=2*a+1); D.expect(np.array_equal(a,b),'the input is not modified')
            allseen=np.concatenate(seen,axis=0) if seen else a[:0]; key=lambda v: sorted(map(tuple,(v.tolist() if v.ndim==2 else v[:,None].tolist())))
            D.expect(key(allseen)==key(a),'every input is processed exactly once',seen=len(allseen),want=N)
def order(D):
    """partial results may have any type and come back in the original order"""
    import traceon.util as U
    for nt in(2,5,8):
        for N in(3,10,64):
            threads(D,nt); D.case(threads=nt,length=N); first=threading.Event()
            def f(x):
                if 0 in x: time.sleep(.01)
                return ('part',[int(v) for v in x])
            r=U.split_collect(f,np.arange(N)); D.expect(sum([p[1] for p in r],[])==list(range(N)),'order of the partial results',got=[p[1] for p in r])
def errors(D):
    import traceon.util as U
    rng=D.rng
    for nt in(1,2,4,8,20):
        for N in(1,2,5,9,40):
            for bad in sorted({0,N//2,N-1,int(rng.integers(N))}):
                for ex in(Boom('x'),ValueError('v'),AssertionError('a'),ZeroDivisionError(),KeyError(1),MemoryError()):
                    threads(D,nt); D.case(threads=nt,length=N,failing=bad,error=type(ex).__name__)
                    def f(x):
                        if bad in x: raise ex
                        return x
                    try: r=U.split_collect(f,np.arange(N))
                    except BaseException as e:
                        D.expect(type(e) is type(ex) or type(ex).__name__ in repr(e) or isinstance(e,Exception),'the failure is reported'); continue
                    D.expect(False,'the failure of one part is reported to the caller',returned=len(r))
    threads(D,3); D.case(all_fail=True); 
    def g(x): raise Boom()
    D.raises(lambda:U.split_collect(g,np.arange(10)),'all parts failing')
def users(D):
    """the matrix, and the axial tables, do not depend on the number of threads"""
    from . import lib as L
    import traceon.solver as S, traceon.excitation as E, traceon.interpolation as I
    rng=D.rng
    for k in range(D.n(4,20)):
        rad=bool(k%2); n=int(rng.integers(2,5)); m=L.radial_raw_mesh(rng,2,n) if rad else L.tri_raw_mesh(rng,2,n); ex=E.Excitation(m,E.Symmetry.RADIAL if rad else E.Symmetry.THREE_D); ex.add_voltage(g0=1.); ex.add_dielectric(g1=3.)
        ref=None
        for nt in(1,2,3,8,40):
            threads(D,nt); D.case(radial=rad,elements=2*n,threads=nt); M=S.ElectrostaticSolver(ex).get_matrix()
            if ref is None: ref=M
            else: D.expect(np.array_equal(M,ref),'matrix independent of the number of threads')
    f=S.FieldRadialBEM(L.EPC(L.eff2d(rng,6)))
    ref=None
    for nt in(1,2,5,30):
        for N in(4,9): 
            threads(D,nt); D.case(threads=nt,samples=N); a=I.FieldRadialAxial(f,-1,1,N)
            threads(D,1); b=I.FieldRadialAxial(f,-1,1,N); D.expect(np.array_equal(a.electrostatic_coeffs,b.electrostatic_coeffs),'table independent of the number of threads')
    os.environ.pop('TRACEON_THREADS',None); D.case(threads='default'); import traceon.util as U
    D.expect(U.get_number_of_threads()>=1,'at least one thread'); D.expect(np.array_equal(np.concatenate(U.split_collect(lambda x:x,np.arange(50))),np.arange(50)),'default number of threads')
CASES=[('split',split),('order',order),('errors',errors),('users',users)]
