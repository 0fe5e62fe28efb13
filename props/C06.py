from cv import term as T
from cv.cs import *
from cv import cs,cs3
from fractions import Fraction as Fr
def static(ctx):
    from cv import pywrap
    from cv import pylib as _pl
    ctx.attempt('interface',_pl.v_interface,ctx,['fill_jacobian_buffer_radial', 'fill_jacobian_buffer_3d', 'position_and_jacobian_3d', 'position_and_jacobian_radial'])
    pywrap.v_small(ctx,('normal_2d','normal_3d','position_and_jacobian_3d')); pywrap.v_areas(ctx)
    ctx.trust('C doubles treated as reals; quadrature tables taken as their decimal literals')
    cs.v_posjac(ctx); cs.v_tri(ctx); cs3.v_tables(ctx); cs3.v_fill_jac_radial(ctx); cs3.v_fill_jac_3d(ctx); cs3.v_areas(ctx)
    lemmas(ctx)
def lemmas(ctx):
    def go():
        al=T.var('alpha'); px=V('a1 a2 a3 a4'); py=V('b1 b2 b3 b4')
        for k,t in enumerate((Fr(-1),Fr(-1,3),Fr(1,3),Fr(1))): ctx.zero('lemma: the line element passes through node %d at parameter %s'%(k+1,t),s_pos(T.R(t),*px)-px[k],[])
        dx,dy=s_dpos(al,*px),s_dpos(al,*py); n=s_honormal(al,px,py); pos=[T.lt(T.ZERO,sq(dx)+sq(dy))]
        d1,d2=V('d1 d2'); L=T.sqrt(sq(d1)+sq(d2)); ps=[T.lt(T.ZERO,sq(d1)+sq(d2))]
        ctx.zero('lemma: the line normal is a unit vector',sq(d2/L)+sq(-d1/L)-1,ps); ctx.zero('lemma: the line normal is orthogonal to the tangent',d1*(d2/L)+d2*(-d1/L),ps)
        # straight element: nodes equally spaced => the speed is constant, half the length
        a,b,c,d=V('a b c d'); th=lambda u,v,k: u+(v-u)*T.R(Fr(k,3))
        ctx.zero('lemma: a straight element is traversed at constant speed (half its length)',sq(s_dpos(al,a,th(a,b,1),th(a,b,2),b))+sq(s_dpos(al,c,th(c,d,1),th(c,d,2),d))-(sq(b-a)+sq(d-c))*T.R(Fr(1,4)),[])
        t=[[T.var('t%d%d'%(i,j)) for j in range(3)] for i in range(3)]; cr=cross(vsub(t[1],t[0]),vsub(t[2],t[0])); e1,e2=vsub(t[1],t[0]),vsub(t[2],t[0])
        ctx.zero('lemma: the triangle normal is orthogonal to the first edge',dot(cr,e1),[]); ctx.zero('lemma: the triangle normal is orthogonal to the second edge',dot(cr,e2),[])
        cv=V('c0 c1 c2'); Lc=norm(cv); ctx.zero('lemma: the triangle normal is a unit vector',T.add(*[sq(v/Lc) for v in cv])-1,[T.lt(T.ZERO,dot(cv,cv))])
        sw=cross(vsub(t[2],t[0]),vsub(t[1],t[0]))
        for i in range(3): ctx.zero('lemma: exchanging two vertices flips the normal, component %d'%i,sw[i]+cr[i],[])
        b1,b2=V('b1 b2')
        # a point of the affine map is the barycentric combination (1-b1-b2, b1, b2)
        for i in range(3): ctx.zero('lemma: quadrature points are barycentric combinations of the vertices, coordinate %d'%i,t[0][i]+b1*(t[1][i]-t[0][i])+b2*(t[2][i]-t[0][i])-((1-b1-b2)*t[0][i]+b1*t[1][i]+b2*t[2][i]),[])
    ctx.attempt('lemmas',go)
