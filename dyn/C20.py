import numpy as np, math
from . import lib as L
PI=math.pi
def unit_speed(D,p,what,rtol=1e-6,skip=None):
    """arc-length parametrisation: difference quotients have unit norm away from breakpoints"""
    Ln=p.path_length; bs=np.array(sorted([0.]+list(p.breakpoints)+[Ln]))
    for u in np.linspace(0,Ln,17)[1:-1]+1e-3*Ln*.37:
        h=1e-6*Ln
        if np.abs(bs-u).min()<3*h: continue
        d=(np.asarray(p(u+h))-np.asarray(p(u-h)))/(2*h); D.expect(abs(np.linalg.norm(d)-1)<=rtol,what+': parametrised by arc length',at=u,speed=np.linalg.norm(d))
def ends(D,p,a,b,length,what,tol=1e-9):
    D.close(p.starting_point(),a,what+': start',rtol=tol,atol=tol); D.close(p.endpoint(),b,what+': end',rtol=tol,atol=tol); D.close(p.path_length,length,what+': path length',rtol=tol,atol=tol); D.close(p.middle_point(),p(p.path_length/2),what+': middle',rtol=1e-12,atol=1e-12)
def lines(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(150,1500)):
        a,b=(rng.normal(size=3)*3,rng.normal(size=3)*3) if rng.random()<.7 else (rng.integers(-3,4,size=3),rng.integers(4,8,size=3)); D.case(a=a,b=b); p=G.Path.line(a,b); n=np.linalg.norm(np.asarray(b)-a); ends(D,p,a,b,n,'line')
        for f in rng.random(4): D.close(p(f*n),np.asarray(a)+f*(np.asarray(b)-a),'line is straight',rtol=1e-9,atol=1e-9)
        D.expect(list(p.breakpoints)==[] ,'a line has no corners')
def circles(D):
    import traceon.geometry as G
    rng=D.rng
    for k in range(D.n(150,1500)):
        x,y,r=rng.normal(),rng.normal(),rng.uniform(.1,5); full=rng.random()<.3; a=2*PI if full else rng.uniform(.05,2*PI); c=k%3; D.case(plane=('xz','yz','xy')[c],center=(x,y),radius=r,angle=a); f=(G.Path.circle_xz,G.Path.circle_yz,G.Path.circle_xy)[c]; p=f(x,y,r) if full else f(x,y,r,a); i,j=((0,2),(1,2),(0,1))[c]
        def at(th): q=np.zeros(3); q[i]=x+r*math.cos(th); q[j]=y+r*math.sin(th); return q
        ends(D,p,at(0),at(a),r*a,'circle'); D.expect(p.is_closed()==full or abs(a-2*PI)<1e-6,'closedness')
        for g in rng.random(5): D.close(p(g*r*a),at(g*a),'point on the circle, anticlockwise from the first axis',rtol=1e-9,atol=1e-9)
def arcs(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(150,1500)):
        c=rng.normal(size=3) if rng.random()<.7 else rng.integers(-2,3,size=3).astype(float); R=L.rand_rot(rng); r=rng.uniform(.3,3); th=rng.uniform(.05,PI-.05)*1.; s=c+r*R[:,0]; e=c+r*(math.cos(th)*R[:,0]+math.sin(th)*R[:,1]); rv=bool(rng.random()<.5); D.case(center=c,start=s,end=e,reverse=rv); p=G.Path.arc(c,s,e,reverse=rv); tot=th if not rv else 2*PI-th; ends(D,p,s,e,r*tot,'arc')
        for g in rng.random(5): t=g*tot*(1 if not rv else -1); D.close(p(g*r*tot),c+r*(math.cos(t)*R[:,0]+math.sin(t)*R[:,1]),'point on the arc',rtol=1e-8,atol=1e-8)
        a0=rng.normal(size=3); q=G.Path.line(a0,s).arc_to(c,e,reverse=rv); l0=np.linalg.norm(s-a0); ends(D,q,a0,e,l0+r*tot,'extended with an arc'); D.close(sorted(q.breakpoints),[l0],'corner at the join',rtol=1e-9,atol=1e-9); D.close(q(l0+.3*r*tot),p(.3*r*tot),'arc part',rtol=1e-9,atol=1e-9); D.close(q(.4*l0),a0+.4*(s-a0),'line part',rtol=1e-9,atol=1e-9)
def polygons(D):
    import traceon.geometry as G
    rng=D.rng
    for _ in range(D.n(100,1000)):
        n=int(rng.integers(2,7)); V=rng.normal(size=(n+1,3)); seg=np.linalg.norm(np.diff(V,axis=0),axis=1); cum=np.cumsum(seg); p=G.Path.line(V[0],V[1])
        for v in V[2:]: p=p.line_to(list(v) if rng.random()<.5 else v)
        D.case(vertices=V); ends(D,p,V[0],V[-1],cum[-1],'polygon'); D.close(p.breakpoints,cum[:-1],'breakpoints at the corners',rtol=1e-9,atol=1e-9)
        def at(u):
            i=min(int(np.searchsorted(cum,u)),n-1); s=u-(cum[i-1] if i else 0); return V[i]+s/seg[i]*(V[i+1]-V[i])
        def curve(q,off,what,lo=0.):
            for u in np.linspace(0,q.path_length,23): D.close(q(u),at(min(max(u+off,0),cum[-1])),what,rtol=1e-8,atol=1e-8)
        curve(p,0,'same curve in order'); c=p.close(); lc=np.linalg.norm(V[0]-V[-1]); ends(D,c,V[0],V[0],cum[-1]+lc,'closed polygon'); D.expect(c.is_closed(),'closed'); D.close(c.breakpoints,cum,'breakpoints of the closed polygon',rtol=1e-9,atol=1e-9); D.close(c(cum[-1]+.3*lc),V[-1]+.3*(V[0]-V[-1]),'closing edge is straight',rtol=1e-8,atol=1e-8)
        # cut
        l=float(rng.uniform(.02,.98)*cum[-1]) if rng.random()<.8 else float(p.breakpoints[0]) if len(p.breakpoints) else cum[-1]/2; D.case(vertices=V,cut=l); a,b=p.cut(l); ends(D,a,V[0],at(l),l,'first part'); ends(D,b,at(l),V[-1],cum[-1]-l,'second part'); curve(a,0,'first part of the same curve'); curve(b,l,'second part of the same curve')
        D.close([x for x in a.breakpoints if 1e-9<x<l-1e-9],[x for x in cum[:-1] if x<l-1e-9],'corners of the first part',rtol=1e-9,atol=1e-9); D.close([x for x in b.breakpoints if 1e-9<x],[x-l for x in cum[:-1] if x>l+1e-9],'corners of the second part',rtol=1e-9,atol=1e-9)
        j=a>>b; ends(D,j,V[0],V[-1],cum[-1],'cut and joined again'); curve(j,0,'cut and joined again is the same curve')
        # cutting twice
        l2=float(rng.uniform(.1,.9)*b.path_length); b1,b2=b.cut(l2); curve(b1,l,'second cut, first part'); curve(b2,l+l2,'second cut, second part')
        # concatenation of composed paths
        W=np.vstack([V[-1],rng.normal(size=(2,3))]); w=G.Path.line(W[0],W[1]).line_to(W[2]); lw=np.linalg.norm(np.diff(W,axis=0),axis=1); q=p>>w; D.case(first=V,second=W); ends(D,q,V[0],W[2],cum[-1]+lw.sum(),'concatenation'); D.close(q.breakpoints,list(cum[:-1])+[cum[-1],cum[-1]+lw[0]],'breakpoints of both parts and the join',rtol=1e-9,atol=1e-9)
        for u in np.linspace(0,q.path_length,29): D.close(q(u),at(u) if u<=cum[-1] else w(min(u-cum[-1],w.path_length)),'concatenation visits first then second',rtol=1e-8,atol=1e-8)
        D.raises(lambda:p>>G.Path.line(V[-1]+1.,V[0]),'joining paths that do not meet')
        # phase
        ph=float(rng.uniform(0,c.path_length)) if rng.random()<.8 else float(rng.choice([0.,c.breakpoints[0]])); ph+=c.path_length*int(rng.choice([0,0,0,-1,1,2,-3])); D.case(closed=V,phase=ph); f=c.add_phase(ph); T=c.path_length; D.close(f.path_length,T,'phase keeps the length'); fb=sorted(x%T for x in f.breakpoints); 
        for u in np.linspace(0,T,31): D.close(f(u),c((u+ph)%T),'shifted start, same curve',rtol=1e-8,atol=1e-8)
        want=sorted((x-ph)%T for x in [0.]+list(c.breakpoints))
        D.expect(all(-1e-9*T<=y<=T*(1+1e-9) for y in f.breakpoints),'corners lie on the path',got=f.breakpoints,length=T)
        for x in want: D.expect(min([abs(x-y) for y in f.breakpoints]+[abs(x-T-y) for y in f.breakpoints]+[abs(x+T-y) for y in f.breakpoints])<1e-8*T,'corners of the shifted path (old start included)',got=f.breakpoints,want=want)
        D.expect(all(min(abs(y-x) for x in want+[z+T for z in want]+[z-T for z in want])<1e-8*T for y in f.breakpoints) and list(f.breakpoints)==sorted(f.breakpoints),'only corners, in order',got=f.breakpoints,want=want)
        nm=p; nm.name='k'; D.expect(all(x.name=='k' for x in(*nm.cut(cum[-1]/3),nm.close(),nm.line_to([9.,9,9]),nm>>w)),'composed paths keep the name')
def rects(D):
    import traceon.geometry as G
    rng=D.rng
    for k in range(D.n(90,900)):
        a0,b0=rng.normal(size=2); a1,b1=a0+rng.uniform(.1,3),b0+rng.uniform(.1,3); c=k%3; f=(G.Path.rectangle_xz,G.Path.rectangle_yz,G.Path.rectangle_xy)[c]; p=f(a0,a1,b0,b1); D.case(plane=c,args=(a0,a1,b0,b1)); i,j=((0,2),(1,2),(0,1))[c]; per=2*(a1-a0+b1-b0); s=np.zeros(3); s[i]=a0;s[j]=b0; ends(D,p,s,s,per,'rectangle'); D.expect(len(p.breakpoints)==3,'three inner corners'); unit_speed(D,p,'rectangle')
        cs={(round(float(q[i]),9),round(float(q[j]),9)) for q in [p(0)]+[p(b) for b in p.breakpoints]}; D.expect(cs=={(round(float(x),9),round(float(y),9)) for x in(a0,a1) for y in(b0,b1)},'corners are the stated ones',got=cs)
        for u in np.linspace(0,per,31):
            q=p(u); o=3-i-j; D.expect(abs(q[o])<1e-12 and a0-1e-9<=q[i]<=a1+1e-9 and b0-1e-9<=q[j]<=b1+1e-9 and min(abs(q[i]-a0),abs(q[i]-a1),abs(q[j]-b0),abs(q[j]-b1))<1e-9,'on the outline',got=q)
        h,r,e,z=rng.uniform(.1,1),rng.uniform(.1,1),rng.uniform(1.2,3),rng.normal(); D.case(aperture=(h,r,e,z)); p=G.Path.aperture(h,r,e,z=z); ends(D,p,[e,0,z-h/2],[e,0,z+h/2],2*(e-r)+h,'aperture'); D.close(p.breakpoints,[e-r,e-r+h],'aperture corners',rtol=1e-9,atol=1e-9); D.close(p(e-r),[r,0,z-h/2],'aperture hole',rtol=1e-9,atol=1e-9); D.close(p(e-r+h),[r,0,z+h/2],'aperture hole',rtol=1e-9,atol=1e-9); unit_speed(D,p,'aperture')
def irregular(D):
    import traceon.geometry as G
    from scipy.integrate import quad
    from scipy.special import ellipe
    rng=D.rng
    for k in range(D.n(20,200)):
        A=rng.normal(size=(3,3)); f=lambda u:A[0]*u+A[1]*u*u+A[2]*math.sin(u)+np.array([3.*u,0,0]); df=lambda u:A[0]+2*A[1]*u+A[2]*math.cos(u)+np.array([3.,0,0]); b=sorted(map(float,rng.uniform(.1,.9,size=int(rng.integers(0,3))))); p=G.Path.from_irregular_function(f,breakpoints=b); D.case(coefficients=A,breakpoints=b); sp=np.array([np.linalg.norm(df(u)) for u in np.linspace(0,1,200)])
        if sp.min()<.4: continue
        ln=lambda u:quad(lambda t:np.linalg.norm(df(t)),0,u,epsabs=1e-10,epsrel=1e-10)[0]; D.close(p.path_length,ln(1),'length of the curve',rtol=1e-5); D.close(p.starting_point(),f(0.),'start',rtol=1e-7,atol=1e-7); D.close(p.endpoint(),f(1.),'end',rtol=1e-6,atol=1e-6); unit_speed(D,p,'irregular function',rtol=2e-3); D.close(p.breakpoints,[ln(x) for x in b],'breakpoints lie at the path length of the given parameters',rtol=1e-4,atol=1e-5); D.close(np.array([p(x) for x in p.breakpoints]).reshape(-1,3),np.array([f(x) for x in b]).reshape(-1,3),'breakpoints map to the given points',rtol=1e-4,atol=1e-4)
        a,m=rng.uniform(1,2),rng.uniform(.6,1); D.case(ellipse=(a,m)); e=G.Path.ellipse(a,m); D.close(e.path_length,4*a*ellipe(1-(m/a)**2),'circumference of the ellipse',rtol=1e-4); ends(D,e,[a,0,0],[a,0,0],e.path_length,'ellipse',tol=1e-4)
        for u in np.linspace(0,e.path_length,13): q=e(u); D.close((q[0]/a)**2+(q[1]/m)**2,1.,'on the ellipse',rtol=1e-6); D.expect(q[2]==0,'in the xy plane')
        D.close(e(e.path_length/4),[0,m,0],'quarter of the ellipse',rtol=1e-3,atol=1e-3); unit_speed(D,e,'ellipse',rtol=5e-3)
        V=np.cumsum(rng.uniform(.3,1,size=(int(rng.integers(3,7)),3)),axis=0); D.case(spline=V); s=G.Path.spline_through_points(V); us=np.linspace(0,s.path_length,3000); C=np.array([s(u) for u in us]); D.expect(all(np.linalg.norm(C-v,axis=1).min()<2e-3*s.path_length for v in V),'spline passes through the points'); D.close(s.starting_point(),V[0],'spline start',rtol=1e-5,atol=1e-5); D.close(s.endpoint(),V[-1],'spline end',rtol=1e-4,atol=1e-4)
        q=G.Path.line([0,0,0.],[2.,0,0]).line_to([2.,0,1.]); D.close(q.average(lambda x:x[0]),(2.+2.)/3,'average along the path',rtol=1e-6)
CASES=[('lines',lines),('circles',circles),('arcs',arcs),('polygons',polygons),('rectangles',rects),('irregular',irregular)]
