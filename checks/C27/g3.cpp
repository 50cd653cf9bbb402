// C27 part 2: 3D lines, segments, planes, triangles, surfaces, boxes, bounding spheres and solid bodies.
#include "mon.h"
#include "MMLBase.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
#include <map>
using namespace MML;
typedef long double L;
static const L PIl=3.14159265358979323846264338327950288L;
struct V{ L x,y,z; };
static V operator-(V a,V b){ return {a.x-b.x,a.y-b.y,a.z-b.z}; } static V operator+(V a,V b){ return {a.x+b.x,a.y+b.y,a.z+b.z}; } static V operator*(L k,V a){ return {k*a.x,k*a.y,k*a.z}; }
static L dot(V a,V b){ return a.x*b.x+a.y*b.y+a.z*b.z; } static V cr(V a,V b){ return {a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x}; } static L nm(V a){ return sqrtl(dot(a,a)); }
static V v(const Pnt3Cart&p){ return {p.X(),p.Y(),p.Z()}; } static V vv(const Vec3Cart&p){ return {p.X(),p.Y(),p.Z()}; } static Pnt3Cart P(V a){ return Pnt3Cart((double)a.x,(double)a.y,(double)a.z); } static Vec3Cart W(V a){ return Vec3Cart((double)a.x,(double)a.y,(double)a.z); }
static Pnt3Cart rp(mon::Case&c,double s){ if(c.r.i(0,3)==0) return Pnt3Cart(c.r.i(-4,4),c.r.i(-4,4),c.r.i(-4,4)); return Pnt3Cart(c.r.uni(-s,s),c.r.uni(-s,s),c.r.uni(-s,s)); }
static void in(mon::Case&c,const char*n,std::initializer_list<Pnt3Cart> l){ std::vector<double> w; for(auto&p:l){ w.push_back(p.X()); w.push_back(p.Y()); w.push_back(p.Z()); } c.in(n,w); }

FAMILY(lines3,500){
  double s=c.r.pmag(-1,3); Pnt3Cart a=rp(c,s),b=rp(c,s),p=rp(c,s),q=rp(c,s),z=rp(c,s); double M=s+8; if(nm(v(a)-v(b))<1e-2*M||nm(v(p)-v(q))<1e-2*M){ c.trivial(); return; } in(c,"pts",{a,b,p,q,z});
  Line3D l(a,b),m(p,q); V u=(1/nm(v(b)-v(a)))*(v(b)-v(a)), w=(1/nm(v(q)-v(p)))*(v(q)-v(p));
  L t=dot(v(z)-v(a),u); V f=v(a)+t*u; c.close(l.Dist(z),(double)nm(v(z)-f),1e-8*M*1e-3+1e-12*M,"line/dist"); c.check(l.NearestPointOnLine(z).Dist(P(f))<1e-12*M,"line/nearest"); c.check(l(3.5).Dist(P(v(a)+3.5L*u))<1e-12*M,"line/at"); c.check(l.IsPointOnLine(P(f),1e-10*M)&&l.IsPointOnLine(a),"line/on"); if(nm(v(z)-f)>1e-6*M){ c.check(!l.IsPointOnLine(z,1e-8*M),"line/off"); Line3D pe=l.PerpendicularLineThroughPoint(z); c.check(std::abs(ScalarProduct(pe.Direction(),l.Direction()))<1e-9&&pe.IsPointOnLine(z)&&pe.Dist(P(f))<1e-9*M,"line/perp-through"); c.check(l.IsPerpendicular(pe,1e-8),"line/perp"); }
  V n=cr(u,w); L sn=nm(n); L D; V c1,c2; bool par=sn<1e-9L;
  if(!par&&sn>1e-3){ V d=v(p)-v(a); L den=sn*sn; L t1=dot(cr(d,w),n)/den,t2=dot(cr(d,u),n)/den; c1=v(a)+t1*u; c2=v(p)+t2*w; D=fabsl(dot(d,n))/sn; double tol=1e-12*M/(double)(sn*sn); c.close(l.Dist(m),(double)D,tol,"lines/dist"); double od; Pnt3Cart o1,o2; if(c.check(l.Dist(m,od,o1,o2),"lines/dist-ok")){ c.close(od,(double)D,tol,"lines/dist2"); c.check(o1.Dist(P(c1))<2*tol/(double)sn&&o2.Dist(P(c2))<2*tol/(double)sn,"lines/closest"); } auto R=l.Intersection(m); c.close(R.distance,(double)D,4*tol/(double)sn,"lines/idist"); c.check(R.point1.Dist(P(c1))<2*tol/(double)sn&&R.point2.Dist(P(c2))<2*tol/(double)sn,"lines/ipts"); c.check(l(R.t1).Dist(R.point1)<4*tol/(double)sn&&m(R.t2).Dist(R.point2)<4*tol/(double)sn,"lines/params"); if(D>1e-6*M){ Pnt3Cart x; c.check(R.IsSkew()&&!l.Intersects(m,x),"lines/skew"); c.ev("skew"); }
    c.check(!l.IsParallel(m),"lines/not-parallel");
    // meeting lines: both through a common point
    Pnt3Cart o=l(c.r.uni(-2,2)); Line3D k(o,m.Direction()); auto S=l.Intersection(k); Pnt3Cart x; if(M<50&&sn>.05){ if(c.check(S.HasIntersection()&&l.Intersects(k,x),"lines/meet")){ c.check(x.Dist(o)<1e-10*M&&S.point1.Dist(o)<1e-10*M&&S.point2.Dist(o)<1e-10*M,"lines/meet-pt"); } c.close(l.Dist(k),0,1e-11*M,"lines/meet-dist"); c.ev("meet"); } }
  // parallel lines, whichever way round and however the direction was given
  { double k=c.r.coin()?-2.7:1.3; Line3D r(z,Vec3Cart(k*(b.X()-a.X()),k*(b.Y()-a.Y()),k*(b.Z()-a.Z()))); L pd=nm(cr(v(z)-v(a),u)); double tol=1e-9*M*1e-2; c.check(l.IsParallel(r),"par/is"); if(pd>1e-4*M){ c.close(l.Dist(r),(double)pd,tol,"par/dist"); double od; Pnt3Cart o1,o2; c.check(!l.Dist(r,od,o1,o2),"par/dist-false"); c.close(od,(double)pd,tol,"par/dist2"); auto R=l.Intersection(r); Pnt3Cart x; c.check(R.IsParallel()&&!l.Intersects(r,x),"par/type"); c.close(R.distance,(double)pd,tol,"par/idist"); c.check(std::abs(R.point1.Dist(R.point2)-(double)pd)<tol&&l.Dist(R.point1)<tol&&r.Dist(R.point2)<tol,"par/points"); c.ev("parallel"); } Line3D same(a,Vec3Cart(k*(b.X()-a.X()),k*(b.Y()-a.Y()),k*(b.Z()-a.Z()))); c.check(l.Intersection(same).IsCoincident()&&l==same,"par/coincident"); }
  c.throws<GeometryError>([&]{ Line3D(a,a); },"line/same"); c.throws<GeometryError>([&]{ Line3D(a,Vec3Cart(0,0,0)); },"line/null"); if(M<50) c.throws<GeometryError>([&]{ l.PerpendicularLineThroughPoint(a); },"line/perp-on");
  SegmentLine3D sg(a,b); L len=nm(v(b)-v(a)); L ts=std::min(len,std::max((L)0,t)); c.close(sg.Dist(z),(double)nm(v(z)-(v(a)+ts*u)),1e-12*M,"seg/dist"); c.close(sg.Length(),(double)len,1e-12*M,"seg/len"); double tt=c.r.u01(); c.check(sg(tt).Dist(P(v(a)+(L)tt*(v(b)-v(a))))<1e-12*M,"seg/at"); c.throws<GeometryError>([&]{ sg(1.001); },"seg/range"); c.close(SegmentLine3D(a,a).Dist(z),(double)nm(v(z)-v(a)),1e-12*M,"seg/degenerate");
}

FAMILY(planes,500){
  double s=c.r.pmag(-1,2.5); Pnt3Cart a=rp(c,s),b=rp(c,s),d=rp(c,s),z=rp(c,s),p=rp(c,s); double M=s+8; V N=cr(v(b)-v(a),v(d)-v(a)); if(nm(N)<1e-2*M*M){ c.trivial(); return; } in(c,"pts",{a,b,d,z,p}); V n=(1/nm(N))*N;
  Plane3D pl(a,b,d); double tol=1e-11*M; for(auto&x:{a,b,d}) c.check(pl.IsPointOnPlane(x,tol),"plane/contains"); L sd=dot(v(z)-v(a),n); c.close(pl.DistToPoint(z),(double)fabsl(sd),tol,"plane/dist"); Pnt3Cart pr=pl.ProjectionToPlane(z); c.check(pr.Dist(P(v(z)-sd*n))<tol,"plane/projection"); if(fabsl(sd)>1e-6*M) c.check(!pl.IsPointOnPlane(z,1e-7*M),"plane/off"); c.check(pl.IsPointOnPlane(pl.GetPointOnPlane(),1e-9*(M+std::abs(pl.D())/1e-3)),"plane/sample");
  L nx=std::max(fabsl(n.x),std::max(fabsl(n.y),fabsl(n.z))); (void)nx;
  if(fabsl(n.x)>1e-3&&fabsl(n.y)>1e-3&&fabsl(n.z)>1e-3){ double x,y,w; pl.GetCoordAxisSegments(x,y,w); L h=dot(n,v(a)); c.close(x,(double)(h/n.x),1e-8*M,"plane/segx"); c.close(y,(double)(h/n.y),1e-8*M,"plane/segy"); c.close(w,(double)(h/n.z),1e-8*M,"plane/segz"); if(fabsl(h)>.1){ Plane3D sp(x,y,w); c.close(sp.DistToPoint(z),(double)fabsl(sd),1e-7*M,"plane/from-segments"); } Plane3D ap(std::acos((double)n.x),std::acos((double)n.y),std::acos((double)n.z),(double)h); c.close(ap.DistToPoint(z),(double)fabsl(sd),1e-10*M,"plane/from-angles"); }
  // line / plane
  if(nm(v(z)-v(p))>1e-2*M){ Line3D l(z,p); V u=(1/nm(v(p)-v(z)))*(v(p)-v(z)); L k=dot(u,n); Pnt3Cart x; if(fabsl(k)>1e-3){ V e=v(z)-(sd/k)*u; if(c.check(pl.IntersectionWithLine(l,x),"plane/line")){ c.check(x.Dist(P(e))<1e-11*M/(double)(k*k),"plane/line-pt"); c.ev("line-plane"); } c.check(!pl.IsLineOnPlane(l),"plane/line-not-on"); } c.close(std::abs(pl.AngleToLine(l)),(double)asinl(std::min((L)1,fabsl(k))),1e-7,"plane/line-angle");
    V pd=u-k*n; if(nm(pd)>1e-2){ Line3D lp(z,W(pd)); if(fabsl(sd)>1e-4*M) c.check(!pl.IntersectionWithLine(lp,x)&&!pl.IsLineOnPlane(lp),"plane/line-par"); if(M<50) c.check(pl.IsLineOnPlane(Line3D(pr,W(pd))),"plane/line-on"); } }
  // plane / plane
  Pnt3Cart e=rp(c,s),g=rp(c,s); V N2=cr(v(e)-v(z),v(g)-v(z)); if(nm(N2)>1e-2*M*M){ V n2=(1/nm(N2))*N2; Plane3D q(z,e,g); L sn=nm(cr(n,n2)); L ang=atan2l(sn,fabsl(dot(n,n2))); double ga=q.AngleToPlane(pl); ga=std::min(ga,Constants::PI-ga); c.close(ga,(double)ang,1e-7,"planes/angle"); Line3D li; if(sn>.05){ if(c.check(pl.IntersectionWithPlane(q,li),"planes/meet")){ for(double t:{0.0,1.0,-7.5*M}) c.check(pl.DistToPoint(li(t))<1e-10*M/(double)(sn*sn)&&q.DistToPoint(li(t))<1e-10*M/(double)(sn*sn),"planes/line-on-both"); c.ev("plane-plane"); } c.close(pl.DistToPlane(q),0,0,"planes/dist0"); c.check(!pl.IsParallelToPlane(q),"planes/notpar"); } }
  { Plane3D q(z,W(c.r.coin()?-2.5L*n:1.5L*n)); Line3D li; c.check(pl.IsParallelToPlane(q)&&!pl.IntersectionWithPlane(q,li),"planes/par"); if(nx>.1) c.close(pl.DistToPlane(q),(double)fabsl(sd),1e-9*M*100,"planes/par-dist"); V pp=cr(n,{.3L,-.7L,.2L}); if(nm(pp)>.1) c.check(pl.IsPerpendicularToPlane(Plane3D(z,W(pp))),"planes/perp"); }
  c.throws<GeometryError>([&]{ Plane3D(a,Vec3Cart(0,0,0)); },"plane/null"); c.throws<GeometryError>([&]{ Plane3D(0.0,1.0,1.0); },"plane/zeroseg");
}

FAMILY(tri3,400){
  double s=c.r.pmag(-1,2.5); Pnt3Cart a=rp(c,s),b=rp(c,s),d=rp(c,s); double M=s+8; in(c,"tri",{a,b,d}); Triangle3D t(a,b,d); V N=cr(v(b)-v(a),v(d)-v(a)); c.close(t.Area(),(double)(nm(N)/2),1e-12*M*M,"tri/area"); c.close(t.A(),(double)nm(v(a)-v(b)),1e-12*M,"tri/a"); c.close(t.B(),(double)nm(v(d)-v(b)),1e-12*M,"tri/b"); c.close(t.C(),(double)nm(v(a)-v(d)),1e-12*M,"tri/c"); c.check(t.Centroid().Dist(P((1/3.0L)*(v(a)+v(b)+v(d))))<1e-12*M,"tri/centroid");
  if(nm(N)<2e-2*M*M) return; V n=(1/nm(N))*N; c.ev("tri3");
  for(int k=0;k<12;k++){ double u=c.r.uni(-.4,1.4),w=c.r.uni(-.4,1.4),x=1-u-w,m=std::min(u,std::min(w,x)); if(std::abs(m)<1e-5) continue; V p=(L)u*v(a)+(L)w*v(b)+(L)x*v(d); c.check(t.IsPointInside(P(p))==(m>0),"tri/inside"); double off=c.r.pick({.01,.3,-2.0})*M; c.check(!t.IsPointInside(P(p+(L)off*n)),"tri/off-plane"); c.ev(m>0?"in3":"out3"); }
  for(auto&x:{a,b,d}) c.check(t.getDefinedPlane().IsPointOnPlane(x,1e-11*M),"tri/plane");
  // parametrised triangle covers the same triangle with the same area and orientation
  TriangleSurface3D ts(a,b,d); V tn=vv(ts._normal); c.check(dot(tn,n)>1-1e-9,"ts/normal"); double U0=ts.getMinU(),U1=ts.getMaxU(); for(int k=0;k<8;k++){ double u=U0+(U1-U0)*c.r.uni(.001,.999),w0=ts.getMinW(u),w1=ts.getMaxW(u),w=w0+(w1-w0)*c.r.uni(.001,.999); auto r=ts(u,w); c.check(t.IsPointInside(Pnt3Cart(r[0],r[1],r[2]),1e-8),"ts/inside"); auto e=ts(u,w1); double dm=1e300; Pnt3Cart ep(e[0],e[1],e[2]); for(auto&S:{SegmentLine3D(a,b),SegmentLine3D(b,d),SegmentLine3D(d,a)}) dm=std::min(dm,S.Dist(ep)); c.check(dm<1e-9*M*10,"ts/edge"); } double A=.5*(ts.getMaxU()-ts.getMinU())*ts._maxY; c.close(A,t.Area(),1e-9*M*M,"ts/area"); double cor=0; for(auto&x:{a,b,d}){ double best=1e300; for(double u:{U0,ts._pnt3XCoord,U1}){ auto r=ts(u,u==ts._pnt3XCoord?ts._maxY:0); best=std::min(best,Pnt3Cart(r[0],r[1],r[2]).Dist(x)); } cor=std::max(cor,best); } c.check(cor<1e-9*M*10,"ts/corners");
  // parallelogram / rectangle surface
  V e1=v(b)-v(a), e2=v(d)-v(a); e2=e2-(dot(e2,e1)/dot(e1,e1))*e1; Pnt3Cart p3=P(v(a)+e1+e2),p4=P(v(a)+e2); if(M<50){ RectSurface3D r(a,b,p3,p4); c.close(r.getArea(),(double)(nm(e1)*nm(e2)),1e-10*M*M,"rect/area"); V rn=vv(r.getNormal()); c.check(fabsl(dot(rn,n)-1)<1e-9,"rect/normal"); c.check(r.getCenter().Dist(P(v(a)+.5L*(e1+e2)))<1e-11*M,"rect/center"); auto k1=r(r.getMinU(),r.getMinW()),k3=r(r.getMaxU(),r.getMaxW()),k2=r(r.getMaxU(),r.getMinW()); c.check(Pnt3Cart(k1[0],k1[1],k1[2]).Dist(a)<1e-10*M&&Pnt3Cart(k3[0],k3[1],k3[2]).Dist(p3)<1e-10*M&&Pnt3Cart(k2[0],k2[1],k2[2]).Dist(b)<1e-10*M,"rect/corners"); Pnt3Cart bad=P(v(p3)+(L)(.01*M)*n); c.throws<GeometryError>([&]{ RectSurface3D(a,b,p3,bad); },"rect/noncoplanar"); }
  int k=c.r.i(1,40); Triangle3D rt(Pnt3Cart(1,2,3),Pnt3Cart(1+3*k,2,3),Pnt3Cart(1,2,3+4*k)); c.check(rt.IsRight(1e-6)&&!rt.IsIsosceles()&&!rt.IsEquilateral(),"tri/right"); Triangle3D eq(Pnt3Cart(k,0,0),Pnt3Cart(0,k,0),Pnt3Cart(0,0,k)); c.check(eq.IsEquilateral()&&eq.IsIsosceles()&&!eq.IsRight(),"tri/eq");
}

FAMILY(box3,300){
  double s=c.r.pmag(-1,3); Pnt3Cart p=rp(c,s),q=rp(c,s),o=rp(c,s),u=rp(c,s),w=rp(c,s); double M=s+8; in(c,"pts",{p,q,o,u,w}); Box3D B(p,q),D(u,w); auto lo=[](const Box3D&b,int k){ return k==0?b.MinX():k==1?b.MinY():b.MinZ(); }; auto hi=[](const Box3D&b,int k){ return k==0?b.MaxX():k==1?b.MaxY():b.MaxZ(); }; auto g=[](const Pnt3Cart&b,int k){ return k==0?b.X():k==1?b.Y():b.Z(); };
  L d2=0; bool inb=true,x=true,ok=true; for(int k=0;k<3;k++){ double l=std::min(g(p,k),g(q,k)),h=std::max(g(p,k),g(q,k)); ok&=lo(B,k)==l&&hi(B,k)==h; double e=std::max(0.0,std::max(l-g(o,k),g(o,k)-h)); d2+=(L)e*e; inb&=e==0; x&=std::max(lo(B,k),lo(D,k))<=std::min(hi(B,k),hi(D,k)); } c.check(ok,"box/normal"); c.close(B.DistanceToPoint(o),(double)sqrtl(d2),1e-12*M,"box/dist"); c.close(B.ClosestPoint(o).Dist(o),(double)sqrtl(d2),1e-12*M,"box/closest"); c.check(B.Contains(B.ClosestPoint(o),0),"box/closest-in"); if(inb||d2>1e-12L) c.check(B.Contains(o)==inb,"box/contains"); c.check(B.Intersects(D)==x&&D.Intersects(B)==x,"box/intersects"); if(x){ Box3D I=B.Intersection(D); c.check(B.Contains(I,0)&&D.Contains(I,0),"box/I"); bool t=true; for(int k=0;k<3;k++) t&=lo(I,k)==std::max(lo(B,k),lo(D,k))&&hi(I,k)==std::min(hi(B,k),hi(D,k)); c.check(t,"box/I-tight"); c.ev("box3-meet"); } Box3D U=B.Union(D); bool t=true; for(int k=0;k<3;k++) t&=lo(U,k)==std::min(lo(B,k),lo(D,k))&&hi(U,k)==std::max(hi(B,k),hi(D,k)); c.check(t&&U.Contains(B,0)&&U.Contains(D,0),"box/union"); Box3D X=B; X.ExpandToInclude(o); t=true; for(int k=0;k<3;k++) t&=lo(X,k)==std::min(lo(B,k),g(o,k))&&hi(X,k)==std::max(hi(B,k),g(o,k)); c.check(t,"box/expand"); Box3D F=Box3D::FromPoints({p,q,o,u,w}); Box3D F2=U; F2.ExpandToInclude(o); c.check(F.Contains(F2,0)&&F2.Contains(F,0),"box/from-points");
  double W_=B.Width(),H=B.Height(),Z=B.Depth(); c.close(B.Volume(),W_*H*Z,1e-12*M*M*M,"box/vol"); c.close(B.SurfaceArea(),2*(W_*H+H*Z+Z*W_),1e-12*M*M,"box/area"); c.close(B.Diagonal(),(double)nm(v(p)-v(q)),1e-12*M,"box/diag"); auto co=B.Corners(); std::set<std::tuple<double,double,double>> st; bool on=co.size()==8; for(auto&k:co){ on&=B.Contains(k,0)&&(k.X()==B.MinX()||k.X()==B.MaxX())&&(k.Y()==B.MinY()||k.Y()==B.MaxY())&&(k.Z()==B.MinZ()||k.Z()==B.MaxZ()); st.insert({k.X(),k.Y(),k.Z()}); } if(W_>0&&H>0&&Z>0) on&=st.size()==8; c.check(on,"box/corners"); c.check(B.Center().Dist(P(.5L*(v(p)+v(q))))<1e-12*M,"box/center"); c.close(B.Scaled(2).Volume(),8*B.Volume(),1e-11*M*M*M*8,"box/scaled"); c.close(B.Expanded(1).Depth(),Z+2,1e-12*M,"box/expanded"); Box3D T=B.Translated(Vec3Cart(1,-2,3)); c.close(T.MinY(),B.MinY()-2,1e-12*M,"box/tr"); c.close(T.MaxZ(),B.MaxZ()+3,1e-12*M,"box/trz"); Box3D S=Box3D::FromCenterAndSize(o,1,2,3); c.check(std::abs(S.Width()-1)<1e-12*M&&std::abs(S.Height()-2)<1e-12*M&&std::abs(S.Depth()-3)<1e-12*M&&S.Center().Dist(o)<1e-12*M,"box/fcs"); c.throws<GeometryError>([&]{ Box3D::FromPoints({}); },"box/empty");
  double r=s*c.r.u01(),r2=s*c.r.u01(); BoundingSphere3D b(p,r),b2(q,r2); double dm=p.Dist(q); if(std::abs(dm-r-r2)>1e-9*M) c.check(b.Intersects(b2)==(dm<r+r2),"bs/intersects"); double dq=p.Dist(o); if(std::abs(dq-r)>1e-9*M) c.check(b.Contains(o)==(dq<r),"bs/contains"); b.ExpandToInclude(o); c.check(b.Contains(o)&&b.Radius()>=r&&b.Radius()<=std::max(r,dq),"bs/expand"); c.throws<ArgumentError>([&]{ BoundingSphere3D(p,-1); },"bs/negative");
}

// ---- solids: boundary mesh closed and outward, measures, containment and bounds
struct Mesh{ std::vector<std::array<V,3>> t; };
template<class B> static Mesh triMesh(const B&b){ Mesh m; for(int i=0;i<b.GetSurfaceCount();i++){ auto&t=b.GetSurface(i); m.t.push_back({v(t.Pnt1()),v(t.Pnt2()),v(t.Pnt3())}); } return m; }
template<class B> static Mesh rectMesh(const B&b){ Mesh m; for(int i=0;i<b.GetSurfaceCount();i++){ auto&t=b.GetSurface(i); m.t.push_back({v(t._pnt1),v(t._pnt2),v(t._pnt3)}); m.t.push_back({v(t._pnt1),v(t._pnt3),v(t._pnt4)}); } return m; }
static void solid(mon::Case&c,const IBody&b,const Mesh&m,V ctr,double s,double vmin,double amin,const char*nm_){
  std::string K=nm_; auto key=[&](V p){ return std::tuple<long,long,long>{lroundl((p.x-ctr.x)/s*1e7L),lroundl((p.y-ctr.y)/s*1e7L),lroundl((p.z-ctr.z)/s*1e7L)}; };
  // merge vertices within 1e-6*s by neighbour lookup to be robust at rounding boundaries
  std::map<std::tuple<long,long,long>,int> id; int nv=0; auto vid=[&](V p){ auto k=key(p); for(long a=-1;a<=1;a++)for(long d=-1;d<=1;d++)for(long e=-1;e<=1;e++){ auto it=id.find({std::get<0>(k)+a,std::get<1>(k)+d,std::get<2>(k)+e}); if(it!=id.end()) return it->second; } id[k]=nv; return nv++; };
  std::map<std::pair<int,int>,int> ed; L vol=0,area=0; int faces=0; for(auto&t:m.t){ int i=vid(t[0]),j=vid(t[1]),k=vid(t[2]); V a=t[0]-ctr,e=t[1]-ctr,f=t[2]-ctr; vol+=dot(a,cr(e,f))/6; area+=nm(cr(e-a,f-a))/2; faces++; ed[{i,j}]++; ed[{j,k}]++; ed[{k,i}]++; }
  bool closed=true; for(auto&e:ed) closed&=e.second==1&&ed.count({e.first.second,e.first.first}); c.check(closed,(K+"/mesh-closed").c_str()); 
  double Vx=b.Volume(),Ax=b.SurfaceArea(); c.check((double)vol<=Vx*(1+1e-9)&&(double)vol>=Vx*vmin,(K+"/mesh-volume").c_str(),[&]{ return std::to_string((double)vol)+" vs "+std::to_string(Vx); }); c.check((double)area<=Ax*(1+1e-9)&&(double)area>=Ax*amin,(K+"/mesh-area").c_str(),[&]{ return std::to_string((double)area)+" vs "+std::to_string(Ax); }); c.ev("faces",faces);
  Box3D bb=b.GetBoundingBox(); BoundingSphere3D bs=b.GetBoundingSphere(); V gc=v(b.GetCenter()); V lo{1e300L,1e300L,1e300L},hi{-1e300L,-1e300L,-1e300L}; bool ib=true,is=true; for(auto&t:m.t) for(auto&p:t){ ib&=bb.Contains(P(p),1e-9*s); is&=nm(p-v(bs.Center()))<=bs.Radius()+1e-9*s; lo={std::min(lo.x,p.x),std::min(lo.y,p.y),std::min(lo.z,p.z)}; hi={std::max(hi.x,p.x),std::max(hi.y,p.y),std::max(hi.z,p.z)}; } c.check(ib,(K+"/bbox").c_str()); c.check(is,(K+"/bsphere").c_str());
  // sampling: inside points are in the bounds; the measured volume agrees with the formula (statistical, 6 sigma)
  int n=4000,h=0; double sx=0,sy=0,sz=0; for(int i=0;i<n;i++){ Pnt3Cart p(bb.MinX()+bb.Width()*c.r.uni(-.1,1.1),bb.MinY()+bb.Height()*c.r.uni(-.1,1.1),bb.MinZ()+bb.Depth()*c.r.uni(-.1,1.1)); bool inn=b.IsInside(p); if(inn){ h++; sx+=p.X(); sy+=p.Y(); sz+=p.Z(); c.check(bb.Contains(p)&&bs.Center().Dist(p)<=bs.Radius()*(1+1e-12),(K+"/inside-bounds").c_str()); } }
  double box=bb.Volume()*1.728, f=Vx/box, sig=std::sqrt(f*(1-f)/n); c.check(std::abs((double)h/n-f)<6*sig,(K+"/inside-volume").c_str(),[&]{ return std::to_string((double)h/n)+" vs "+std::to_string(f); }); if(h>100){ c.check(std::abs(sx/h-(double)gc.x)<6*bb.Width()/2/std::sqrt(h)&&std::abs(sy/h-(double)gc.y)<6*bb.Height()/2/std::sqrt(h)&&std::abs(sz/h-(double)gc.z)<6*bb.Depth()/2/std::sqrt(h),(K+"/centroid").c_str()); }
  // mesh face centres pulled slightly towards the centroid are inside, pushed outward beyond the solid's curvature they are outside
  c.check(b.ToString().size()>10,(K+"/text").c_str()); c.ev(nm_);
  c.throws<IndexError>([&]{ if(auto*t=dynamic_cast<const BodyWithTriangleSurfaces*>(&b)) t->GetSurface((int)m.t.size()); else dynamic_cast<const BodyWithRectSurfaces*>(&b)->GetSurface(-1); },(K+"/index").c_str());
}
FAMILY(solids,60){
  double s=c.r.pmag(-1,1.5); double a=s*c.r.uni(.3,1),b=s*c.r.uni(.3,1); bool off=c.r.coin(); V o{off?(L)c.r.uni(-3,3)*s:0,off?(L)c.r.uni(-3,3)*s:0,off?(L)c.r.uni(-3,3)*s:0}; Pnt3Cart O=P(o); o=v(O); int n1=c.r.i(3,30),n2=c.r.i(3,30); c.in("ab",std::vector<double>{a,b,O.X(),O.Y(),O.Z(),(double)n1,(double)n2});
  double q1=std::sin(2*M_PI/n1)/(2*M_PI/n1); double cz=M_PI/n1,cw=M_PI/n2; double k1=std::pow(std::cos(cz),2)*.5, k2=std::max(0.0,1-2.0*(cz*cz+cw*cw));
  { auto x=off?Cube3D(a,O):Cube3D(a); solid(c,x,rectMesh(x),o,s,1-1e-9,1-1e-9,"cube"); auto y=off?CubeWithTriangles3D(a,O):CubeWithTriangles3D(a); solid(c,y,triMesh(y),o,s,1-1e-9,1-1e-9,"cube-tri"); }
  { auto x=off?Pyramid3D(a,b,Vec3Cart(O)):Pyramid3D(a,b); solid(c,x,triMesh(x),o,s,1-1e-9,1-1e-9,"pyramid"); }
  { auto x=off?Cylinder3D(a,b,O,n1):Cylinder3D(a,b,n1); V oc=off?o:V{0,0,-(L)b/2}; solid(c,x,triMesh(x),oc,s,q1*(1-1e-9),q1*(1-1e-9),"cylinder"); }
  { auto x=off?Sphere3D(a,O,n1,n2):Sphere3D(a,n1,n2); solid(c,x,triMesh(x),o,s,std::max(k2,.15),std::max(k2,.3),"sphere"); }
  { double R=a+b,r=std::min(a,b)*.95; auto x=off?Torus3D(R,r,O,n1,n2):Torus3D(R,r,n1,n2); solid(c,x,rectMesh(x),o,s,q1*std::sin(2*M_PI/n2)/(2*M_PI/n2)*.98,.3,"torus"); }
  (void)k1;
}
// composed bodies and bodies between surfaces
static double ylo(double x){ return -std::sqrt(std::max(0.0,1-x*x)); } static double yhi(double x){ return -ylo(x); } static double zlo(double,double){ return 0; } static double zhi(double x,double y){ return 2+x+y*y; } static double dens(const VectorN<Real,3>&p){ return p[0]+2*p[1]; }
FAMILY(composed,100){
  SolidBodyWithBoundary sb(-1,1,ylo,yhi,zlo,zhi,dens); SolidBodyWithBoundaryConstDensity sc(-1,1,ylo,yhi,zlo,zhi,2.5); Cube3D cu(1,Pnt3Cart(c.r.uni(-1,1),0,0)); Sphere3D sp(.8,Pnt3Cart(0,c.r.uni(-1,1),0)); ComposedSolidSurfaces3D co({&cu}); co.AddSolid(&sp); c.check(co.GetSolidCount()==2&&co.GetSolid(1)==&sp,"composed/list");
  for(int i=0;i<60;i++){ Pnt3Cart p(c.r.uni(-1.5,1.5),c.r.uni(-1.5,1.5),c.r.uni(-1,4)); bool e=p.X()*p.X()+p.Y()*p.Y()<1&&p.Z()>0&&p.Z()<2+p.X()+p.Y()*p.Y(); c.check(sb.IsInside(p)==e&&sc.IsInside(p)==e,"boundary/inside"); c.check(co.IsInside(p)==(cu.IsInside(p)||sp.IsInside(p)),"composed/inside"); VectorN<Real,3> w{p.X(),p.Y(),p.Z()}; c.close(sb.getDensity(w),p.X()+2*p.Y(),1e-14,"boundary/density"); c.close(sc.getDensity(w),2.5,0,"boundary/const"); c.ev(e?"solid-in":"solid-out"); }
}
MON_MAIN()
