// C27 part 1: points, 2D lines and segments, triangles, circles, boxes, plain shapes.
#include "mon.h"
#include "MMLBase.h"
#include "base/Geometry/Geometry.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/GeometrySpherical.h"
#include <boost/math/special_functions/ellint_2.hpp>
#include <boost/math/quadrature/gauss_kronrod.hpp>
using namespace MML;
typedef long double L;
static const L PIl=3.14159265358979323846264338327950288L;
typedef Point2Cartesian P2;
static P2 rp(mon::Case&c,double s){ int k=c.r.i(0,3); if(k==0) return P2(c.r.i(-4,4),c.r.i(-4,4)); return P2(c.r.uni(-s,s),c.r.uni(-s,s)); }
static L d2(const P2&a,const P2&b){ L x=(L)a.X()-b.X(), y=(L)a.Y()-b.Y(); return sqrtl(x*x+y*y); }

FAMILY(points,300){
  double s=c.r.pmag(-2,3); 
  double r1=s*c.r.u01(), r2=c.r.coin(.3)? r1*(1+c.r.uni(-1e-9,1e-9)):s*c.r.u01();
  double f1=c.r.uni(-7,7), f2=c.r.coin(.3)? f1+c.r.uni(-1e-9,1e-9): c.r.uni(-7,7);
  double t1=c.r.uni(0,3.14159), t2=c.r.coin(.3)? t1+c.r.uni(-1e-9,1e-9):c.r.uni(0,3.14159); double z1=c.r.uni(-s,s), z2=c.r.coin(.3)?z1:c.r.uni(-s,s);
  c.in("polar",std::vector<double>{r1,f1,t1,z1,r2,f2,t2,z2});
  auto dist=[&](L ax,L ay,L az,L bx,L by,L bz){ return (double)sqrtl((ax-bx)*(ax-bx)+(ay-by)*(ay-by)+(az-bz)*(az-bz)); };
  L ex=(L)r1*cosl(f1), ey=(L)r1*sinl(f1), gx=(L)r2*cosl(f2), gy=(L)r2*sinl(f2);
  double sc=s*1e-13;
  Point2Polar a(r1,f1), b(r2,f2);
  double w=dist(ex,ey,0,gx,gy,0); c.close(a.Dist(b),w,1e-8*w+sc,"polar/dist");
  Point3Cylindrical ca(r1,f1,z1), cb(r2,f2,z2); w=dist(ex,ey,z1,gx,gy,z2); c.close(ca.Dist(cb),w,1e-8*w+sc,"cylindrical/dist");
  Point3Spherical sa(r1,t1,f1), sb(r2,t2,f2);
  w=dist((L)r1*sinl(t1)*cosl(f1),(L)r1*sinl(t1)*sinl(f1),(L)r1*cosl(t1),(L)r2*sinl(t2)*cosl(f2),(L)r2*sinl(t2)*sinl(f2),(L)r2*cosl(t2));
  c.close(sa.Dist(sb),w,1e-8*w+sc,"spherical/dist");
  c.check(a.Dist(a)==0&&ca.Dist(ca)==0&&sa.Dist(sa)==0,"dist/self");
  c.close(a.Dist(b),b.Dist(a),1e-12*s,"dist/symmetric");
  P2 p=rp(c,s),q=rp(c,s); c.close(p.Dist(q),(double)d2(p,q),1e-13*(s+10),"cart/dist");
  c.check(((p+q)-q).Dist(p)<=1e-12*(s+10)&&((p*3.0)/3.0).Dist(p)<=1e-12*(s+10)&&(2.5*p==p*2.5),"cart/arith");
  P2 m=p; m+=q; c.check(m==p+q,"cart/+="); m-=q; c.check(m==(p+q)-q,"cart/-="); m=p; m*=1.5; c.check(m==p*1.5,"cart/*="); m/=0.7; c.check(m==p*1.5/0.7,"cart//=");
  Point3Cartesian u(p.X(),p.Y(),z1), v(q.X(),q.Y(),z2);
  c.close(u.Dist(v),(double)sqrtl(d2(p,q)*d2(p,q)+((L)z1-z2)*((L)z1-z2)),1e-13*(s+10),"cart3/dist");
  Point3Cartesian h=u; h+=v; c.check(h==u+v,"cart3/+="); h-=v; c.check(h==(u+v)-v,"cart3/-="); h=u; h*=1.5; c.check(h==u*1.5&&h==1.5*u,"cart3/*="); h/=.7; c.check(h==u*1.5/.7,"cart3//=");
  c.check(u==u&&!(u!=u)&&a==a&&!(a!=a)&&sa==sa&&ca==ca&&u.IsEqualTo(u),"equality");
  c.ev("points");
  // latitude / longitude
  double la1=c.r.uni(-90,90), lo1=c.r.uni(-180,180), la2=c.r.coin(.2)?la1+1e-4:c.r.uni(-90,90), lo2=c.r.coin(.2)?lo1+1e-4:c.r.uni(-180,180), R=c.r.pmag(-1,4);
  c.in("latlong",std::vector<double>{la1,lo1,la2,lo2,R});
  L D=PIl/180; L X1=cosl(la1*D)*cosl(lo1*D),Y1=cosl(la1*D)*sinl(lo1*D),Z1=sinl(la1*D),X2=cosl(la2*D)*cosl(lo2*D),Y2=cosl(la2*D)*sinl(lo2*D),Z2=sinl(la2*D);
  L cx=Y1*Z2-Z1*Y2, cy=Z1*X2-X1*Z2, cz=X1*Y2-Y1*X2; L ang=atan2l(sqrtl(cx*cx+cy*cy+cz*cz),X1*X2+Y1*Y2+Z1*Z2);
  typedef SphericalGeometryCalculator SG;
  c.close(SG::DistanceBetweenLatLong(la1,lo1,la2,lo2),(double)ang,5e-8,"latlong/dist");
  c.close(SG::DistanceBetweenLatLong(R,la1,lo1,la2,lo2),(double)ang*R,5e-8*R,"latlong/dist-radius");
  Pnt3Cart pc=SG::CartesianFromSpherical(SG::SphericalFromLatLong(la1,lo1));
  c.check(pc.Dist(Pnt3Cart((double)X1,(double)Y1,(double)Z1))<1e-14,"latlong/cart");
  c.close(SG::RadiusFromCartesian(pc*R),R,1e-13*R,"latlong/radius");
}

FAMILY(lines2,400){
  double s=c.r.pmag(-1,3); P2 a=rp(c,s), b=rp(c,s), p=rp(c,s), q=rp(c,s);
  if(d2(a,b)<1e-3*s||d2(p,q)<1e-3*s){ c.trivial(); return; }
  c.in("pts",std::vector<double>{a.X(),a.Y(),b.X(),b.Y(),p.X(),p.Y(),q.X(),q.Y()});
  double M=s+8;
  Line2D l(a,b); L len=d2(a,b); L ux=((L)b.X()-a.X())/len, uy=((L)b.Y()-a.Y())/len;
  L vx=(L)p.X()-a.X(), vy=(L)p.Y()-a.Y(); L dist=fabsl(vx*uy-vy*ux), t=vx*ux+vy*uy;
  c.close(l.DistanceToPoint(p),(double)dist,1e-12*M,"line/dist");
  P2 cl=l.ClosestPoint(p); c.check(cl.Dist(P2((double)(a.X()+t*ux),(double)(a.Y()+t*uy)))<1e-12*M,"line/closest");
  c.check(l(2.5).Dist(P2((double)(a.X()+2.5*ux),(double)(a.Y()+2.5*uy)))<1e-12*M,"line/at");
  c.check(l.Contains(cl,1e-10*M)&&(dist<1e-6*M||!l.Contains(p,1e-8*M)),"line/contains");
  Line2D pe=l.Perpendicular(p); c.check(pe.Contains(p,1e-12*M)&&std::abs(pe.Direction().X()*l.Direction().X()+pe.Direction().Y()*l.Direction().Y())<1e-14,"line/perpendicular");
  Line2D m(p,q); L l2=d2(p,q), wx=((L)q.X()-p.X())/l2, wy=((L)q.Y()-p.Y())/l2, cr=ux*wy-uy*wx;
  auto R=l.Intersection(m); P2 ip; 
  if(fabsl(cr)>1e-6){ L tt=(vx*wy-vy*wx)/cr; P2 e((double)(a.X()+tt*ux),(double)(a.Y()+tt*uy)); double tol=1e-12*M/(double)(fabsl(cr)*fabsl(cr));
    if(c.check(R.IsPoint()&&R.HasIntersection()&&l.Intersects(m,&ip)&&l.Intersects(m),"line/intersect")){ c.check(R.point.Dist(e)<tol&&ip.Dist(e)<tol,"line/intersect-point"); c.close(R.t1,(double)tt,tol,"line/t1"); c.check(m(R.t2).Dist(e)<2*tol,"line/t2"); c.ev("line-cross"); } }
  // parallel and coincident
  P2 sh(c.r.uni(-1,1)*s,c.r.uni(-1,1)*s); Line2D par(a+sh,Vector2Cartesian((double)-ux,(double)-uy)); auto Q=l.Intersection(par); L off=fabsl(sh.X()*uy-sh.Y()*ux);
  if(off>1e-6) c.check(Q.IsParallel()&&!l.Intersects(par),"line/parallel");
  Line2D co(a,Vector2Cartesian((double)(-3*ux),(double)(-3*uy))); c.check(l.Intersection(co).IsCoincident(),"line/coincident");
  // segments
  SegmentLine2D sg(a,b); L ts=std::min(len,std::max((L)0,t)); P2 es((double)(a.X()+ts*ux),(double)(a.Y()+ts*uy));
  c.close(sg.DistanceToPoint(p),(double)d2(es,p),1e-12*M,"seg/dist"); c.check(sg.ClosestPoint(p).Dist(es)<1e-12*M,"seg/closest"); c.close(sg.Length(),(double)len,1e-13*M,"seg/length");
  c.check(sg.Midpoint().Dist((a+b)*0.5)<1e-13*M&&sg.PointOnSegment(0).Dist(a)<1e-13*M&&sg.PointOnSegment(1).Dist(b)<1e-12*M,"seg/points"); c.throws<GeometryError>([&]{ sg.PointOnSegment(1.01); },"seg/range"); c.throws<GeometryError>([&]{ sg.PointOnSegment(-.01); },"seg/range0");
  SegmentLine2D dg(a,a); c.close(dg.DistanceToPoint(p),(double)d2(a,p),1e-12*M,"seg/degenerate");
  double tiny=c.r.pmag(-9,-6); P2 b2(a.X()+tiny*(double)ux,a.Y()+tiny*(double)uy); c.close(SegmentLine2D(P2(0,0),P2(tiny*(double)ux,tiny*(double)uy)).DistanceToPoint(P2(2*tiny*(double)ux,2*tiny*(double)uy)),tiny,1e-6*tiny,"seg/short");
  // segment intersection, away from tolerance boundaries
  SegmentLine2D s2(p,q); L o1=cr!=0?1:0; (void)o1;
  auto orient=[](P2 O,P2 A,P2 B){ return ((L)A.X()-O.X())*((L)B.Y()-O.Y())-((L)A.Y()-O.Y())*((L)B.X()-O.X()); };
  L d1=orient(p,q,a), e2=orient(p,q,b), d3=orient(a,b,p), d4=orient(a,b,q); L mn=std::min(std::min(fabsl(d1),fabsl(e2)),std::min(fabsl(d3),fabsl(d4)));
  auto SI=sg.Intersection(s2);
  if(mn>1e-8*(1+s*s)){ bool x=(d1>0)!=(e2>0)&&(d3>0)!=(d4>0); P2 ip2; c.check(SI.HasIntersection()==x&&sg.Intersects(s2,&ip2)==x,"seg/cross"); if(x){ c.check(sg.DistanceToPoint(SI.point)<1e-9*M&&s2.DistanceToPoint(SI.point)<1e-9*M&&ip2==SI.point,"seg/cross-point"); c.ev("seg-cross"); } }
  // touching at an interior point of sg (exact dyadic coordinates), and collinear overlaps
  { int x0=c.r.i(-8,8),y0=c.r.i(-8,8),dx=c.r.i(-4,4),dy=c.r.i(-4,4); if(dx||dy){ auto at=[&](int k){ return P2(x0+k*dx,y0+k*dy); }; int k1=c.r.i(-4,4),k2=c.r.i(-4,4),k3=c.r.i(-4,4),k4=c.r.i(-4,4);
    if(k1!=k2&&k3!=k4){ int lo=std::max(std::min(k1,k2),std::min(k3,k4)), hi=std::min(std::max(k1,k2),std::max(k3,k4)); auto X=SegmentLine2D(at(k1),at(k2)).Intersection(SegmentLine2D(at(k3),at(k4))); c.in("k",std::vector<int>{x0,y0,dx,dy,k1,k2,k3,k4});
      if(lo>hi) c.check(!X.HasIntersection(),"seg/collinear-disjoint"); else if(lo==hi) c.check(X.IsPointIntersection()&&X.point.Dist(at(lo))<1e-9,"seg/collinear-touch");
      else { c.check(X.IsOverlap()&&((X.overlapStart.Dist(at(lo))<1e-9&&X.overlapEnd.Dist(at(hi))<1e-9)||(X.overlapStart.Dist(at(hi))<1e-9&&X.overlapEnd.Dist(at(lo))<1e-9)),"seg/overlap"); c.ev("seg-overlap"); }
      P2 mid=at(k3); P2 away(mid.X()-dy*2+dx,mid.Y()+dx*2+dy); auto T=SegmentLine2D(at(k1),at(k2)).Intersection(SegmentLine2D(mid,away)); bool in=k3>=std::min(k1,k2)&&k3<=std::max(k1,k2); c.check(T.HasIntersection()==in&&(!in||T.point.Dist(mid)<1e-9),"seg/touch"); } } }
}

FAMILY(tri2,400){
  double s=c.r.pmag(-1,3); P2 a=rp(c,s),b=rp(c,s),d=rp(c,s); L sa=(((L)b.X()-a.X())*((L)d.Y()-a.Y())-((L)d.X()-a.X())*((L)b.Y()-a.Y()))/2; c.in("tri",std::vector<double>{a.X(),a.Y(),b.X(),b.Y(),d.X(),d.Y()}); double M=s+8;
  Triangle2D t(a,b,d); c.close(t.SignedArea(),(double)sa,1e-13*M*M,"tri/signed"); c.close(t.Area(),(double)fabsl(sa),1e-13*M*M,"tri/area"); L A=d2(a,b),B=d2(b,d),C=d2(d,a); c.close(t.A(),(double)A,1e-13*M,"tri/a"); c.close(t.B(),(double)B,1e-13*M,"tri/b"); c.close(t.C(),(double)C,1e-13*M,"tri/c"); c.close(t.Perimeter(),(double)(A+B+C),1e-12*M,"tri/perimeter");
  L q=fabsl(sa)/(A*A+B*B+C*C+1e-300L); if(q<1e-4||s<.2){ c.ev("tri-flat"); return; } c.ev("tri"); double cond=1/(double)q;
  c.check(t.IsCounterClockwise()==(sa>0)&&t.IsClockwise()==(sa<0),"tri/orientation");
  P2 cc=t.Circumcenter(); double R=t.CircumRadius(); double tol=1e-13*M*cond*cond; for(P2 v:{a,b,d}) c.close(cc.Dist(v),R,tol,"tri/circum");
  P2 ic=t.Incenter(); double ri=t.InRadius(); c.close(SegmentLine2D(a,b).DistanceToPoint(ic),ri,1e-12*M*cond,"tri/in-ab"); c.close(SegmentLine2D(b,d).DistanceToPoint(ic),ri,1e-12*M*cond,"tri/in-bc"); c.close(SegmentLine2D(d,a).DistanceToPoint(ic),ri,1e-12*M*cond,"tri/in-ca");
  c.check(t.Centroid().Dist((a+b+d)/3.0)<1e-12*M,"tri/centroid");
  auto ang=[](P2 O,P2 X,P2 Y){ L ax=(L)X.X()-O.X(),ay=(L)X.Y()-O.Y(),bx=(L)Y.X()-O.X(),by=(L)Y.Y()-O.Y(); return (double)fabsl(atan2l(ax*by-ay*bx,ax*bx+ay*by)); };
  double at=1e-13*cond*cond; c.close(t.AngleA(),ang(d,a,b),at,"tri/angleA"); c.close(t.AngleB(),ang(a,b,d),at,"tri/angleB"); c.close(t.AngleC(),ang(b,a,d),at,"tri/angleC"); c.close(t.AngleA()+t.AngleB()+t.AngleC(),Constants::PI,3*at,"tri/angle-sum");
  for(int k=0;k<10;k++){ double u=c.r.uni(-.4,1.4),v=c.r.uni(-.4,1.4),w=1-u-v; double m=std::min(u,std::min(v,w)); if(std::abs(m)<1e-6) continue; P2 p(u*a.X()+v*b.X()+w*d.X(),u*a.Y()+v*b.Y()+w*d.Y()); c.check(t.Contains(p)==(m>0),"tri/contains",[&]{ return "barycentric min "+std::to_string(m); }); c.ev(m>0?"in":"out"); }
  c.check(t.Contains(a)&&t.Contains(b)&&t.Contains(d),"tri/contains-vertex");
  t.Pnt1()=b; c.close(t.A(),0,1e-300,"tri/mutable"); c.close(t.Area(),0,1e-13*M*M,"tri/mutable-area");
  // exact families
  int e=c.r.i(1,50); Triangle2D rt(P2(1,2),P2(1+3*e,2),P2(1,2+4*e)); c.check(rt.IsRight(1e-6)&&!rt.IsIsosceles()&&!rt.IsEquilateral(),"tri/right"); double h=e*std::sqrt(3.0)/2; Triangle2D eq(P2(0,0),P2(e,0),P2(e/2.0,h)); c.check(eq.IsEquilateral(1e-9)&&eq.IsIsosceles(1e-9)&&!eq.IsRight(),"tri/equilateral");
  c.throws<GeometryError>([&]{ Triangle2D(P2(0,0),P2(e,e),P2(2*e,2*e)).Circumcenter(); },"tri/degenerate-circumcenter");
}

FAMILY(circlebox,300){
  double s=c.r.pmag(-1,3); P2 o=rp(c,s),p=rp(c,s),q=rp(c,s); double r=s*c.r.uni(.05,1.5); c.in("cr",std::vector<double>{o.X(),o.Y(),r,p.X(),p.Y(),q.X(),q.Y()}); double M=s+8;
  Circle2D k(o,r); c.close(k.Area(),(double)(PIl*r*r),1e-13*M*M,"circ/area"); c.close(k.Circumference(),(double)(2*PIl*r),1e-13*M,"circ/len"); L dp=d2(o,p); c.close(k.SignedDistance(p),(double)(dp-r),1e-12*M,"circ/signed"); c.close(k.DistanceToPoint(p),(double)fabsl(dp-r),1e-12*M,"circ/dist"); if(fabsl(dp-r)>1e-8*M) c.check(k.Contains(p)==(dp<r),"circ/contains");
  if(dp>1e-6){ P2 cl=k.ClosestPoint(p); c.close(cl.Dist(o),r,1e-12*M,"circ/closest-on"); c.close(cl.Dist(p),(double)fabsl(dp-r),1e-11*M,"circ/closest"); c.check(k.IsOnBoundary(cl,1e-11*M),"circ/boundary"); } c.close(k.ClosestPoint(o).Dist(o),r,1e-12*M,"circ/closest-centre");
  double th=c.r.uni(-6.28,6.28); P2 at=k.PointAt(th); auto tg=k.TangentAt(th); c.close(at.Dist(o),r,1e-12*M,"circ/at"); c.close((at.X()-o.X())*tg.X()+(at.Y()-o.Y())*tg.Y(),0,1e-12*M,"circ/tangent"); c.close(k.ArcLength(th),std::abs(th)*r,1e-12*M,"circ/arc"); c.close(k.SectorArea(th),.5*r*r*std::abs(th),1e-12*M*M,"circ/sector"); c.close(k.ChordLength(th),at.Dist(k.PointAt(0)),1e-12*M,"circ/chord");
  double r2=s*c.r.uni(.05,1.5); Circle2D k2(p,r2); double m1=(double)(dp-(r+r2)), m2=(double)(dp-std::abs(r-r2)); if(std::abs(m1)>1e-9*M&&std::abs(m2)>1e-9*M){ c.check(k.Intersects(k2)==(m1<0&&m2>0)&&k2.Intersects(k)==k.Intersects(k2),"circ/circ"); c.ev("circ-circ"); }
  if(d2(p,q)>1e-3*M){ Line2D l(p,q); double m=l.DistanceToPoint(o)-r; if(std::abs(m)>1e-9*M) c.check(k.Intersects(l)==(m<0),"circ/line"); Circle2D dm=Circle2D::FromDiameter(p,q); c.close(dm.Radius()*2,(double)d2(p,q),1e-12*M,"circ/diam"); c.check(dm.IsOnBoundary(p,1e-11*M)&&dm.IsOnBoundary(q,1e-11*M),"circ/diam-on"); 
    L sa=fabsl(((L)p.X()-o.X())*((L)q.Y()-o.Y())-((L)p.Y()-o.Y())*((L)q.X()-o.X())); if(sa>1e-2*(double)(dp*dp+d2(o,q)*d2(o,q))&&s>.2){ Circle2D t3=Circle2D::FromThreePoints(o,p,q); for(P2 v:{o,p,q}) c.check(t3.IsOnBoundary(v,1e-8*M),"circ/three"); } }
  c.close(k.Translated(Vector2Cartesian(1,-2)).Center().Dist(P2(o.X()+1,o.Y()-2)),0,1e-12*M,"circ/translated"); c.close(k.Scaled(2.5).Radius(),2.5*r,1e-12*M,"circ/scaled"); c.throws<GeometryError>([&]{ Circle2D(0,0,-1); },"circ/negative"); c.throws<GeometryError>([&]{ k.Scaled(0); },"circ/scale0"); auto bb=k.GetBoundingBox(); c.check(bb.minX==o.X()-r&&bb.maxY==o.Y()+r&&bb.maxX==o.X()+r&&bb.minY==o.Y()-r,"circ/bb");
  // boxes
  Box2D B(p,q); double x0=std::min(p.X(),q.X()),x1=std::max(p.X(),q.X()),y0=std::min(p.Y(),q.Y()),y1=std::max(p.Y(),q.Y()); c.check(B.MinX()==x0&&B.MaxX()==x1&&B.MinY()==y0&&B.MaxY()==y1,"box/normal"); c.close(B.Area(),(x1-x0)*(y1-y0),1e-12*M*M,"box/area"); c.close(B.Perimeter(),2*(x1-x0+y1-y0),1e-12*M,"box/perimeter"); c.close(B.Diagonal(),(double)d2(p,q),1e-12*M,"box/diag");
  // nearest point by clamping in long double
  P2 e(std::min(std::max(o.X(),x0),x1),std::min(std::max(o.Y(),y0),y1)); c.close(B.DistanceToPoint(o),(double)d2(o,e),1e-12*M,"box/dist"); c.check(B.ClosestPoint(o)==e,"box/closest"); bool in=o.X()>=x0&&o.X()<=x1&&o.Y()>=y0&&o.Y()<=y1; if(in||d2(o,e)>1e-8) c.check(B.Contains(o)==in,"box/contains"); double mm=(double)d2(o,e)-r; if(std::abs(mm)>1e-9*M) c.check(B.Intersects(k)==(mm<0),"box/circle");
  P2 u=rp(c,s),v=rp(c,s); Box2D D(u,v); bool x=std::max(x0,D.MinX())<=std::min(x1,D.MaxX())&&std::max(y0,D.MinY())<=std::min(y1,D.MaxY()); c.check(B.Intersects(D)==x,"box/intersects"); Box2D U=B.Union(D); c.check(U.Contains(B,0)&&U.Contains(D,0)&&U.MinX()==std::min(x0,D.MinX())&&U.MaxY()==std::max(y1,D.MaxY()),"box/union"); if(x){ Box2D I=B.Intersection(D); c.check(B.Contains(I,0)&&D.Contains(I,0)&&I.MinX()==std::max(x0,D.MinX())&&I.MaxX()==std::min(x1,D.MaxX())&&I.MinY()==std::max(y0,D.MinY())&&I.MaxY()==std::min(y1,D.MaxY()),"box/intersection"); c.ev("box-box"); }
  Box2D ex=B; ex.ExpandToInclude(o); c.check(ex.Contains(o,0)&&ex.Contains(B,0)&&(!in||(ex.MinX()==x0&&ex.MaxX()==x1)),"box/expand"); std::vector<P2> pts{p,q,o,u,v}; Box2D FP=Box2D::FromPoints(pts); bool all=true,tl=false,tr=false; for(auto&w:pts){ all&=FP.Contains(w,0); tl|=w.X()==FP.MinX(); tr|=w.X()==FP.MaxX(); } c.check(all&&tl&&tr,"box/from-points"); c.throws<GeometryError>([&]{ Box2D::FromPoints({}); },"box/empty"); c.check(B.Center().Dist((p+q)*.5)<1e-12*M&&B.Scaled(2).Center().Dist(B.Center())<1e-12*M,"box/center"); c.close(B.Scaled(2).Area(),4*B.Area(),1e-11*M*M,"box/scaled"); c.close(B.Expanded(.5).Width(),B.Width()+1,1e-12*M,"box/expanded"); auto co=B.Corners(); c.check(co.size()==4&&co[0]==P2(x0,y0)&&co[1]==P2(x1,y0)&&co[2]==P2(x1,y1)&&co[3]==P2(x0,y1),"box/corners"); c.close(B.ToPolygon().Area(),B.Area(),1e-11*M*M,"box/poly"); Box2D F=Box2D::FromCenterAndSize(o,r,r2); c.close(F.Width(),r,1e-12*M,"box/fc-w"); c.close(F.Height(),r2,1e-12*M,"box/fc-h"); c.check(F.Center().Dist(o)<1e-12*M,"box/fc-c");
}

FAMILY(shapes,300){
  double s=c.r.pmag(-2,3); double a=s*c.r.uni(.2,1.5),b=s*c.r.uni(.2,1.5),g=c.r.uni(.05,3.09); c.in("abg",std::vector<double>{a,b,g,s}); L ld=sqrtl((L)a*a+(L)b*b-2*(L)a*b*cosl(g)); double d=(double)ld; double t1=1e-11*s,t2=1e-11*s*s,t3=1e-11*s*s*s;
  double K=1/(std::sin(g)*std::sin(g)+1e-12);
  { Triangle t(a,b,d); c.check(t.IsValid()||std::sin(g)<1e-5,"t/valid"); double ar=(double)(.5L*a*b*sinl(g)); c.close(t.Area(),ar,t2*K,"t/area"); c.close(t.AngleC(),g,1e-12*K+1e-11*(s/d)*(s/d),"t/angleC"); c.close(t.AngleA()+t.AngleB()+t.AngleC(),Constants::PI,1e-12*K+1e-11*(s/d)*(s/d),"t/sum"); c.close(t.AltitudeToA()*a,2*ar,2*t2*K,"t/alt"); c.close(t.AltitudeToB()*b,2*ar,2*t2*K,"t/altb"); c.close(t.AltitudeToC()*d,2*ar,2*t2*K,"t/altc"); c.close(t.Inradius()*(a+b+d)/2,ar,2*t2*K,"t/inr"); c.close(t.Circumradius()*2*std::sin(g),d,t1*K*K,"t/circ"); c.close(t.Semiperimeter()*2,t.Perimeter(),t1,"t/semi");
    // medians by coordinates: C at origin, A's opposite side a on the x axis
    L Bx=a,Ax=b*cosl(g),Ay=b*sinl(g); c.close(t.MedianToA(),(double)hypotl(Ax-Bx/2,Ay),t1*K,"t/medA"); c.close(t.MedianToB(),(double)hypotl(Bx-Ax/2,Ay/2),t1*K,"t/medB"); c.close(t.MedianToC(),(double)(hypotl(Ax+Bx,Ay)/2),t1*K,"t/medC"); double am=std::max(t.AngleA(),std::max(t.AngleB(),t.AngleC())); if(std::abs(am-Constants::PI/2)>1e-4){ c.check(t.IsObtuse()==(am>Constants::PI/2)&&t.IsAcute()==(am<Constants::PI/2),"t/kind"); } c.ev("triangle"); }
  { Parallelogram p(a,b,g); c.close(p.Area(),(double)((L)a*b*sinl(g)),t2,"p/area"); L P=sqrtl((L)a*a+(L)b*b-2*(L)a*b*cosl(g)),Q=sqrtl((L)a*a+(L)b*b+2*(L)a*b*cosl(g)); c.close(p.DiagonalP(),(double)P,t1,"p/P"); c.close(p.DiagonalQ(),(double)Q,t1,"p/Q"); c.close(p.HeightToA()*a,p.Area(),t2,"p/h"); c.close(p.HeightToB()*b,p.Area(),t2,"p/hb"); c.close(p.AcuteAngle()+p.ObtuseAngle(),Constants::PI,1e-14,"p/ang");
    double dp=a,dq=b,w=g; Parallelogram f=Parallelogram::FromDiagonals(dp,dq,w); double K2=1/(f.SideA()/s*f.SideB()/s*std::sin(f.Angle())*std::sin(f.Angle())+1e-9); double got[2]={f.DiagonalP(),f.DiagonalQ()},want[2]={dp,dq}; std::sort(got,got+2); std::sort(want,want+2); c.close(got[0],want[0],1e-10*s*K2,"p/from-diag0"); c.close(got[1],want[1],1e-10*s*K2,"p/from-diag1"); c.close(f.Area(),.5*dp*dq*std::sin(w),1e-10*s*s*K2,"p/from-diag-area"); }
  { Rhombus r(a,b); c.close(r.Area(),.5*a*b,t2,"r/area"); c.close(r.Side(),(double)(hypotl(a,b)/2),t1,"r/side"); c.close(r.Height()*r.Side(),r.Area(),t2,"r/h"); c.close(r.Inradius()*2,r.Height(),t1,"r/in"); c.close(r.Side()*r.Side()*std::sin(r.AcuteAngle()),r.Area(),t2,"r/angle"); c.check(r.AcuteAngle()<=Constants::PI/2+1e-12,"r/acute"); Rhombus r2=Rhombus::FromSideAndAngle(a,g); c.close(r2.Side(),a,t1,"r/sa-side"); c.close(r2.Area(),a*a*std::sin(g),t2,"r/sa-area"); double dd=2*a*c.r.uni(.05,.99); Rhombus r3=Rhombus::FromSideAndDiagonal(a,dd); c.close(r3.Side(),a,t1,"r/sd"); c.close(r3.Diagonal1(),dd,t1,"r/sd-d"); }
  { double ecc=std::min(a,b)/std::max(a,b); double A=std::max(a,b),B=std::min(a,b); Ellipse e(A,B); c.close(e.Area(),(double)(PIl*A*B),t2,"e/area"); double per=4*A*boost::math::ellint_2(std::sqrt(std::max(0.0,1-ecc*ecc))); c.close(e.Circumference(),per,5e-4*per,"e/perim"); c.close(e.Eccentricity()*A,e.LinearEccentricity(),1e-7*s,"e/lin"); c.close(e.LinearEccentricity()*e.LinearEccentricity()+B*B,A*A,t2,"e/c2"); c.close(e.SemiLatusRectum()*A,B*B,t2,"e/latus"); Ellipse f=Ellipse::FromFoci(2*A*ecc*.9,2*A); c.close(f.SemiMajor(),A,t1,"e/ff"); c.close(f.FocalDistance(),2*A*ecc*.9,1e-8*s,"e/ff2"); }
  { double ang=c.r.uni(.05,6.28); Circle k(a); CircularSector sc(a,ang); CircularSegment sg(a,ang); c.close(sc.Area(),k.SectorArea(ang),t2,"s/sector"); c.close(sg.Area(),k.SegmentArea(ang),t2,"s/segment"); double tri=.5*a*a*std::sin(ang); c.close(sc.Area()-sg.Area(),tri,t2,"s/diff"); c.close(sc.ChordLength(),k.ChordLength(ang),t1,"s/chord"); c.close(sg.ChordLength()*sg.ChordLength()/4+(a-sg.Sagitta())*(a-sg.Sagitta()),a*a,t2,"s/sagitta"); CircularSegment bk=CircularSegment::FromSagitta(a,sg.Sagitta()); c.close(bk.Angle(),ang,1e-9/(std::sin(ang/2)+1e-3),"s/from-sagitta"); c.close(Circle::FromArea(k.Area()).Radius(),a,t1,"s/ca"); c.close(Circle::FromCircumference(k.Circumference()).Radius(),a,t1,"s/cc"); c.close(sg.Perimeter(),ang*a+2*a*std::sin(ang/2),t1,"s/per"); Annulus an(std::min(a,b),std::max(a,b)); c.close(an.Area(),an.OuterCircle().Area()-an.InnerCircle().Area(),t2,"s/annulus"); c.close(an.MeanCircumference()*an.Width(),an.Area(),t2,"s/pappus"); }
  { int n=c.r.i(3,60); RegularPolygon r(n,a); std::vector<P2> v; for(int i=0;i<n;i++) v.push_back(P2(r.Circumradius()*std::cos(2*Constants::PI*i/n),r.Circumradius()*std::sin(2*Constants::PI*i/n))); double P=0,A=0; for(int i=0;i<n;i++){ P2 x=v[i],y=v[(i+1)%n]; P+=x.Dist(y); A+=.5*(x.X()*y.Y()-y.X()*x.Y()); } double z=n*n; c.close(r.Perimeter(),P,t1*n,"n/per"); c.close(r.Area(),A,t2*z,"n/area"); c.close(r.Apothem(),SegmentLine2D(v[0],v[1]).DistanceToPoint(P2(0,0)),t1*n,"n/apothem"); c.close(r.InteriorAngle()+r.ExteriorAngle(),Constants::PI,1e-12,"n/angles"); c.close(r.InteriorAngle()*n,(n-2)*Constants::PI,1e-11*n,"n/int"); c.close(RegularPolygon::FromCircumradius(n,r.Circumradius()).SideLength(),a,t1,"n/fc"); c.close(RegularPolygon::FromInradius(n,r.Inradius()).SideLength(),a,t1,"n/fi"); c.close(RegularPolygon::FromArea(n,r.Area()).SideLength(),a,t1,"n/fa"); c.ev("polygon"); }
  { Rectangle r(a,b); c.close(r.Diagonal(),(double)hypotl(a,b),t1,"q/diag"); Rectangle f=Rectangle::FromDiagonalAndRatio(r.Diagonal(),r.AspectRatio()); c.close(f.Width(),a,t1,"q/fdw"); c.close(f.Height(),b,t1,"q/fdh"); Rectangle gr=Rectangle::GoldenRectangle(a); c.close(gr.Width()/gr.Height(),1.6180339887498949,1e-12,"q/golden"); c.close(r.InscribedCircleRadius(),std::min(a,b)/2,t1,"q/ins"); double top=std::min(a,b),base=std::max(a,b),leg=(base-top)/2+a*.3; Trapezoid t=Trapezoid::Isosceles(base,top,leg); c.close(t.Height()*t.Height()+(base-top)*(base-top)/4,leg*leg,t2,"q/trap"); c.close(t.Area(),(a+b)/2*t.Height(),t2,"q/trap-area"); c.close(t.Median(),(a+b)/2,t1,"q/med"); }
  // solids
  { SphereGeom S(a); c.close(S.Volume(),(double)(4*PIl/3*a*a*a),t3*10,"v/sphere"); c.close(S.CapVolume(a),S.Volume()/2,t3*10,"v/hemi"); c.close(S.CapVolume(2*a),S.Volume(),t3*10,"v/fullcap"); double h=2*a*c.r.u01(); c.close(S.CapVolume(h)+S.CapVolume(2*a-h),S.Volume(),t3*10,"v/caps"); c.close(S.CapArea(h)+S.CapArea(2*a-h),S.SurfaceArea(),t2*20,"v/caparea"); c.close(SphereGeom::FromVolume(S.Volume()).Radius(),a,t1,"v/fv"); c.close(SphereGeom::FromSurfaceArea(S.SurfaceArea()).Radius(),a,t1,"v/fs"); c.close(SphereGeom::Circumscribed(Rectangle(a,b),d).Radius(),(double)(sqrtl((L)a*a+(L)b*b+ld*ld)/2),t1,"v/circ");
    CylinderGeom C(a,b); ConeGeom N(a,b); Frustum F0(a,a,b); double r2=a*c.r.uni(.1,.9); Frustum F(a,r2,b); c.close(C.Volume(),3*N.Volume(),t3*10,"v/cone"); c.close(F0.Volume(),C.Volume(),t3*10,"v/frustum-cyl"); c.close(F0.SurfaceArea(),C.SurfaceArea(),t2*20,"v/frustum-cyl-area"); double H=b*a/(a-r2); c.close(F.Volume(),ConeGeom(a,H).Volume()-ConeGeom(r2,H-b).Volume(),t3*1e4,"v/frustum"); c.close(F.LateralArea(),ConeGeom(a,H).LateralArea()-ConeGeom(r2,H-b).LateralArea(),t2*1e4,"v/frustum-lat"); c.close(N.SlantHeight(),(double)hypotl(a,b),t1,"v/slant"); c.close(ConeGeom::FromSlantHeight(a,N.SlantHeight()).Height(),b,t1*10,"v/fsl"); c.close(CylinderGeom::FromVolume(C.Volume(),a).Height(),b,t1,"v/cfv"); c.close(N.SurfaceArea(),(double)(PIl*a*(a+hypotl(a,b))),t2*20,"v/cone-area"); c.close(C.SurfaceArea(),(double)(2*PIl*a*((L)a+b)),t2*20,"v/cyl-area"); TorusGeom T(std::max(a,b),std::min(a,b)*.9); c.close(T.Volume(),T.TubeCrossSection().Area()*2*Constants::PI*T.MajorRadius(),t3*100,"v/torus"); c.close(T.SurfaceArea(),T.TubeCrossSection().Circumference()*2*Constants::PI*T.MajorRadius(),t2*100,"v/torus-a"); c.close(T.OuterRadius()-T.InnerRadius(),2*T.MinorRadius(),t1,"v/torus-r");
    Spheroid E(a,b); c.close(E.Volume(),(double)(4*PIl/3*a*a*b),t3*10,"v/spheroid"); auto f=[&](double th){ return 2*Constants::PI*a*std::sin(th)*std::sqrt(a*a*std::cos(th)*std::cos(th)+b*b*std::sin(th)*std::sin(th)); }; double q=boost::math::quadrature::gauss_kronrod<double,61>::integrate(f,0,Constants::PI,8,1e-12); c.close(E.SurfaceArea(),q,1e-7*q,"v/spheroid-area"); c.check(E.IsOblate()==(a>b)&&E.IsProlate()==(b>a),"v/spheroid-kind"); c.close(E.Flattening()*a,a-b,t1,"v/flattening"); }
  { double P[4][3]; for(auto&v:P) for(double&x:v) x=s*c.r.uni(-1,1); auto e=[&](int i,int j){ return (double)sqrtl(((L)P[i][0]-P[j][0])*((L)P[i][0]-P[j][0])+((L)P[i][1]-P[j][1])*((L)P[i][1]-P[j][1])+((L)P[i][2]-P[j][2])*((L)P[i][2]-P[j][2])); }; Tetrahedron T(e(0,1),e(0,2),e(0,3),e(1,2),e(1,3),e(2,3)); L u[3],v[3],w[3]; for(int k=0;k<3;k++){ u[k]=(L)P[1][k]-P[0][k]; v[k]=(L)P[2][k]-P[0][k]; w[k]=(L)P[3][k]-P[0][k]; } L V=fabsl(u[0]*(v[1]*w[2]-v[2]*w[1])-u[1]*(v[0]*w[2]-v[2]*w[0])+u[2]*(v[0]*w[1]-v[1]*w[0]))/6; c.in("tetra",std::vector<double>{P[0][0],P[0][1],P[0][2],P[1][0],P[1][1],P[1][2],P[2][0],P[2][1],P[2][2],P[3][0],P[3][1],P[3][2]}); double v3=(double)(V/(s*s*s)); if(v3>1e-3){ c.close(T.Volume(),(double)V,1e-11*s*s*s/v3,"v/tetra"); auto ar=[&](int i,int j,int k){ L x[3],y[3]; for(int m=0;m<3;m++){ x[m]=(L)P[j][m]-P[i][m]; y[m]=(L)P[k][m]-P[i][m]; } L A=x[1]*y[2]-x[2]*y[1],B=x[2]*y[0]-x[0]*y[2],C=x[0]*y[1]-x[1]*y[0]; return sqrtl(A*A+B*B+C*C)/2; }; double S=(double)(ar(0,1,2)+ar(0,1,3)+ar(0,2,3)+ar(1,2,3)); c.close(T.SurfaceArea(),S,1e-8*s*s,"v/tetra-area"); c.close(T.Inradius()*S/3,(double)V,1e-8*s*s*s/v3,"v/tetra-in"); c.ev("tetrahedron"); }
    Tetrahedron rg=Tetrahedron::Regular(a); c.close(rg.Volume(),a*a*a/(6*std::sqrt(2.0)),t3,"v/reg"); c.close(rg.Circumradius(),3*rg.Inradius(),t1*10,"v/reg-c"); }
}
MON_MAIN()
