// C27 part 3: accessors, mutators, factories, presets and predicates of the shape classes, points, polygons, planes and bounding volumes.
#include "mon.h"
#include "MMLBase.h"
#include "base/Geometry/Geometry.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
using namespace MML;
typedef Point2Cartesian P2; typedef Point3Cartesian P3;
static const double PI=3.14159265358979323846;
// every mutator reaches exactly the field the const accessor of that name reads
#define RW(C,obj,get,v,key) do{ (obj).get()=(v); const auto&k_=(obj); C.check(k_.get()==(v),key); }while(0)

FAMILY(flat,300){
  double s=c.r.pmag(-2,3), a=s*c.r.uni(.2,2), b=s*c.r.uni(.2,2), e=s*c.r.uni(.2,2), ang=c.r.uni(.05,6.2), t1=1e-12*s, t2=1e-12*s*s; c.in("abe",std::vector<double>{a,b,e,ang});
  { Triangle t; const Triangle&k=t; c.check(k.A()==0&&k.B()==0&&k.C()==0&&!k.IsValid(),"tri/default"); RW(c,t,A,a,"tri/A"); RW(c,t,B,b,"tri/B"); RW(c,t,C,e,"tri/C"); c.check(k.A()==a&&k.B()==b&&k.C()==e,"tri/abc");
    double mx=std::max(a,std::max(b,e)), sum=a+b+e; if(std::abs(2*mx-sum)>1e-9*s) c.check(t.IsValid()==(2*mx<sum),"tri/valid"); c.check(!Triangle(-a,b,e).IsValid()&&!Triangle(a,0,e).IsValid()&&!Triangle(a,b,-e).IsValid(),"tri/invalid"); c.close(k.Perimeter(),sum,t1,"tri/perimeter"); c.close(k.Semiperimeter(),sum/2,t1,"tri/semi");
    // classification on shapes whose kind is known exactly, in every rotation of the side order
    int m=c.r.i(1,40), n=c.r.i(1,40); if(m==n) n=m+1; double x=std::abs(m*m-n*n), y=2.0*m*n, z=m*m+n*n; double q[3]={x,y,z}; for(int r=0;r<3;r++){ Triangle p(q[r],q[(r+1)%3],q[(r+2)%3]), p2(q[(r+2)%3],q[(r+1)%3],q[r]);
      c.check(p.IsRight()&&p2.IsRight()&&!p.IsAcute()&&!p.IsObtuse()&&p.IsValid(),"kind/right"); c.check(p.IsScalene()==(x!=y)&&p.IsIsosceles()==(x==y)&&!p.IsEquilateral(),"kind/right-sides");
      double g=c.r.uni(.3,1.4); double L=m; double base=2*L*std::sin(g); double w[3]={L,L,base}; Triangle i(w[r],w[(r+1)%3],w[(r+2)%3]); bool eq=std::abs(base-L)<1e-6; if(!eq&&std::abs(base-L)>1e-3){ c.check(i.IsIsosceles()&&!i.IsEquilateral()&&!i.IsScalene(),"kind/isosceles"); if(std::abs(g-PI/4)>1e-3) c.check(!i.IsRight()&&i.IsObtuse()==(g>PI/4)&&i.IsAcute()==(g<PI/4),"kind/isosceles-angle"); c.ev("isosceles"); }
      double v[3]={2.0*m,2.0*m+.7*n*m/40+.1,3.0*m-.05}; Triangle u(v[r],v[(r+1)%3],v[(r+2)%3]); auto sc=[&]{ bool d=true; for(int i2=0;i2<3;i2++) d=d&&std::abs(v[i2]-v[(i2+1)%3])>1e-6; return d; }; if(sc()) c.check(u.IsScalene()&&!u.IsIsosceles(),"kind/scalene");
      double big=std::max(v[0],std::max(v[1],v[2])), ss=v[0]*v[0]+v[1]*v[1]+v[2]*v[2]; if(std::abs(2*big*big-ss)>1e-6*ss){ c.check(u.IsObtuse()==(2*big*big>ss)&&u.IsAcute()==(2*big*big<ss)&&!u.IsRight(),"kind/angle"); } }
    Triangle E(m,m,m); c.check(E.IsEquilateral()&&E.IsIsosceles()&&!E.IsScalene()&&E.IsAcute(),"kind/equilateral"); c.check(Triangle(3,4,5+1e-3).IsRight(.1)&&!Triangle(3,4,5+1e-3).IsRight(1e-6)&&Triangle(5,5+1e-3,7).IsIsosceles(1e-2)&&!Triangle(5,5+1e-3,7).IsIsosceles(1e-4)&&Triangle(5,5+1e-3,7).IsScalene(1e-4)&&!Triangle(5,5+1e-3,7).IsScalene(1e-2)&&Triangle(5,5+1e-3,5).IsEquilateral(1e-2)&&!Triangle(5,5+1e-3,5).IsEquilateral(1e-4)&&!Triangle(5,5,5+1e-3).IsEquilateral(1e-4),"kind/eps"); c.ev("triangle");
    Triangle T(5*s,6*s,7*s); c.close(Circle::Inscribed(T).Radius(),T.Inradius(),0,"circ/inscribed"); c.close(Circle::Circumscribed(T).Radius(),T.Circumradius(),0,"circ/circumscribed"); c.close(T.Inradius()*T.Circumradius(),5*6*7*s*s/(2*18.0),1e-12*s*s,"circ/euler"); }
  { Circle k; c.check(k.Radius()==0&&!k.IsValid(),"circ/default"); RW(c,k,Radius,a,"circ/R"); c.check(k.IsValid()&&!Circle(-a).IsValid(),"circ/valid"); c.close(k.Diameter(),2*a,t1,"circ/d"); c.close(k.Perimeter(),2*PI*a,t1*10,"circ/p"); c.close(k.ArcLength(ang),a*ang,t1*10,"circ/arc"); c.close(k.ArcLength(2*PI),k.Circumference(),t1*10,"circ/arc2"); }
  { double A=std::max(a,b),B=std::min(a,b); Ellipse k; c.check(!k.IsValid()&&k.Eccentricity()==0&&k.SemiMajor()==0&&k.SemiMinor()==0,"ell/default"); RW(c,k,SemiMajor,A,"ell/A"); RW(c,k,SemiMinor,B,"ell/B"); const Ellipse&q=k; c.check(q.SemiMajor()==A&&q.MajorAxis()==2*A&&q.MinorAxis()==2*B&&q.IsValid()&&!Ellipse(A,-B).IsValid()&&!Ellipse(0,B).IsValid(),"ell/axes"); c.check(q.Perimeter()==q.Circumference(),"ell/p");
    c.check(Ellipse(A,A).IsCircle()&&Ellipse(2,2+1e-3).IsCircle(1e-2)&&!Ellipse(2,2+1e-3).IsCircle(1e-4)&&!Ellipse(2.5,2).IsCircle(),"ell/circle"); if(A-B>1e-3*A){ double ec=std::sqrt((A-B)*(A+B))/A; c.close(q.DirectrixDistance(),A/ec,1e-9*A/ec,"ell/directrix"); c.close(q.FocalDistance(),2*A*ec,1e-9*A,"ell/focal");
      // focus-directrix definition at a random point of the curve: distance to the focus = e * distance to the directrix
      double th=c.r.uni(0,6.28),X=A*std::cos(th),Y=B*std::sin(th); c.close(std::hypot(X-A*ec,Y),ec*std::abs(q.DirectrixDistance()-X),1e-9*A,"ell/focus-directrix"); c.ev("ellipse"); } }
  { CircularSector k; c.check(!k.IsValid()&&k.Radius()==0&&k.Angle()==0,"sector/default"); RW(c,k,Radius,a,"sector/R"); RW(c,k,Angle,ang,"sector/angle"); const auto&q=k; c.check(q.Radius()==a&&q.IsValid()&&CircularSector(a,2*Constants::PI).IsValid()&&!CircularSector(a,6.4).IsValid()&&!CircularSector(-a,1).IsValid()&&!CircularSector(a,0).IsValid(),"sector/valid"); c.close(q.AngleDegrees(),ang*180/PI,1e-11,"sector/deg"); c.close(q.ArcLength(),a*ang,t1*10,"sector/arc"); c.close(q.Perimeter(),2*a+a*ang,t1*10,"sector/p"); c.close(q.Area(),.5*a*q.ArcLength(),t2*10,"sector/area");
    CircularSegment g; c.check(!g.IsValid()&&g.Radius()==0&&g.Angle()==0,"segm/default"); RW(c,g,Radius,a,"segm/R"); RW(c,g,Angle,ang,"segm/angle"); const auto&h=g; c.check(h.IsValid()&&CircularSegment(a,2*Constants::PI).IsValid()&&!CircularSegment(a,6.4).IsValid()&&!CircularSegment(0,1).IsValid()&&!CircularSegment(a,-1).IsValid(),"segm/valid"); c.close(h.Perimeter()-h.ChordLength(),h.ArcLength(),t1*10,"segm/p"); c.close(h.Sagitta(),a-a*std::cos(ang/2),t1*10,"segm/sagitta"); c.close(h.Area()+CircularSegment(a,2*PI-ang).Area(),PI*a*a,t2*10,"segm/complement"); }
  { double i=std::min(a,b),o=std::max(a,b)+.1*s; Annulus k; c.check(!k.IsValid()&&k.InnerRadius()==0&&k.OuterRadius()==0,"ann/default"); RW(c,k,InnerRadius,i,"ann/in"); RW(c,k,OuterRadius,o,"ann/out"); const auto&q=k; c.check(q.InnerRadius()==i&&q.IsValid()&&Annulus(0,o).IsValid()&&!Annulus(o,i).IsValid()&&!Annulus(-1,o).IsValid()&&!Annulus(o,o).IsValid(),"ann/valid"); c.close(q.InnerCircumference(),2*PI*i,t1*10,"ann/ic"); c.close(q.OuterCircumference(),2*PI*o,t1*10,"ann/oc"); c.close(q.Width(),o-i,t1,"ann/w"); c.check(q.InnerCircle().Radius()==i&&q.OuterCircle().Radius()==o,"ann/circles"); }
  { RegularPolygon k; c.check(k.NumSides()==3&&!k.IsValid(),"poly/default"); RW(c,k,NumSides,7,"poly/n"); RW(c,k,SideLength,a,"poly/s"); const auto&q=k; c.check(q.NumSides()==7&&q.IsValid()&&!RegularPolygon(2,a).IsValid()&&!RegularPolygon(3,0).IsValid()&&RegularPolygon(3,a).IsValid(),"poly/valid"); c.close(q.CentralAngle(),2*PI/7,1e-13,"poly/central"); c.close(q.InscribedCircle().Radius(),a/(2*std::tan(PI/7)),t1*10,"poly/in"); c.close(q.CircumscribedCircle().Radius(),a/(2*std::sin(PI/7)),t1*10,"poly/circ");
    RegularPolygon f[9]={RegularPolygon::EquilateralTriangle(a),RegularPolygon::Square(a),RegularPolygon::Pentagon(a),RegularPolygon::Hexagon(a),RegularPolygon::Heptagon(a),RegularPolygon::Octagon(a),RegularPolygon::Nonagon(a),RegularPolygon::Decagon(a),RegularPolygon::Dodecagon(a)}; int n[9]={3,4,5,6,7,8,9,10,12}; for(int i=0;i<9;i++) c.check(f[i].NumSides()==n[i]&&f[i].SideLength()==a,"poly/preset"); c.close(f[1].Area(),a*a,t2*10,"poly/square"); c.close(f[0].Area(),std::sqrt(3.0)/4*a*a,t2*10,"poly/triangle"); c.close(f[3].Circumradius(),a,t1*10,"poly/hexagon"); }
  { Rectangle k; c.check(!k.IsValid()&&k.Area()==0,"rect/default"); RW(c,k,Width,a,"rect/w"); RW(c,k,Height,b,"rect/h"); const auto&q=k; c.check(q.Width()==a&&q.IsValid()&&!Rectangle(a,-b).IsValid()&&!Rectangle(0,b).IsValid(),"rect/valid"); c.close(q.Area(),a*b,t2,"rect/area"); c.close(q.Perimeter(),2*a+2*b,t1*10,"rect/p"); c.close(q.CircumscribedCircleRadius(),std::hypot(a,b)/2,t1,"rect/circ"); Rectangle S=Rectangle::Square(a); c.check(S.Width()==a&&S.Height()==a&&S.IsSquare()&&!Rectangle(2,3).IsSquare()&&Rectangle(2,2.001).IsSquare(.01)&&!Rectangle(2,2.001).IsSquare(1e-4),"rect/square"); c.close(q.AspectRatio(),a/b,1e-13*a/b,"rect/ratio"); }
  { double g=c.r.uni(.1,3.0); Parallelogram k; c.check(!k.IsValid()&&k.SideA()==0&&k.SideB()==0&&k.Angle()==0,"par/default"); RW(c,k,SideA,a,"par/a"); RW(c,k,SideB,b,"par/b"); RW(c,k,Angle,g,"par/ang"); const auto&q=k; c.check(q.SideA()==a&&q.SideB()==b&&q.IsValid()&&!Parallelogram(a,b,PI+.01).IsValid()&&!Parallelogram(a,b,0).IsValid()&&!Parallelogram(-a,b,1).IsValid()&&!Parallelogram(a,-b,1).IsValid(),"par/valid"); c.close(q.AngleDegrees(),g*180/PI,1e-11,"par/deg"); c.close(q.Perimeter(),2*(a+b),t1*10,"par/p"); Parallelogram R(2,3,PI/2),H(3,3,1),S(3,3,PI/2),G(2,3,1); c.check(R.IsRectangle()&&!R.IsRhombus()&&!R.IsSquare()&&!H.IsRectangle()&&H.IsRhombus()&&!H.IsSquare()&&S.IsRectangle()&&S.IsRhombus()&&S.IsSquare()&&!G.IsRectangle()&&!G.IsRhombus()&&!G.IsSquare()&&Parallelogram(3,3.001,1).IsRhombus(.01)&&Parallelogram(3,3,PI/2+.001).IsSquare(.01),"par/kind"); c.close(q.AcuteAngle(),std::min(g,PI-g),1e-13,"par/acute"); c.close(q.ObtuseAngle(),std::max(g,PI-g),1e-13,"par/obtuse"); }
  { Rhombus k; c.check(!k.IsValid()&&k.Side()==0&&k.Diagonal1()==0&&k.Diagonal2()==0,"rh/default"); Rhombus r(a,b); const auto&q=r; c.check(q.Diagonal1()==a&&q.Diagonal2()==b&&q.IsValid()&&!Rhombus(a,-b).IsValid()&&!Rhombus(-a,b).IsValid(),"rh/valid"); c.close(q.Perimeter(),2*std::hypot(a,b),t1*10,"rh/p"); c.close(q.AcuteAngle()+q.ObtuseAngle(),PI,1e-13,"rh/angles"); c.close(q.InscribedCircle().Radius(),q.Inradius(),0,"rh/in"); c.check(Rhombus(a,a).IsSquare()&&!Rhombus(2,3).IsSquare()&&Rhombus(2,2.001).IsSquare(.01)&&!Rhombus(2,2.001).IsSquare(1e-4),"rh/square"); RW(c,r,Diagonal1,e,"rh/d1"); RW(c,r,Diagonal2,a,"rh/d2"); RW(c,r,Side,b,"rh/side"); }
  { Trapezoid k; c.check(!k.IsValid()&&k.Area()==0,"trap/default"); RW(c,k,ParallelSideA,a,"trap/a"); RW(c,k,ParallelSideB,b,"trap/b"); RW(c,k,Height,e,"trap/h"); const auto&q=k; c.check(q.ParallelSideA()==a&&q.ParallelSideB()==b&&q.IsValid()&&!Trapezoid(a,b,0).IsValid()&&!Trapezoid(-a,b,e).IsValid()&&!Trapezoid(a,-b,e).IsValid(),"trap/valid"); c.close(q.Area(),(a+b)/2*e,t2*10,"trap/area"); c.check(Trapezoid(2,2,1).IsParallelogram()&&!Trapezoid(2,3,1).IsParallelogram()&&Trapezoid(2,2.001,1).IsParallelogram(.01),"trap/par"); }
  c.ev("flat");
}

FAMILY(solids,300){
  double s=c.r.pmag(-4,3), a=s*c.r.uni(.2,2), b=s*c.r.uni(.2,2), e=s*c.r.uni(.2,2), t1=1e-12*s; c.in("abe",std::vector<double>{a,b,e});
  { SphereGeom k; c.check(!k.IsValid()&&k.Radius()==0,"sph/default"); RW(c,k,Radius,a,"sph/R"); const auto&q=k; c.check(q.IsValid()&&q.GreatCircle().Radius()==a&&q.Diameter()==2*a,"sph/acc"); double h=2*a*c.r.u01(); c.close(q.ZoneArea(h),2*PI*a*h,1e-12*s*s,"sph/zone"); c.close(q.ZoneArea(2*a),q.SurfaceArea(),1e-11*s*s,"sph/zone-all"); }
  { CylinderGeom k; c.check(!k.IsValid()&&k.Radius()==0&&k.Height()==0,"cyl/default"); RW(c,k,Radius,a,"cyl/R"); RW(c,k,Height,b,"cyl/h"); const auto&q=k; c.check(q.Radius()==a&&q.IsValid()&&!CylinderGeom(a,0).IsValid()&&!CylinderGeom(-a,b).IsValid()&&q.Base().Radius()==a&&q.Diameter()==2*a,"cyl/acc"); c.close(q.BaseArea()*b,q.Volume(),1e-11*s*s*s,"cyl/vol"); c.close(q.LateralArea(),2*PI*a*b,1e-11*s*s,"cyl/lat"); }
  { ConeGeom k; c.check(!k.IsValid()&&k.Radius()==0&&k.Height()==0,"cone/default"); RW(c,k,Radius,a,"cone/R"); RW(c,k,Height,b,"cone/h"); const auto&q=k; c.check(q.Radius()==a&&q.IsValid()&&!ConeGeom(a,0).IsValid()&&!ConeGeom(-a,b).IsValid()&&q.Base().Radius()==a,"cone/acc"); c.close(std::tan(q.ApexAngle()),a/b,1e-11*a/b,"cone/apex"); c.close(q.BaseArea(),PI*a*a,1e-11*s*s,"cone/base"); }
  { Frustum k; c.check(!k.IsValid()&&k.BottomRadius()==0&&k.TopRadius()==0&&k.Height()==0,"fru/default"); RW(c,k,BottomRadius,a,"fru/b"); RW(c,k,TopRadius,b,"fru/t"); RW(c,k,Height,e,"fru/h"); const auto&q=k; c.check(q.BottomRadius()==a&&q.TopRadius()==b&&q.BottomBase().Radius()==a&&q.TopBase().Radius()==b&&q.IsValid()&&!Frustum(a,b,0).IsValid()&&!Frustum(a,-b,e).IsValid()&&!Frustum(-a,b,e).IsValid(),"fru/acc"); c.close(q.SlantHeight(),std::hypot(a-b,e),t1,"fru/slant"); c.close(q.Volume(),Frustum(b,a,e).Volume(),1e-11*s*s*s,"fru/symmetric"); c.close(q.SurfaceArea()-q.LateralArea(),PI*(a*a+b*b),1e-11*s*s,"fru/bases"); }
  { Tetrahedron k; double v[6]; for(double&x:v) x=s*c.r.uni(.9,1.1); c.check(k.AB()==0&&k.AC()==0&&k.AD()==0&&k.BC()==0&&k.BD()==0&&k.CD()==0,"tet/default"); RW(c,k,AB,v[0],"tet/AB"); RW(c,k,AC,v[1],"tet/AC"); RW(c,k,AD,v[2],"tet/AD"); RW(c,k,BC,v[3],"tet/BC"); RW(c,k,BD,v[4],"tet/BD"); RW(c,k,CD,v[5],"tet/CD"); const auto&q=k; c.check(q.AB()==v[0]&&q.AC()==v[1]&&q.AD()==v[2]&&q.BC()==v[3]&&q.BD()==v[4],"tet/acc"); Tetrahedron z(v[0],v[1],v[2],v[3],v[4],v[5]); c.check(z.AB()==v[0]&&z.AC()==v[1]&&z.AD()==v[2]&&z.BC()==v[3]&&z.BD()==v[4]&&z.CD()==v[5],"tet/ctor");
    auto same=[&](Triangle t,double x,double y,double w){ double p[3]={t.A(),t.B(),t.C()},r[3]={x,y,w}; std::sort(p,p+3); std::sort(r,r+3); return p[0]==r[0]&&p[1]==r[1]&&p[2]==r[2]; }; c.check(same(z.FaceABC(),v[0],v[1],v[3])&&same(z.FaceABD(),v[0],v[2],v[4])&&same(z.FaceACD(),v[1],v[2],v[5])&&same(z.FaceBCD(),v[3],v[4],v[5]),"tet/faces"); c.close(z.FaceABC().Area()+z.FaceABD().Area()+z.FaceACD().Area()+z.FaceBCD().Area(),z.SurfaceArea(),1e-11*s*s,"tet/face-area");
    c.check(Tetrahedron::Regular(2).IsRegular(),"tet/regular"); for(int i=0;i<6;i++){ double w[6]={2,2,2,2,2,2}; w[i]=2.001; Tetrahedron u(w[0],w[1],w[2],w[3],w[4],w[5]); c.check(!u.IsRegular(1e-4)&&u.IsRegular(.01)&&u.Circumradius()==0,"tet/irregular"); } }
  { Spheroid k; c.check(!k.IsValid()&&k.EquatorialRadius()==0&&k.PolarRadius()==0,"spd/default"); RW(c,k,EquatorialRadius,a,"spd/a"); RW(c,k,PolarRadius,b,"spd/c"); const auto&q=k; c.check(q.EquatorialRadius()==a&&q.IsValid()&&!Spheroid(a,0).IsValid()&&!Spheroid(-a,b).IsValid(),"spd/valid"); c.check(Spheroid(2,2).IsSphere()&&!Spheroid(2,3).IsSphere()&&Spheroid(2,2.001).IsSphere(.01)&&!Spheroid(2,2.001).IsSphere(1e-4)&&!Spheroid(2,2).IsOblate()&&!Spheroid(2,2).IsProlate(),"spd/sphere"); c.close(Spheroid(a,a).SurfaceArea(),4*PI*a*a,1e-11*s*s,"spd/sphere-area"); double mx=std::max(a,b),mn=std::min(a,b); c.close(q.Eccentricity(),std::sqrt((mx-mn)*(mx+mn))/mx,1e-7,"spd/ecc");
    // nearly spherical and tiny spheroids: area between those of the inscribed and circumscribed spheres
    double d=a*(1+c.r.logmag(-12,-3)); for(Spheroid z:{Spheroid(a,d),Spheroid(d,a),q}){ double lo=std::min(z.EquatorialRadius(),z.PolarRadius()),hi=std::max(z.EquatorialRadius(),z.PolarRadius()); double A=z.SurfaceArea(); c.check(A>=4*PI*lo*lo*(1-1e-7)&&A<=4*PI*hi*hi*(1+1e-7),"spd/area-between",[&]{ return mon::str(A); }); } { double z=c.r.pmag(-9,-5); double f=c.r.uni(.3,3); c.close(Spheroid(z,z*f).SurfaceArea()/(z*z),Spheroid(1,f).SurfaceArea(),1e-9,"spd/area-scales"); }
    Spheroid E=Spheroid::Earth(); c.check(E.IsOblate()&&!E.IsProlate()&&!E.IsSphere(),"spd/earth"); c.close(1/E.Flattening(),298.257223563,1e-5,"spd/earth-f"); c.close(std::sqrt(E.SurfaceArea()/(4*PI)),6371007.18,50,"spd/earth-area"); }
  { TorusGeom k; c.check(!k.IsValid()&&k.MajorRadius()==0&&k.MinorRadius()==0,"tor/default"); RW(c,k,MajorRadius,a,"tor/R"); RW(c,k,MinorRadius,b,"tor/r"); const auto&q=k; c.check(q.MajorRadius()==a&&q.IsValid()&&!TorusGeom(a,0).IsValid()&&!TorusGeom(-a,b).IsValid(),"tor/valid"); c.check(q.IsRingTorus()==(a>b)&&q.IsSpindleTorus()==(a<b)&&!q.IsHornTorus()==(a!=b)&&TorusGeom(a,a).IsHornTorus()&&!TorusGeom(a,a).IsRingTorus()&&!TorusGeom(a,a).IsSpindleTorus(),"tor/kind"); c.check(q.InnerRadius()==a-b&&q.OuterRadius()==a+b&&q.TubeCrossSection().Radius()==b,"tor/acc"); }
  c.ev("solid-shapes");
}

FAMILY(pts,300){
  double s=c.r.pmag(-2,3), x=c.r.uni(-s,s), y=c.r.uni(-s,s), z=c.r.uni(-s,s); if(c.r.coin(.1)) x=0; if(c.r.coin(.1)) y=0; if(c.r.coin(.1)) z=0; c.in("xyz",std::vector<double>{x,y,z}); double T=1e-14*s+1e-300;
  P2 p(x,y); P3 q(x,y,z); Point2Polar o(p); Point3Spherical h(q); Point3Cylindrical k(q);
  c.check(o.TransfToCart().Dist(p)<=4*T&&h.TransfToCart().Dist(q)<=8*T&&k.TransfToCart().Dist(q)<=4*T,"pt/round-trip"); const auto&co=o; const auto&ch=h; const auto&ck=k;
  c.close(co.R(),std::hypot(x,y),2*T,"pol/r"); c.close(co.Phi(),std::atan2(y,x),1e-14,"pol/phi"); c.close(ch.R(),std::hypot(std::hypot(x,y),z),2*T,"sph/r"); c.close(ch.Theta(),std::atan2(std::hypot(x,y),z),1e-14,"sph/theta"); c.close(ch.Phi(),std::atan2(y,x),1e-14,"sph/phi"); c.close(ck.R(),std::hypot(x,y),2*T,"cyl/r"); c.close(ck.Phi(),std::atan2(y,x),1e-14,"cyl/phi"); c.check(ck.Z()==z,"cyl/z");
  Point2Polar o0; Point3Spherical h0; Point3Cylindrical k0; c.check(o0.R()==0&&o0.Phi()==0&&h0.R()==0&&h0.Theta()==0&&h0.Phi()==0&&k0.R()==0&&k0.Phi()==0&&k0.Z()==0&&P2()==P2(0,0)&&P3()==P3(0,0,0),"pt/default");
  RW(c,o0,R,2.5,"pol/R"); RW(c,o0,Phi,.5,"pol/Phi"); RW(c,h0,R,2.5,"sph/R"); RW(c,h0,Theta,.75,"sph/Theta"); RW(c,h0,Phi,.5,"sph/Phi"); RW(c,k0,R,2.5,"cyl/R"); RW(c,k0,Phi,.5,"cyl/Phi"); RW(c,k0,Z,-1.5,"cyl/Z"); c.check(o0==Point2Polar(2.5,.5)&&h0==Point3Spherical(2.5,.75,.5)&&k0==Point3Cylindrical(2.5,.5,-1.5),"pt/fields");
  c.check(o0!=Point2Polar(2.5,.6)&&o0!=Point2Polar(2.4,.5)&&!(o0!=Point2Polar(2.5,.5))&&!(o0==Point2Polar(2.5,.6)),"pol/!="); c.check(h0!=Point3Spherical(2.5,.75,.6)&&h0!=Point3Spherical(2.5,.7,.5)&&h0!=Point3Spherical(2.4,.75,.5)&&!(h0!=Point3Spherical(2.5,.75,.5))&&!(h0==Point3Spherical(2.5,.7,.5)),"sph/!="); c.check(k0!=Point3Cylindrical(2.5,.5,-1)&&k0!=Point3Cylindrical(2.5,.6,-1.5)&&k0!=Point3Cylindrical(2.4,.5,-1.5)&&!(k0!=Point3Cylindrical(2.5,.5,-1.5))&&!(k0==Point3Cylindrical(2.5,.5,-1)),"cyl/!="); c.check(p!=P2(x+1,y)&&p!=P2(x,y+1)&&!(p!=P2(x,y))&&q!=P3(x+1,y,z)&&q!=P3(x,y+1,z)&&q!=P3(x,y,z+1)&&!(q!=P3(x,y,z)),"cart/!=");
  double d=c.r.pmag(-8,0), ep=d*c.r.pick({.5,2.}); bool in=d<ep; P2 p2(x+d*.6,y+d*.8); double real=std::hypot((p2.X()-x),(p2.Y()-y)); if((real<ep)==in) c.check(p.IsEqualTo(p2,ep)==in,"cart/equal-to"); P3 q2(x,y+d*.6,z+d*.8); if((q.Dist(q2)<ep)==in) c.check(q.IsEqualTo(q2,ep)==in,"cart3/equal-to"); Point2Polar oa(2,1),ob(2+d,1); c.check(oa.IsEqualTo(ob,ep)==in,"pol/equal-to"); Point3Spherical ha(2,1,1),hb(2+d,1,1); c.check(ha.IsEqualTo(hb,ep)==in,"sph/equal-to"); Point3Cylindrical ka(2,1,1),kb(2,1,1+d); c.check(ka.IsEqualTo(kb,ep)==in,"cyl/equal-to"); c.ev("pts");
}

FAMILY(lines,200){
  double s=c.r.pmag(-1,2); auto R=[&]{ return c.r.uni(-s,s); }; P2 a(R(),R()),b(R(),R()); P3 u(R(),R(),R()),v(R(),R(),R()); Vector2Cartesian d2(R(),R()); Vec3Cart d3(R(),R(),R()); double t=c.r.uni(-3,3); c.in("a",std::vector<double>{a.X(),a.Y(),b.X(),b.Y(),u.X(),u.Y(),u.Z(),v.X(),v.Y(),v.Z(),d2.X(),d2.Y(),d3.X(),d3.Y(),d3.Z(),t}); double M=1e-13*(s+1);
  if(std::hypot(d2.X(),d2.Y())<1e-3*s||std::hypot(std::hypot(d3.X(),d3.Y()),d3.Z())<1e-3*s||a.Dist(b)<1e-3*s){ c.trivial(); return; }
  Line2D l(a,d2); const Line2D&cl=l; c.check(cl.StartPoint()==a,"line2/start"); double n=std::hypot(d2.X(),d2.Y()); c.check(std::abs(cl.Direction().X()-d2.X()/n)<1e-13&&std::abs(cl.Direction().Y()-d2.Y()/n)<1e-13,"line2/dir"); l.StartPoint()=b; c.check(cl.StartPoint()==b&&cl(0)==b,"line2/move");
  SegmentLine2D g(a,d2,t); const auto&cg=g; c.check(cg.StartPoint()==a&&cg.EndPoint().Dist(P2(a.X()+t*d2.X(),a.Y()+t*d2.Y()))<M*4,"seg2/ctor"); g.StartPoint()=b; g.EndPoint()=a; c.check(cg.StartPoint()==b&&cg.EndPoint()==a,"seg2/mutate"); c.close(cg.Length(),a.Dist(b),M,"seg2/len"); Vector2Cartesian sd=cg.Direction(); c.check(std::abs(sd.X()*(a.Y()-b.Y())-sd.Y()*(a.X()-b.X()))<M*(s+1)*4&&sd.X()*(a.X()-b.X())+sd.Y()*(a.Y()-b.Y())>0,"seg2/dir"); SegmentLine2D dg(a,a); c.check(dg.ClosestPoint(b)==a&&dg.Length()==0,"seg2/degenerate");
  SegmentLine3D h(u,d3,t); const auto&ch=h; c.check(ch.StartPoint()==u&&ch.EndPoint().Dist(P3(u.X()+t*d3.X(),u.Y()+t*d3.Y(),u.Z()+t*d3.Z()))<M*8,"seg3/ctor"); h.StartPoint()=v; h.EndPoint()=u; c.check(ch.StartPoint()==v&&ch.EndPoint()==u,"seg3/mutate"); c.close(ch.Length(),u.Dist(v),M,"seg3/len"); c.check(ch(0).Dist(v)<M&&ch(1).Dist(u)<4*M&&ch(.5).Dist((u+v)*.5)<4*M,"seg3/at");
  // two lines through a common point, two skew lines, a line and its shifted copy
  Line3D m1(u,d3); Vec3Cart w(R(),R(),R()); Vec3Cart cr(d3.Y()*w.Z()-d3.Z()*w.Y(),d3.Z()*w.X()-d3.X()*w.Z(),d3.X()*w.Y()-d3.Y()*w.X()); double cn=std::sqrt(cr.X()*cr.X()+cr.Y()*cr.Y()+cr.Z()*cr.Z()), dn=d3.NormL2(), wn=w.NormL2(); if(cn>.05*dn*wn&&wn>1e-2*s){
    // the common point is u itself, so the classification does not depend on rounding
    auto I=m1.Intersection(Line3D(u,w)); c.check(I.HasIntersection()==I.IsIntersecting()&&I.AreSkew()==I.IsSkew(),"isect/synonyms"); if(c.check(I.IsIntersecting()&&!I.AreSkew()&&!I.IsParallel()&&!I.IsCoincident(),"isect/point")) c.check(I.Point().Dist(u)<1e-9*(s+1)&&I.distance<1e-9*(s+1),"isect/at");
    double off=s*c.r.uni(.3,1); P3 sk(u.X()+cr.X()/cn*off,u.Y()+cr.Y()/cn*off,u.Z()+cr.Z()/cn*off); auto S=m1.Intersection(Line3D(sk,w)); c.check(S.AreSkew()&&S.IsSkew()&&!S.HasIntersection()&&!S.IsIntersecting()&&!S.IsParallel()&&!S.IsCoincident(),"isect/skew"); c.close(S.distance,off,1e-9*(s+1),"isect/skew-dist"); c.ev("line3-pairs"); }
  // planes
  Plane3D X=Plane3D::GetXYPlane(),Y=Plane3D::GetXZPlane(),Z=Plane3D::GetYZPlane(); c.close(X.DistToPoint(u),std::abs(u.Z()),M,"plane/xy"); c.close(Y.DistToPoint(u),std::abs(u.Y()),M,"plane/xz"); c.close(Z.DistToPoint(u),std::abs(u.X()),M,"plane/yz"); c.check(X.IsPointOnPlane(P3(u.X(),u.Y(),0))&&Y.IsPointOnPlane(P3(u.X(),0,u.Z()))&&Z.IsPointOnPlane(P3(0,u.Y(),u.Z())),"plane/on");
  Vec3Cart nn=d3; int zc=c.r.i(0,6); if(zc==1) nn=Vec3Cart(0,d3.Y()+s,d3.Z()); if(zc==2) nn=Vec3Cart(0,0,d3.Z()+2*s); if(zc==3) nn=Vec3Cart(d3.X()+2*s,0,0); if(zc==4) nn=Vec3Cart(0,d3.Y()+2*s,0); if(nn.NormL2()<1e-2*s) return; Plane3D p(u,nn); const auto&cp=p; c.in("n",std::vector<double>{nn.X(),nn.Y(),nn.Z()}); P3 on=p.GetPointOnPlane(); double nrm=nn.NormL2(), far=std::hypot(std::hypot(on.X(),on.Y()),on.Z())+3*s+1; c.close((nn.X()*(on.X()-u.X())+nn.Y()*(on.Y()-u.Y())+nn.Z()*(on.Z()-u.Z()))/nrm,0,1e-12*far,"plane/point-on"); c.check(Vec3Cart(cp.A(),cp.B(),cp.C()).X()==cp.Normal().X()&&cp.B()==cp.Normal().Y()&&cp.C()==cp.Normal().Z(),"plane/abc");
  double sx,sy,sz; p.GetCoordAxisSegments(sx,sy,sz); double D=cp.A()*u.X()+cp.B()*u.Y()+cp.C()*u.Z(); auto seg=[&](double got,double co,const char*key){ if(co==0) c.check(std::isinf(got)&&got>0,key); else c.close(got,D/co,1e-12*std::abs((std::abs(cp.A())+std::abs(cp.B())+std::abs(cp.C()))*3*s/co)+1e-300,key); }; seg(sx,cp.A(),"plane/seg-x"); seg(sy,cp.B(),"plane/seg-y"); seg(sz,cp.C(),"plane/seg-z");
  double e1=c.r.logmag(-1,1),e2=c.r.logmag(-1,1),e3=c.r.logmag(-1,1); Plane3D q(e1,e2,e3); q.GetCoordAxisSegments(sx,sy,sz); c.close(sx,e1,1e-13*std::abs(e1),"plane/from-seg-x"); c.close(sy,e2,1e-13*std::abs(e2),"plane/from-seg-y"); c.close(sz,e3,1e-13*std::abs(e3),"plane/from-seg-z"); c.check(q.IsPointOnPlane(P3(e1,0,0))&&q.IsPointOnPlane(P3(0,e2,0))&&q.IsPointOnPlane(P3(0,0,e3))&&q.DistToPoint(P3(0,0,0))>1e-3,"plane/from-seg");
  RW(c,q,A,1.5,"plane/A"); RW(c,q,B,-2.5,"plane/B"); RW(c,q,C,3.5,"plane/C"); RW(c,q,D,.25,"plane/D"); c.close(q.DistToPoint(u),std::abs(1.5*u.X()-2.5*u.Y()+3.5*u.Z()+.25)/std::sqrt(1.5*1.5+2.5*2.5+3.5*3.5),M*4,"plane/abcd-dist"); c.ev("planes");
}

FAMILY(polys,200){
  // star-shaped polygon around a centre: simple by construction
  int n=(int)c.r.sz(3,14,80); double s=c.r.pmag(0,2); P2 o(c.r.uni(-s,s),c.r.uni(-s,s)); std::vector<P2> v; double th=c.r.uni(0,6); for(int i=0;i<n;i++){ double r=s*c.r.uni(.3,1), a=th+2*PI*(i+c.r.uni(-.3,.3))/n; v.push_back(P2(o.X()+r*std::cos(a),o.Y()+r*std::sin(a))); } std::vector<double> f; for(auto&q:v){ f.push_back(q.X()); f.push_back(q.Y()); } c.in("poly",f); double M=1e-12*(s+1);
  Polygon2D p; c.check(p.NumVertices()==0&&p.Perimeter()==0&&p.Area()==0&&!p.IsSimple(),"empty"); c.throws<GeometryError>([&]{ p.Centroid(); },"empty-centroid"); c.throws<GeometryError>([&]{ p.GetBoundingBox(); },"empty-bb"); c.throws<VectorAccessBoundsError>([&]{ p.Edge(0); },"empty-edge"); c.throws<VectorAccessBoundsError>([&]{ p.Vertex(0); },"empty-vertex");
  for(int i=0;i<n;i++){ p.AddVertex(v[i]); c.check(p.NumVertices()==i+1&&p.Vertex(i)==v[i]&&p[i]==v[i],"add"); if(i==0) c.check(p.Centroid()==v[0]&&p.Perimeter()==0,"one"); if(i==1){ c.check(p.Centroid().Dist((v[0]+v[1])*.5)<M,"two"); c.close(p.Perimeter(),2*v[0].Dist(v[1]),M,"two-perimeter"); c.check(p.Area()==0&&p.Triangularization().empty(),"two-area"); } }
  const Polygon2D&k=p; c.check(k.Vertices()==v,"vertices"); double per=0; long double A=0,cx=0,cy=0,x0=1e300,x1=-1e300,y0=1e300,y1=-1e300; for(int i=0;i<n;i++){ P2 a=v[i],b=v[(i+1)%n]; per+=a.Dist(b); long double cr=((long double)a.X()-o.X())*((long double)b.Y()-o.Y())-((long double)a.Y()-o.Y())*((long double)b.X()-o.X()); A+=cr/2; cx+=cr/6*((long double)a.X()+b.X()-2*(long double)o.X()); cy+=cr/6*((long double)a.Y()+b.Y()-2*(long double)o.Y()); x0=std::min(x0,(long double)a.X()); x1=std::max(x1,(long double)a.X()); y0=std::min(y0,(long double)a.Y()); y1=std::max(y1,(long double)a.Y());
    auto e=k.Edge(i); c.check(e.StartPoint()==a&&e.EndPoint()==b,"edge"); }
  c.throws<VectorAccessBoundsError>([&]{ k.Edge(n); },"edge-range"); c.throws<VectorAccessBoundsError>([&]{ k.Edge(-1); },"edge-range-"); c.throws<VectorAccessBoundsError>([&]{ k.Vertex(n); },"vertex-range"); c.throws<VectorAccessBoundsError>([&]{ k.Vertex(-1); },"vertex-range-");
  c.close(k.Perimeter(),per,M*n,"perimeter"); c.close(k.SignedArea(),(double)A,M*s*20,"area"); c.check(k.Centroid().Dist(P2((double)(cx/A+o.X()),(double)(cy/A+o.Y())))<M*1000,"centroid"); auto bb=k.GetBoundingBox(); c.check(bb.minX==x0&&bb.maxX==x1&&bb.minY==y0&&bb.maxY==y1,"bb"); c.close(bb.Width(),(double)(x1-x0),M,"bb-w"); c.close(bb.Height(),(double)(y1-y0),M,"bb-h"); c.check(bb.Center().Dist(P2((double)(x0+x1)/2,(double)(y0+y1)/2))<M,"bb-centre");
  c.check(k.IsCounterClockwise()&&!k.IsClockwise()&&k.IsSimple(),"ccw"); Polygon2D r=p; r.Reverse(); c.close(r.SignedArea(),-k.SignedArea(),M*s*20,"reverse-area"); c.check(r.IsClockwise()&&!r.IsCounterClockwise()&&r[0]==v[n-1]&&r[n-1]==v[0],"reverse"); r.Reverse(); c.check(r.Vertices()==v,"reverse-twice");
  // fan triangulation of a convex polygon covers it exactly
  std::vector<P2> cv; double ax=s*c.r.uni(.5,2); for(int i=0;i<n;i++){ double t=2*PI*(i+.5*c.r.uni(0,1))/n; cv.push_back(P2(o.X()+ax*std::cos(t),o.Y()+s*std::sin(t))); } Polygon2D q(cv); auto T=q.Triangularization(); c.check((int)T.size()==n-2&&q.IsConvex(),"fan-count"); double sum=0; for(auto&t:T){ sum+=t.SignedArea(); c.check(t.SignedArea()>0,"fan-orientation"); } c.close(sum,q.SignedArea(),M*s*40,"fan-area");
  p[0]=P2(1,2); c.check(k.Vertex(0)==P2(1,2),"mutate"); p.Vertices()[1]=P2(3,4); c.check(k[1]==P2(3,4),"mutate2"); p.Clear(); c.check(p.NumVertices()==0&&p.Vertices().empty(),"clear"); Polygon2D li{P2(0,0),P2(1,0),P2(0,1)}; c.check(li.NumVertices()==3&&li.Area()==.5,"list"); c.throws<GeometryError>([&]{ Polygon2D({P2(0,0),P2(1,1),P2(2,2)}).Centroid(); },"degenerate-centroid"); c.ev("poly");
}

static Real Y1(Real){ return -2; } static Real Y2(Real){ return 3; } static Real Z1(Real,Real){ return -.5; } static Real Z2(Real,Real){ return 4; } static Real DN(const VectorN<Real,3>& x){ return 1+x[0]*x[0]+2*x[1]; }
FAMILY(bounds,200){
  double s=c.r.pmag(-1,2); auto R=[&]{ return c.r.uni(-s,s); }; P3 a(R(),R(),R()),b(R(),R(),R()),p(R(),R(),R()); double M=1e-13*(s+1); c.in("ab",std::vector<double>{a.X(),a.Y(),a.Z(),b.X(),b.Y(),b.Z(),p.X(),p.Y(),p.Z()});
  { Box2D u; const auto&k=u; c.check(k.Min()==P2(0,0)&&k.Max()==P2(1,1),"box2/default"); Box2D ub=Box2D::UnitBox(); c.check(ub.Min()==P2(0,0)&&ub.Max()==P2(1,1)&&ub.Area()==1,"box2/unit"); Box2D q(P2(a.X(),a.Y()),P2(b.X(),b.Y())); c.close(q.Size().X(),std::abs(a.X()-b.X()),M,"box2/size-x"); c.close(q.Size().Y(),std::abs(a.Y()-b.Y()),M,"box2/size-y"); c.close(q.AspectRatio(),q.Width()/q.Height(),0,"box2/aspect"); Box2D t=q.Translated(Vector2Cartesian(1,-2)); c.check(t.Min().Dist(P2(q.MinX()+1,q.MinY()-2))<M&&t.Max().Dist(P2(q.MaxX()+1,q.MaxY()-2))<M,"box2/translated"); c.check(!Box2D(0,0,1,2).IsDegenerate()&&Box2D(0,0,1,0).IsDegenerate()&&Box2D(0,0,0,1).IsDegenerate()&&Box2D(0,0,.001,1).IsDegenerate(.01)&&Box2D(0,0,1,.001).IsDegenerate(.01)&&!Box2D(0,0,1,.1).IsDegenerate(.01),"box2/degenerate"); Box2D none=Box2D(0,0,1,1).Intersection(Box2D(2,2,3,3)); c.check(none.Area()==0&&!Box2D(0,0,1,1).Intersects(Box2D(2,2,3,3)),"box2/no-overlap"); u.Min()=P2(-1,-2); u.Max()=P2(3,4); c.check(k.Min()==P2(-1,-2)&&k.Max()==P2(3,4)&&k.Area()==24,"box2/mutate"); 
    Circle2D d; c.check(d.Center()==P2(0,0)&&d.Radius()==1,"circle2/default"); Circle2D un=Circle2D::UnitCircle(); c.check(un.Radius()==1&&un.Center()==P2(0,0)&&un.Diameter()==2,"circle2/unit"); c.close(un.Perimeter(),2*PI,1e-13,"circle2/perimeter"); c.throws<GeometryError>([&]{ Circle2D(P2(0,0),-1); },"circle2/negative"); }
  { BoundingSphere3D z; c.check(z.Center()==P3(0,0,0)&&z.Radius()==0&&z.Volume()==0,"bs/default"); double r=s*c.r.uni(.1,1); BoundingSphere3D S(a,r); c.close(S.Volume(),4*PI/3*r*r*r,1e-12*r*r*r*10,"bs/volume"); double d=a.Dist(p); if(std::abs(d-r)>1e-9*s) c.check(S.Contains(p)==(d<r),"bs/contains"); double r2=s*c.r.uni(.1,1); double db=a.Dist(b); if(std::abs(db-r-r2)>1e-9*s) c.check(S.Intersects(BoundingSphere3D(b,r2))==(db<r+r2),"bs/intersects"); BoundingSphere3D E=S; E.ExpandToInclude(p); c.close(E.Radius(),std::max(r,d),M,"bs/expand"); c.check(E.Center()==a&&E.Contains(p),"bs/expand-in"); c.throws<std::exception>([&]{ BoundingSphere3D(a,-1); },"bs/negative"); BoundingSphere3D s2(P3(1.5,-2.5,3.5),4.25); std::string t=s2.ToString(); size_t i1=t.find("1.5"),i2=t.find("-2.5"),i3=t.find("3.5",i2==std::string::npos?0:i2),i4=t.find("4.25"); c.check(i1<i2&&i2<i3&&i3<i4&&i4!=std::string::npos,"bs/string"); }
  { Box3D u; const auto&k=u; c.check(k.Min()==P3(0,0,0)&&k.Max()==P3(1,1,1)&&Box3D::UnitBox().Volume()==1&&Box3D::UnitCube().Min()==P3(0,0,0)&&Box3D::UnitCube().Max()==P3(1,1,1)&&Box3D::CenteredUnitCube().Center()==P3(0,0,0)&&Box3D::CenteredUnitCube().Volume()==1&&Box3D::CenteredUnitCube().Max()==P3(.5,.5,.5),"box3/preset"); double hx=s*c.r.u01(),hy=s*c.r.u01(),hz=s*c.r.u01(); Box3D h=Box3D::FromCenterAndHalfExtents(a,Vec3Cart(hx,hy,hz)),h2=Box3D::FromCenterAndHalfExtents(a,hx,hy,hz),h3=Box3D::FromCenterAndSize(a,2*hx,2*hy,2*hz); for(const Box3D*q:{&h,&h2,&h3}){ c.check(q->Center().Dist(a)<M*4,"box3/centre"); c.close(q->Width(),2*hx,4*M,"box3/w"); c.close(q->Height(),2*hy,4*M,"box3/h"); c.close(q->Depth(),2*hz,4*M,"box3/d"); c.close(q->Size().X(),2*hx,4*M,"box3/sx"); c.close(q->Size().Y(),2*hy,4*M,"box3/sy"); c.close(q->Size().Z(),2*hz,4*M,"box3/sz"); }
    c.check(Box3D(0,0,0,1,1,1).Intersection(Box3D(2,0,0,3,1,1)).Volume()==0&&Box3D(0,0,0,1,1,1).Intersection(Box3D(0,2,0,1,3,1)).Volume()==0&&Box3D(0,0,0,1,1,1).Intersection(Box3D(0,0,2,1,1,3)).Volume()==0,"box3/no-overlap"); c.check(!Box3D(0,0,0,1,2,3).IsDegenerate()&&Box3D(0,0,0,0,2,3).IsDegenerate()&&Box3D(0,0,0,1,0,3).IsDegenerate()&&Box3D(0,0,0,1,2,0).IsDegenerate()&&Box3D(0,0,0,1,2,.001).IsDegenerate(.01)&&!Box3D(0,0,0,1,2,.1).IsDegenerate(.01),"box3/degenerate"); std::string t=Box3D(1.25,2.25,3.25,4.5,5.5,6.5).ToString(); size_t pos=0; bool ok=true; for(const char*w:{"1.25","2.25","3.25","4.5","5.5","6.5","3.25","3.25","3.25"}){ pos=t.find(w,pos); if(pos==std::string::npos){ ok=false; break; } pos++; } c.check(ok,"box3/string",[&]{ return t; }); u.Min()=P3(-1,-2,-3); u.Max()=P3(1,2,3); c.check(k.Min()==P3(-1,-2,-3)&&k.Max()==P3(1,2,3)&&k.Volume()==48,"box3/mutate"); Box3D q(a,b); auto cs=q.Corners(); std::set<std::array<double,3>> ds; for(auto&x:cs){ ds.insert({x.X(),x.Y(),x.Z()}); c.check((x.X()==q.MinX()||x.X()==q.MaxX())&&(x.Y()==q.MinY()||x.Y()==q.MaxY())&&(x.Z()==q.MinZ()||x.Z()==q.MaxZ()),"box3/corner"); } c.check(cs.size()==8&&ds.size()==8,"box3/corners"); }
  // bodies bounded by functions: constant bounds make a box, whose centre, bounds and sphere are known
  { SolidBodyWithBoundary B(-1,5,Y1,Y2,Z1,Z2,DN); SolidBodyWithBoundaryConstDensity C(-1,5,Y1,Y2,Z1,Z2,2.5); double x=c.r.uni(-3,7),y=c.r.uni(-4,5),z=c.r.uni(-2,6); bool in=x>-1&&x<5&&y>-2&&y<3&&z>-.5&&z<4; for(const ISolidBodyWithBoundary*w:{(const ISolidBodyWithBoundary*)&B,(const ISolidBodyWithBoundary*)&C}){ c.check(w->GetCenter().Dist(P3(2,.5,1.75))<1e-14,"fbody/centre"); Box3D bb=w->GetBoundingBox(); c.check(bb.Min()==P3(-1,-2,-.5)&&bb.Max()==P3(5,3,4),"fbody/box"); auto S=w->GetBoundingSphere(); c.close(S.Radius(),.5*std::sqrt(36+25+4.5*4.5),1e-13,"fbody/sphere"); c.check(S.Center().Dist(P3(2,.5,1.75))<1e-14,"fbody/sphere-centre"); c.check(w->IsInside(P3(x,y,z))==in,"fbody/inside"); c.throws<NotImplementedError>([&]{ w->Volume(); },"fbody/volume"); c.throws<NotImplementedError>([&]{ w->SurfaceArea(); },"fbody/area"); c.check(!w->ToString().empty(),"fbody/string"); } VectorN<Real,3> P{x,y,z}; c.close(B.getDensity(P),1+x*x+2*y,1e-13*100,"fbody/density"); c.check(C.getDensity(P)==2.5,"fbody/const-density");
    SolidBodyWithBoundaryConstDensity D(10,11,Y1,Y2,Z1,Z2,1); ComposedSolidSurfaces3D K({&B}); K.AddSolid(&D); c.check(K.GetSolidCount()==2&&K.GetSolid(0)==&B&&K.GetSolid(1)==&D,"comp/get"); const auto&ck=K; c.check(ck.GetSolid(1)==&D&&K.IsInside(P3(10.5,0,0))&&K.IsInside(P3(0,0,0))&&!K.IsInside(P3(8,0,0))&&!ComposedSolidSurfaces3D().IsInside(P3(0,0,0)),"comp/inside"); }
  { double A=s*c.r.uni(.3,1); Vec3Cart o(a.X(),a.Y(),a.Z()); PyramidEquilateral3D q(A),q2(A,o); c.check(q.GetBaseSize()==A&&q2.GetBaseSize()==A&&q.GetHeight()==q2.GetHeight(),"pyr/acc"); c.close(q.GetHeight(),A/std::sqrt(3.0),1e-13*A,"pyr/height"); c.close(q2.Volume(),A*A*q.GetHeight()/3,1e-12*A*A*A,"pyr/volume"); c.check(q2.GetBaseCenter().X()==o.X()&&q2.GetBaseCenter().Y()==o.Y()&&q2.GetBaseCenter().Z()==o.Z()&&!q.ToString().empty(),"pyr/centre"); c.close(q2.GetCenter().Z()-o.Z(),A/std::sqrt(3.0)/4,1e-12*(s+A),"pyr/centroid");
    Sphere3D S(A,a,8,12); c.check(S.GetRadius()==A&&S.GetNumLatitude()==8&&S.GetNumLongitude()==12,"sphere3/acc"); Torus3D T(2*A,A*.5,a,9,7); c.check(T.GetMajorRadius()==2*A&&T.GetMinorRadius()==A*.5&&T.GetNumU()==9&&T.GetNumV()==7,"torus3/acc"); Cylinder3D Y(A,2*A,a,11); c.check(Y.GetRadius()==A&&Y.GetHeight()==2*A&&Y.GetNumSegments()==11&&Y.GetBaseCenter()==a,"cyl3/acc"); Cube3D Q(A); CubeWithTriangles3D W(A); c.check(Q.GetSide()==A&&W.GetSide()==A,"cube/acc"); c.throws<std::exception>([&]{ Q.GetSurface(Q.GetSurfaceCount()); },"cube/range"); c.throws<std::exception>([&]{ W.GetSurface(-1); },"cube/range-"); }
  c.ev("bounds");
}
MON_MAIN()
