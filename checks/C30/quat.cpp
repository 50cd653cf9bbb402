// C30: quaternion algebra, rotation conversions and geometric vector types against long-double references.
#include "mon.h"
#include "MMLBase.h"
#include "base/Vector/VectorTypes.h"
#include "base/Quaternions.h"
#include "base/BaseUtils.h"
#include <array>
using namespace MML;
typedef long double L; static const L PIl=3.14159265358979323846264338327950288L;
struct Q{ L w,x,y,z; }; struct V{ L x,y,z; }; typedef std::array<std::array<L,3>,3> M3;
static Q mul(Q a,Q b){ return {a.w*b.w-a.x*b.x-a.y*b.y-a.z*b.z, a.w*b.x+a.x*b.w+a.y*b.z-a.z*b.y, a.w*b.y-a.x*b.z+a.y*b.w+a.z*b.x, a.w*b.z+a.x*b.y-a.y*b.x+a.z*b.w}; }
static Q q(const Quaternion&a){ return {a.w(),a.x(),a.y(),a.z()}; } static L n2(Q a){ return a.w*a.w+a.x*a.x+a.y*a.y+a.z*a.z; }
static L dq(const Quaternion&a,Q b){ return std::max(std::max(fabsl(a.w()-b.w),fabsl(a.x()-b.x)),std::max(fabsl(a.y()-b.y),fabsl(a.z()-b.z))); }
static M3 rot(V n,L a){ L s=sqrtl(n.x*n.x+n.y*n.y+n.z*n.z); L x=n.x/s,y=n.y/s,z=n.z/s,C=cosl(a),S=sinl(a),D=1-C; return {{{C+x*x*D,x*y*D-z*S,x*z*D+y*S},{y*x*D+z*S,C+y*y*D,y*z*D-x*S},{z*x*D-y*S,z*y*D+x*S,C+z*z*D}}}; }
static M3 mm(const M3&a,const M3&b){ M3 r{}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<3;k++) r[i][j]+=a[i][k]*b[k][j]; return r; }
static V mv(const M3&a,V v){ return {a[0][0]*v.x+a[0][1]*v.y+a[0][2]*v.z,a[1][0]*v.x+a[1][1]*v.y+a[1][2]*v.z,a[2][0]*v.x+a[2][1]*v.y+a[2][2]*v.z}; }
static M3 qm(Q a){ L n=n2(a); M3 r; r[0]={1-2*(a.y*a.y+a.z*a.z)/n,2*(a.x*a.y-a.w*a.z)/n,2*(a.x*a.z+a.w*a.y)/n}; r[1]={2*(a.x*a.y+a.w*a.z)/n,1-2*(a.x*a.x+a.z*a.z)/n,2*(a.y*a.z-a.w*a.x)/n}; r[2]={2*(a.x*a.z-a.w*a.y)/n,2*(a.y*a.z+a.w*a.x)/n,1-2*(a.x*a.x+a.y*a.y)/n}; return r; }
template<class A> static L dm(const A&a,const M3&b){ L e=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) e=std::max(e,fabsl(a[i][j]-b[i][j])); return e; }
static L dv(const Vec3Cart&a,V b){ return std::max(fabsl(a.X()-b.x),std::max(fabsl(a.Y()-b.y),fabsl(a.Z()-b.z))); }
static V v(const Vec3Cart&a){ return {a.X(),a.Y(),a.Z()}; }
static Vec3Cart unit(mon::Case&c){ for(;;){ Vec3Cart n; int k=c.r.i(0,9); if(k<3){ n=Vec3Cart(0,0,0); n[k]=c.r.coin()?1:-1; return n; } if(k<5){ n=Vec3Cart(c.r.i(-1,1),c.r.i(-1,1),c.r.i(-1,1)); } else n=Vec3Cart(c.r.uni(-1,1),c.r.uni(-1,1),c.r.uni(-1,1)); L s=sqrtl((L)n.X()*n.X()+(L)n.Y()*n.Y()+(L)n.Z()*n.Z()); if(s<.05L) continue; return Vec3Cart((double)(n.X()/s),(double)(n.Y()/s),(double)(n.Z()/s)); } }
static double angle(mon::Case&c){ switch(c.r.i(0,6)){ case 0: return c.r.i(-8,8)*Constants::PI/4; case 1: return Constants::PI+c.r.logmag(-12,-1); case 2: return c.r.logmag(-12,-1); case 3: return c.r.uni(-30,30); default: return c.r.uni(-3.2,3.2);} }
static Quaternion rq(mon::Case&c,double s){ return Quaternion(s*c.r.uni(-1,1),s*c.r.uni(-1,1),s*c.r.uni(-1,1),s*c.r.uni(-1,1)); }
static void inq(mon::Case&c,const char*n,const Quaternion&a){ c.in(n,std::vector<double>{a.w(),a.x(),a.y(),a.z()}); }
static const V X{1,0,0},Y{0,1,0},Z{0,0,1};

FAMILY(algebra,800){
  double s=c.r.pmag(-3,3),t=c.r.pmag(-3,3),k=c.r.logmag(-2,2); Quaternion a=rq(c,s),b=rq(c,t),d=rq(c,s); inq(c,"a",a); inq(c,"b",b); double tol=1e-15*s*t*8; Q p=mul(q(a),q(b));
  c.check(dq(a*b,p)<=tol,"mul"); Quaternion m=a; m*=b; c.check(m==a*b,"mul-assign"); Quaternion sq=a; sq*=sq; c.check(dq(sq,mul(q(a),q(a)))<=1e-14*s*s,"self-mul"); c.check(dq(a+b,{(L)a.w()+b.w(),(L)a.x()+b.x(),(L)a.y()+b.y(),(L)a.z()+b.z()})<=1e-15*(s+t),"add"); c.check(dq(a-b,{(L)a.w()-b.w(),(L)a.x()-b.x(),(L)a.y()-b.y(),(L)a.z()-b.z()})<=1e-15*(s+t),"sub"); Quaternion e=a; e+=b; c.check(e==a+b,"add-assign"); e=a; e-=b; c.check(e==a-b,"sub-assign"); c.check(-a+a==Quaternion(0,0,0,0),"neg");
  e=a; e*=k; c.check(e==a*k&&k*a==a*k,"scale"); c.check(dq(a/k,{a.w()/(L)k,a.x()/(L)k,a.y()/(L)k,a.z()/(L)k})<=1e-15*s/std::abs(k)*2,"div"); c.close(a.NormSquared(),(double)n2(q(a)),1e-15*s*s*8,"norm2"); c.close(a.Norm(),(double)sqrtl(n2(q(a))),1e-15*s*4,"norm"); Quaternion cj=a.Conjugate(); c.check(cj==Quaternion(a.w(),-a.x(),-a.y(),-a.z()),"conj"); c.close(a.Dot(b),(double)((L)a.w()*b.w()+(L)a.x()*b.x()+(L)a.y()*b.y()+(L)a.z()*b.z()),1e-15*s*t*8,"dot");
  c.check(a.Scalar()==a.w()&&a.Vector().X()==a.x()&&a[2]==a.y()&&a.Vector().Z()==a.z()&&Quaternion(a.w(),a.Vector())==a&&Quaternion(a.Vector())==Quaternion(0,a.x(),a.y(),a.z())&&Quaternion()==Quaternion::Identity(),"parts");
  if(n2(q(a))>1e-10L){ L n=n2(q(a)); c.check(dq(a.Inverse(),{a.w()/n,-a.x()/n,-a.y()/n,-a.z()/n})<=1e-14/(double)sqrtl(n),"inverse"); Quaternion id=a*a.Inverse(); c.check(id.isIdentity(1e-13),"inv-identity"); Quaternion u=a.Normalized(); c.check(u.isUnit(1e-14)&&dq(u,{a.w()/sqrtl(n),a.x()/sqrtl(n),a.y()/sqrtl(n),a.z()/sqrtl(n)})<1e-14,"normalized"); Quaternion w=a; w.Normalize(); c.check(w==u,"normalize"); if(std::abs((double)n-1)>1e-3) c.check(!a.isUnit(1e-4),"not-unit"); c.ev("inverse"); }
  c.check(a.isApprox(a,1e-300)&&a==a&&!(a!=a)&&!a.isApprox(a+Quaternion(0,0,2e-3*s+1,0),1e-6),"approx"); c.throws<QuaternionError>([]{ Quaternion(0,0,0,0).Inverse(); },"inv0"); c.throws<QuaternionError>([]{ Quaternion(0,0,0,0).Normalize(); },"norm0"); c.throws<QuaternionError>([]{ Quaternion(0,0,0,0).Normalized(); },"norm0"); (void)d; }

FAMILY(rotate,800){
  Vec3Cart n=unit(c); double a=angle(c),s=c.r.pmag(-3,3); Vec3Cart w(s*c.r.uni(-1,1),s*c.r.uni(-1,1),s*c.r.uni(-1,1)); c.in("axis",std::vector<double>{n.X(),n.Y(),n.Z()}); c.in("angle",a); M3 R=rot(v(n),a); Quaternion u=Quaternion::FromAxisAngle(n,a); c.check(u.isUnit(1e-14),"unit"); double tol=1e-14*s;
  c.check(dv(u.Rotate(w),mv(R,v(w)))<=tol,"rotate",[&]{ return mon::str((double)dv(u.Rotate(w),mv(R,v(w)))); }); c.check(dv((-u).Rotate(w),mv(R,v(w)))<=tol,"double-cover"); auto m=u.ToRotationMatrix(); c.check(dm(m,R)<1e-14,"matrix"); Vec3Cart back=u.Conjugate().Rotate(u.Rotate(w)); c.check(dv(back,v(w))<=2*tol,"inverse-rotate"); c.close(u.Rotate(w).NormL2(),w.NormL2(),tol,"length");
  { Quaternion pr=u*Quaternion(w)*u.Conjugate(); c.check(std::abs(pr.w())<=tol&&dv(pr.Vector(),mv(R,v(w)))<=tol,"sandwich"); }
  // axis and angle back again
  Vec3Cart ax; double an; u.ToAxisAngle(ax,an); c.check(an==u.GetRotationAngle()&&(ax-u.GetRotationAxis()).NormL2()==0,"axis-angle/same"); c.check(std::abs(ax.NormL2()-1)<1e-13&&an>=0&&an<=2*Constants::PI+1e-12,"axis-angle/range"); c.check(dm(Quaternion::FromAxisAngle(ax,an).ToRotationMatrix(),R)<1e-5,"axis-angle"); L sh=fabsl(sinl((L)a/2)); if(sh>1e-3&&fabsl(cosl((L)a/2))<.9999L) c.check(dm(Quaternion::FromAxisAngle(ax,an).ToRotationMatrix(),R)<1e-11,"axis-angle/tight");
  // matrix -> quaternion, every branch
  MatrixNM<Real,3,3> RM; for(int i=0;i<3;i++) for(int j=0;j<3;j++) RM(i,j)=(double)R[i][j]; Quaternion f=Quaternion::FromRotationMatrix(RM); c.check(f.isUnit(1e-12),"from-matrix/unit"); c.check(dm(f.ToRotationMatrix(),R)<1e-12,"from-matrix",[&]{ return mon::str((double)dm(f.ToRotationMatrix(),R)); }); if(RM(0,0)+RM(1,1)+RM(2,2)>0) c.ev("trace+"); else if(RM(0,0)>RM(1,1)&&RM(0,0)>RM(2,2)) c.ev("branch-x"); else if(RM(1,1)>RM(2,2)) c.ev("branch-y"); else c.ev("branch-z");
  // composition and interpolation
  Vec3Cart n2_=unit(c); double b=angle(c); Quaternion g=Quaternion::FromAxisAngle(n2_,b); M3 S=rot(v(n2_),b); c.check(dm((g*u).ToRotationMatrix(),mm(S,R))<1e-13,"compose"); c.check(dv((g*u).Rotate(w),mv(S,mv(R,v(w))))<=4*tol,"compose-rotate");
  Quaternion s0=Quaternion::Slerp(u,g,0),s1=Quaternion::Slerp(u,g,1); c.check(dm(s0.ToRotationMatrix(),R)<1e-7,"slerp0"); c.check(dm(s1.ToRotationMatrix(),S)<1e-7,"slerp1"); double t=c.r.u01(); Quaternion st=Quaternion::Slerp(u,g,t); c.check(st.isUnit(1e-9),"slerp/unit",[&]{ return mon::str(st.NormSquared()-1); }); L cs=fabsl((L)u.Dot(g)); L th=acosl(std::min((L)1,cs)); { L c1=fabsl((L)st.Dot(u)); c.check(fabsl(acosl(std::min((L)1,c1))-t*th)<2e-5L,"slerp/angle",[&]{ return mon::str((double)(acosl(std::min((L)1,c1))-t*th)); }); c.check(fabsl(acosl(std::min((L)1,fabsl((L)st.Dot(g))))-(1-t)*th)<2e-5L,"slerp/angle2"); if(th>.05L){ c.check(fabsl(acosl(std::min((L)1,c1))-t*th)<3e-8L/std::max((L)1e-3L,std::min(sinl(th),(L)1)),"slerp/angle-tight"); c.ev("slerp"); } } c.check(dm(Quaternion::Slerp(u,u,t).ToRotationMatrix(),R)<1e-13,"slerp/same"); c.check(dm(Quaternion::Slerp(u,-u,t).ToRotationMatrix(),R)<1e-13,"slerp/opposite-sign"); Quaternion le=Quaternion::Lerp(u,g,t); c.check(dq(le,{u.w()*(1-(L)t)+g.w()*(L)t,u.x()*(1-(L)t)+g.x()*(L)t,u.y()*(1-(L)t)+g.y()*(L)t,u.z()*(1-(L)t)+g.z()*(L)t})<1e-15,"lerp"); }

FAMILY(euler,800){
  double y=angle(c),p=angle(c),r=angle(c); int k=c.r.i(0,3); if(k==0) p=(c.r.coin()?1:-1)*Constants::PI/2; else if(k==1) p=(c.r.coin()?1:-1)*(Constants::PI/2-c.r.pmag(-15,-2)); c.in("ypr",std::vector<double>{y,p,r}); M3 R=mm(mm(rot(Z,y),rot(Y,p)),rot(X,r)); Quaternion u=Quaternion::FromEulerZYX(y,p,r); c.check(u.isUnit(1e-14),"unit"); c.check(dm(u.ToRotationMatrix(),R)<1e-14*8,"zyx"); M3 R2=mm(mm(rot(X,r),rot(Y,p)),rot(Z,y)); c.check(dm(Quaternion::FromEulerXYZ(r,p,y).ToRotationMatrix(),R2)<1e-13,"xyz");
  Vec3Cart e=u.ToEulerZYX(); c.check(std::abs(e[1])<=Constants::PI/2+1e-15&&std::abs(e[0])<=Constants::PI+1e-15&&std::abs(e[2])<=Constants::PI+1e-15,"range"); L d=dm(Quaternion::FromEulerZYX(e[0],e[1],e[2]).ToRotationMatrix(),R); c.check(d<2e-14*10,"euler-back",[&]{ return mon::str((double)d); }); c.ev(std::abs(std::abs(e[1])-Constants::PI/2)<1e-6?"gimbal":"regular"); if(std::abs(p)<1.4&&std::abs(y)<3.1&&std::abs(r)<3.1) c.check(std::abs(e[0]-y)<1e-12&&std::abs(e[1]-p)<1e-12&&std::abs(e[2]-r)<1e-12,"angles"); }

// geometric vectors: algebra of the represented arrows, in whatever coordinates they are written
static V sph(const Vector3Spherical&a){ return {a.R()*sinl(a.Theta())*cosl(a.Phi()),a.R()*sinl(a.Theta())*sinl(a.Phi()),a.R()*cosl(a.Theta())}; } static V cyl(const Vector3Cylindrical&a){ return {a.R()*cosl(a.Phi()),a.R()*sinl(a.Phi()),a.Z()}; } static V pol(const Vector2Polar&a){ return {a.R()*cosl(a.Phi()),a.R()*sinl(a.Phi()),0}; }
static L D(V a,V b){ return std::max(fabsl(a.x-b.x),std::max(fabsl(a.y-b.y),fabsl(a.z-b.z))); } static V ad(V a,V b,L k){ return {a.x+k*b.x,a.y+k*b.y,a.z+k*b.z}; } static V sc(V a,L k){ return {k*a.x,k*a.y,k*a.z}; }
FAMILY(curvilinear,700){
  double s=c.r.pmag(-3,3),t=c.r.i(0,2)?s:c.r.pmag(-3,3),k=c.r.logmag(-1,1); double ph=c.r.uni(-7,7),p2=c.r.i(0,3)==0?ph+c.r.logmag(-12,-6):c.r.uni(-7,7); c.in("k",k); c.in("phi",std::vector<double>{ph,p2}); double tol=1e-14*(s+t);
  double r1=s*c.r.uni(0,1),r2=c.r.i(0,3)==0?r1:t*c.r.uni(0,1); if(c.r.i(0,9)==0){ r2=r1; p2=ph; } Vector2Polar a(r1,ph),b(r2,p2); c.check(D(pol(a+b),ad(pol(a),pol(b),1))<=tol,"polar/add"); V df=pol(a-b); c.check(D(df,ad(pol(a),pol(b),-1))<=tol,"polar/sub",[&]{ return mon::str((double)D(df,ad(pol(a),pol(b),-1))); }); c.check(D(pol(-a),sc(pol(a),-1))<=tol,"polar/neg"); c.check(D(pol(a*k),sc(pol(a),k))<=tol*std::abs(k)&&D(pol(k*a),sc(pol(a),k))<=tol*std::abs(k)&&D(pol(a/k),sc(pol(a),1/(L)k))<=tol/std::abs(k),"polar/scale"); c.check((a+b).R()>=0&&(a-b).R()>=0,"polar/r");
  double t1=c.r.pick({0,1,2})?c.r.uni(0,Constants::PI):0,t2=c.r.i(0,3)==0?t1:c.r.uni(0,Constants::PI); Vector3Spherical e(r1,t1,ph),f(r2,t2,p2); c.check(D(sph(e+f),ad(sph(e),sph(f),1))<=tol,"sph/add"); c.check(D(sph(e-f),ad(sph(e),sph(f),-1))<=tol,"sph/sub"); c.check(D(sph(-e),sc(sph(e),-1))<=tol,"sph/neg"); c.check(D(sph(e*k),sc(sph(e),k))<=tol*std::abs(k)&&D(sph(k*e),sc(sph(e),k))<=tol*std::abs(k)&&D(sph(e/k),sc(sph(e),1/(L)k))<=tol/std::abs(k),"sph/scale"); c.check((e+f).R()>=0&&(e+f).Theta()>=0&&(e+f).Theta()<=Constants::PI,"sph/range"); c.throws<DivisionByZeroError>([&]{ e/0.0; },"sph/div0");
  Vector3Cylindrical g(r1,ph,s*c.r.uni(-1,1)),h(r2,p2,t*c.r.uni(-1,1)); c.check(D(cyl(g+h),ad(cyl(g),cyl(h),1))<=tol,"cyl/add"); c.check(D(cyl(g-h),ad(cyl(g),cyl(h),-1))<=tol,"cyl/sub"); c.check(D(cyl(-g),sc(cyl(g),-1))<=tol,"cyl/neg"); c.check(D(cyl(g*k),sc(cyl(g),k))<=tol*std::abs(k)&&D(cyl(k*g),sc(cyl(g),k))<=tol*std::abs(k)&&D(cyl(g/k),sc(cyl(g),1/(L)k))<=tol/std::abs(k),"cyl/scale"); c.throws<DivisionByZeroError>([&]{ g/0.0; },"cyl/div0");
  // unit vectors resolved at another point
  if(r1>1e-3*s){ Vector3Spherical pos(1,c.r.uni(0,3.14),c.r.uni(-3,3)); auto u=e.GetAsUnitVectorAtPos(pos); L T=pos.Theta(),P=pos.Phi(); V er{sinl(T)*cosl(P),sinl(T)*sinl(P),cosl(T)},et{cosl(T)*cosl(P),cosl(T)*sinl(P),-sinl(T)},ep{-sinl(P),cosl(P),0}; V x=sc(er,u[0]); x=ad(x,et,u[1]); x=ad(x,ep,u[2]); c.check(D(x,sc(sph(e),1/(L)e.R()))<1e-13,"sph/unit-at"); auto us=e.GetAsUnitVectorAtPosGlobalSpher(pos); V y=sph(us); V x2=ad(ad(sc(er,y.z),et,y.x),ep,y.y); c.check(std::abs(us[0]-1)<1e-15&&D(x2,sc(sph(e),1/(L)e.R()))<1e-7,"sph/unit-global"); auto cu=g.GetAsUnitVectorAtPos(Vector3Cylindrical(1,(double)P,0)); V z=ad(ad(sc({cosl(P),sinl(P),0},cu[0]),{-sinl(P),cosl(P),0},cu[1]),{0,0,1},cu[2]); V gc=cyl(g); L gn=sqrtl(gc.x*gc.x+gc.y*gc.y+gc.z*gc.z); c.check(D(z,sc(gc,1/gn))<1e-13,"cyl/unit-at"); auto pu=a.GetAsUnitVectorAtPos(b); c.check(D(pol(pu),sc(pol(a),1/(L)a.R()))<1e-15,"polar/unit"); c.ev("unit-at"); }
  c.check(Vector3Spherical(0,1,1).GetAsUnitVectorAtPos(e).NormL2()==0&&Vector3Cylindrical(0,1,0).GetAsUnitVectorAtPos(g).NormL2()==0,"zero-unit");
  { Vector3Spherical w(e.R(),e.Theta(),e.Phi()+2*Constants::PI); c.check(e.IsEqualTo(w,1e-9)&&e==e&&!(e!=e),"sph/equal"); } }

FAMILY(cartesian,700){
  double s=c.r.pmag(-4,4),t=c.r.pmag(-4,4),k=c.r.logmag(-2,2); Vec3Cart a(s*c.r.uni(-1,1),s*c.r.uni(-1,1),s*c.r.uni(-1,1)),b(t*c.r.uni(-1,1),t*c.r.uni(-1,1),t*c.r.uni(-1,1)); if(c.r.i(0,3)==0) b=(t/s*(c.r.coin()?1:-1))*a; if(c.r.i(0,5)==0) a[c.r.i(0,2)]=0; V A=v(a),B=v(b); c.in("a",std::vector<double>{a.X(),a.Y(),a.Z()}); c.in("b",std::vector<double>{b.X(),b.Y(),b.Z()}); L dt=A.x*B.x+A.y*B.y+A.z*B.z; V cr{A.y*B.z-A.z*B.y,A.z*B.x-A.x*B.z,A.x*B.y-A.y*B.x}; L na=sqrtl(A.x*A.x+A.y*A.y+A.z*A.z),nb=sqrtl(B.x*B.x+B.y*B.y+B.z*B.z); double st=s*t*1e-15*4;
  c.close(a*b,(double)dt,st,"dot"); c.check(ScalarProduct(a,b)==a*b&&a.ScalarProduct(b)==a*b,"dot/same"); c.check(dv(VectorProduct(a,b),cr)<=st,"cross"); c.check(dv(a+b,ad(A,B,1))<=1e-15*(s+t)&&dv(a-b,ad(A,B,-1))<=1e-15*(s+t)&&dv(-a,sc(A,-1))==0&&dv(a*k,sc(A,k))<=1e-15*s*std::abs(k)&&dv(k*a,sc(A,k))<=1e-15*s*std::abs(k)&&dv(a/k,sc(A,1/(L)k))<=1e-15*s/std::abs(k),"linear"); c.check(a==a&&!(a!=a)&&(b==a)==(a.X()==b.X()&&a.Y()==b.Y()&&a.Z()==b.Z())&&(a==b)!=(a!=b),"equal"); Vec3Cart off=a; off[c.r.i(0,2)]+=s; c.check(!(a==off)&&a!=off&&!a.IsEqualTo(off,s*.5)&&a.IsEqualTo(off,s*1.5),"equal/off");
  if(na>1e-3*s&&nb>1e-3*t){ L an=atan2l(sqrtl(cr.x*cr.x+cr.y*cr.y+cr.z*cr.z),dt); c.close(a.AngleToVector(b),(double)an,sinl(an)>1e-3L?1e-11:5e-8,"angle"); for(auto u:{a.Normalized(),a.GetAsUnitVector(),a.GetAsUnitVectorAtPos(b)}) c.check(dv(u,sc(A,1/na))<1e-15*3,"unit"); bool par=an<1e-10L; if(par) c.check(a.IsParallelTo(b,1e-9),"parallel"); else if(an>1e-3L) c.check(!a.IsParallelTo(b,1e-5),"not-parallel"); c.ev(par?"parallel":"general"); Vec3Cart v1,v2; if(c.check(a.GetPerpendicularVectors(v1,v2),"perp/ok")){ c.check(std::abs(v1.NormL2()-1)<1e-14&&std::abs(v2.NormL2()-1)<1e-14&&std::abs(v1*v2)<1e-14&&std::abs(a*v1)<1e-14*s*4&&std::abs(a*v2)<1e-14*s*4,"perp"); c.check(v1.IsPerpendicularTo(v2,1e-12)&&!v1.IsPerpendicularTo(v1,1e-3),"is-perp"); } }
  Vec3Cart zero(0,0,0),v1,v2; c.check(!zero.GetPerpendicularVectors(v1,v2)&&zero.Normalized()==zero&&zero.GetAsUnitVector()==zero,"zero"); c.throws<DivisionByZeroError>([&]{ Vec3Cart z0(0,0,0); z0.AngleToVector(a); },"zero-angle");
  Pnt3Cart p(1.5,-2,3); Pnt3Cart p2=p+a,p3=p-a; c.check(p2.X()==p.X()+a.X()&&p2.Z()==p.Z()+a.Z()&&p3.Y()==p.Y()-a.Y()&&p3.X()==p.X()-a.X(),"point"); Vec3Cart df(p3,p2); c.check(dv(df,sc(A,2))<1e-15*(s*4+8),"between"); c.check(a.getAsPoint().Y()==a.Y()&&Vec3Cart(a.getAsPoint())==a,"as-point");
  Vec2Cart e(a.X(),a.Y()),f(b.X(),b.Y()); c.close(e*f,(double)(A.x*B.x+A.y*B.y),st,"2d/dot"); c.check(ScalarProduct(e,f)==e*f&&(e+f).X()==a.X()+b.X()&&(e-f).Y()==a.Y()-b.Y()&&(-e).X()==-a.X()&&(e*k).Y()==a.Y()*k&&(k*e).X()==a.X()*k&&(e/k).X()==a.X()/k,"2d/linear"); Vec2Cart g1,g2; e.getPerpendicularVectors(g1,g2); c.check(g1*e==0&&g2*e==0&&g1==-g2,"2d/perp"); Vec2Cart o(0,0); c.check(o.Normalized()==o&&o.GetAsUnitVector()==o,"2d/zero"); if(e.NormL2()>1e-3*s){ L n=hypotl(A.x,A.y); c.check(std::abs(e.Normalized().X()-(double)(A.x/n))<1e-15&&std::abs(e.GetAsUnitVector().Y()-(double)(A.y/n))<1e-15,"2d/unit"); }
  Vector4Minkowski m{a.X(),b.X(),b.Y(),b.Z()},w{b.X(),a.X(),a.Y(),a.Z()}; L I=A.x*A.x-nb*nb; double sm=1e-14*(s+t)*(s+t); c.close(ScalarProduct(m,w),(double)(A.x*B.x-B.x*A.x-B.y*A.y-B.z*A.z),sm,"mink/dot"); if(fabsl(I)>10*sm){ c.check(m.isTimelike()==(I>0)&&m.isSpacelike()==(I<0)&&!m.isLightlike(),"mink/kind"); c.check(std::abs(m.Norm()-(double)((I>0?1:-1)*sqrtl(fabsl(I))))<=4*sm/(double)sqrtl(fabsl(I)),"mink/norm"); Vector4Minkowski z0; if(I>0) c.check(std::abs(m.Distance(z0)-m.Norm())<=4*sm/(double)sqrtl(I),"mink/dist"); } Vector4Minkowski li{5*k,3*k,4*k,0}; c.check(std::abs(li.Norm())<1e-6*std::abs(k),"mink/light"); }

FAMILY(angles,500){
  double a=c.r.i(0,3)?c.r.uni(-50,50):c.r.i(0,2)?c.r.i(-9,9)*Constants::PI/2:c.r.logmag(-18,18); c.in("a",a); double x=Utils::AngleTo2PiRange(a),y=Utils::AngleToPiPiRange(a); c.check(x>=0&&x<2*Constants::PI,"2pi"); c.check(y>=-Constants::PI&&y<=Constants::PI,"pipi"); if(std::abs(a)<60){ for(double z:{x,y}){ double n=(z-a)/(2*Constants::PI); c.check(std::abs(n-std::round(n))<1e-14*(4+std::abs(n)),"congruent"); } } else c.ev("huge");
  double d=c.r.uni(-720,720); if(c.r.coin()) d=std::round(d*60)/60; double g,m,s; Utils::AngleDegToExplicit(d,g,m,s); c.check(g==std::floor(g)&&m==std::floor(m)&&m>=0&&m<60&&s>-1e-7&&s<60+1e-7,"dms/range"); c.close(Utils::ExplicitToAngleDeg(g,m,s),d,1e-12,"dms"); c.close(Utils::ExplicitToAngleRad(g,m,s),d*Constants::PI/180,1e-13,"dms/rad"); c.close(Utils::DegToRad(d),(double)((L)d*PIl/180),1e-14*4,"deg"); c.close(Utils::RadToDeg(Utils::DegToRad(d)),d,1e-12,"rad"); Utils::AngleRadToExplicit(Utils::DegToRad(d),g,m,s); c.close(Utils::ExplicitToAngleDeg(g,m,s),d,1e-12,"rms");
  double q=c.r.pmag(-30,30); L X_=q*c.r.uni(-1,1),Y_=q*c.r.uni(-1,1),Z_=q*c.r.uni(-1,1); int z=c.r.i(0,5); if(z==0) X_=Y_=0; else if(z==1){ X_*=1e-9L; Y_*=1e-9L; } else if(z==2) Z_=0; double px=(double)X_,py=(double)Y_,pz=(double)Z_,r,t,p,u,v_,w; double tol=4e-15*q; Utils::CartesianToSpherical(px,py,pz,r,t,p); Utils::SphericalToCartesian(r,t,p,u,v_,w); c.check(r>=0&&t>=0&&t<=Constants::PI,"sph/range"); c.check(std::abs(u-px)<=tol&&std::abs(v_-py)<=tol&&std::abs(w-pz)<=tol,"sph/rt",[&]{ return mon::str((u-px)/q); }); if(z==1) c.check(std::abs(std::sin(t)*r-std::hypot(px,py))<=1e-14*std::hypot(px,py)+1e-15*q*(pz<0),"sph/near-axis"); Utils::CartesianToCylindrical(px,py,pz,r,p,t); Utils::CylindricalToCartesian(r,p,t,u,v_,w); c.check(std::abs(u-px)<=tol&&std::abs(v_-py)<=tol&&w==pz,"cyl/rt"); Utils::CartesianToPolar(px,py,r,p); Utils::PolarToCartesian(r,p,u,v_); c.check(std::abs(u-px)<=tol&&std::abs(v_-py)<=tol,"polar/rt"); Utils::CartesianToSpherical(0,0,0,r,t,p); c.check(r==0&&t==0&&p==0,"origin"); }
MON_MAIN()
