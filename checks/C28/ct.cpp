// C28: coordinate transformations, metric tensors and reference frames.
#include "mon.h"
#include "la.h"
#include "MMLBase.h"
#include "base/Tensor.h"
#include "base/Quaternions.h"
#include "core/CoordTransf.h"
#include "core/CoordTransf/CoordTransf2D.h"
#include "core/CoordTransf/CoordTransf3D.h"
#include "core/CoordTransf/CoordTransfSpherical.h"
#include "core/CoordTransf/CoordTransfCylindrical.h"
#include "core/CoordTransf/CoordTransfLorentz.h"
#include "core/CoordSystem.h"
#include "core/MetricTensor.h"
#include <memory>
#include <set>
using namespace MML;
typedef long double L; typedef std::vector<L> VL;
static const L PIl=3.14159265358979323846264338327950288L;
static la::M mat(int n,std::initializer_list<L> v){ la::M m(n,n); int k=0; for(L x:v) m.a[k++]=x; return m; }
static la::M inv(const la::M&a){ la::M x; la::solve(a,la::eye(a.r),x); return x; }
template<int N,class V> static VL vl(const V&v){ VL r; for(int i=0;i<N;i++) r.push_back(v[i]); return r; }
template<int N,class V> static V fromL(const VL&x){ V v; for(int i=0;i<N;i++) v[i]=(double)x[i]; return v; }
template<int N,class V> static L dist(const V&v,const VL&w){ L s=0; for(int i=0;i<N;i++) s=std::max(s,fabsl((L)v[i]-w[i])); return s; }
static VL mv(const la::M&m,const VL&v){ VL r(m.r,0); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) r[i]+=m(i,j)*v[j]; return r; }
static VL mtv(const la::M&m,const VL&v){ return mv(la::tr(m),v); }

// generic judge: tr at pos (From), whose exact image is y and exact Jacobian dy/dx is J
template<int N,class F,class T,class TR> static void judge(mon::Case&c,TR&tr,const F&pos,const VL&y,const la::M&J,double S,double dt,const char*tag,bool tensors=true){
  auto K=[&](const char*k){ return std::string(tag)+"/"+k; }; const double rt=1e-14*S;
  T img=tr.transf(pos); c.check(dist<N>(img,y)<=rt,K("transf"),[&]{ return mon::str((double)dist<N>(img,y)); });
  F back=tr.transfInverse(fromL<N,T>(y)); VL x=vl<N>(pos); c.check(dist<N>(back,x)<=rt*20,K("inverse"),[&]{ return mon::str((double)dist<N>(back,x)); });
  VectorN<Real,N> op=tr(pos); c.check(dist<N>(op,y)<=rt,K("call"));
  for(int i=0;i<N;i++){ c.check(fabsl(tr.coordTransfFunc(i)(pos)-y[i])<=rt,K("func")); c.check(fabsl(tr.inverseCoordTransfFunc(i)(fromL<N,T>(y))-x[i])<=rt*20,K("invfunc")); }
  la::M I=inv(J); double jm=(double)la::nmax(J),im=(double)la::nmax(I), tj=dt*(1+jm), ti=dt*(1+im);
  auto jac=tr.jacobian(pos); for(int i=0;i<N;i++) for(int j=0;j<N;j++) c.check(fabsl(jac(i,j)-J(i,j))<=tj,K("jacobian"),[&]{ return mon::str((double)(jac(i,j)-J(i,j)))+" at "+mon::str(i)+","+mon::str(j); });
  T to=fromL<N,T>(y);
  for(int k=0;k<N;k++){ T b=tr.getBasisVec(k,pos); F ib=tr.getInverseBasisVec(k,pos); F cb=tr.getContravarBasisVec(k,to); T icb=tr.getInverseContravarBasisVec(k,to);
    for(int i=0;i<N;i++){ c.check(fabsl(b[i]-J(i,k))<=tj,K("basis")); c.check(fabsl(ib[i]-J(k,i))<=tj,K("ibasis")); c.check(fabsl(cb[i]-I(k,i))<=ti,K("cobasis"),[&]{ return mon::str((double)(cb[i]-I(k,i))); }); c.check(fabsl(icb[i]-I(i,k))<=ti,K("icobasis")); } }
  F v; VL vv; for(int i=0;i<N;i++){ v[i]=c.r.uni(-3,3); vv.push_back(v[i]); } T w; VL ww; for(int i=0;i<N;i++){ w[i]=c.r.uni(-3,3); ww.push_back(w[i]); }
  T vc=tr.transfVecContravariant(v,pos); c.check(dist<N>(vc,mv(J,vv))<=tj*12,K("contra"));
  F wc=tr.transfInverseVecCovariant(w,pos); c.check(dist<N>(wc,mtv(J,ww))<=tj*12,K("icovar"));
  T vo=tr.transfVecCovariant(v,to); c.check(dist<N>(vo,mtv(I,vv))<=ti*12,K("covar"));
  F wo=tr.transfInverseVecContravariant(w,to); c.check(dist<N>(wo,mv(I,ww))<=ti*12,K("icontra"));
  { L p=0,q=0; F u; for(int i=0;i<N;i++) u[i]=c.r.uni(-3,3); T uo=tr.transfVecCovariant(u,to); for(int i=0;i<N;i++){ p+=v[i]*u[i]; q+=vc[i]*uo[i]; } c.check(fabsl(p-q)<=tj*(1+im)*200+ti*(1+jm)*200,K("contraction")); c.ev("contractions"); }
  if(!tensors) return;
  for(int rank=2;rank<=4;rank++){ int nco=c.r.i(0,rank); std::vector<int> up(rank); double f=std::max(1+jm,1+im); double tol=dt*std::pow(f,rank)*std::pow(3.0*N,rank);
    auto fac=[&](int ind,int i,int k)->L{ return up[ind]?J(i,k):I(k,i); };
    if(rank==2){ Tensor2<N> t(nco,2-nco); for(int i=0;i<N;i++) for(int j=0;j<N;j++) t(i,j)=c.r.uni(-2,2); if(c.r.coin(.3)&&nco==1){ t.setContravar(0,true); t.setContravar(1,false); c.ev("mixed-up-down"); } for(int i=0;i<2;i++) up[i]=t.IsContravar(i); auto r=tr.transfTensor2(t,pos); c.check(r.NumCovar()==nco&&r.NumContravar()==2-nco&&r.IsContravar(0)==(bool)up[0]&&r.IsContravar(1)==(bool)up[1],K("t2/variance"));
      for(int i=0;i<N;i++) for(int j=0;j<N;j++){ L s=0; for(int k=0;k<N;k++) for(int l=0;l<N;l++) s+=fac(0,i,k)*fac(1,j,l)*t(k,l); c.check(fabsl(r(i,j)-s)<=tol,K("t2"),[&]{ return mon::str(r(i,j))+" want "+mon::str((double)s)+" nco "+mon::str(nco); }); } if(nco==1) c.check(std::abs(r.Contract()-t.Contract())<=tol*10,K("t2/trace")); c.ev("tensor2"); }
    else if(rank==3){ Tensor3<N> t(nco,3-nco); for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int k=0;k<N;k++) t(i,j,k)=c.r.uni(-2,2); for(int i=0;i<3;i++) up[i]=t.IsContravar(i); auto r=tr.transfTensor3(t,pos); bool vo2=r.NumCovar()==nco; for(int i=0;i<3;i++) vo2&=r.IsContravar(i)==(bool)up[i]; c.check(vo2,K("t3/variance"));
      int i=c.r.i(0,N-1),j=c.r.i(0,N-1),k=c.r.i(0,N-1); L s=0; for(int a=0;a<N;a++) for(int b=0;b<N;b++) for(int d=0;d<N;d++) s+=fac(0,i,a)*fac(1,j,b)*fac(2,k,d)*t(a,b,d); c.check(fabsl(r(i,j,k)-s)<=tol,K("t3"),[&]{ return mon::str(r(i,j,k))+" want "+mon::str((double)s); }); c.ev("tensor3"); }
    else { Tensor4<N> t(nco,4-nco); for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int k=0;k<N;k++) for(int l=0;l<N;l++) t(i,j,k,l)=c.r.uni(-2,2); for(int i=0;i<4;i++) up[i]=t.IsContravar(i); auto r=tr.transfTensor4(t,pos);
      int i=c.r.i(0,N-1),j=c.r.i(0,N-1),k=c.r.i(0,N-1),m=c.r.i(0,N-1); L s=0; for(int a=0;a<N;a++) for(int b=0;b<N;b++) for(int d=0;d<N;d++) for(int e=0;e<N;e++) s+=fac(0,i,a)*fac(1,j,b)*fac(2,k,d)*fac(3,m,e)*t(a,b,d,e); c.check(fabsl(r(i,j,k,m)-s)<=tol,K("t4"),[&]{ return mon::str(r(i,j,k,m))+" want "+mon::str((double)s); }); c.ev("tensor4"); } }
}
template<class TR> static void tensor5(mon::Case&c,TR&tr,const Vector2Polar&pos,const la::M&J){ la::M I=inv(J); int nco=c.r.i(0,5); Tensor5<2> t(nco,5-nco); for(int q=0;q<32;q++) t(q>>4&1,q>>3&1,q>>2&1,q>>1&1,q&1)=c.r.uni(-2,2); auto r=tr.transfTensor5(t,pos); auto fac=[&](int ind,int i,int k)->L{ return t.IsContravar(ind)?J(i,k):I(k,i); };
  for(int q=0;q<32;q++){ L s=0; for(int p=0;p<32;p++){ L f=t(p>>4&1,p>>3&1,p>>2&1,p>>1&1,p&1); for(int d=0;d<5;d++) f*=fac(d,q>>(4-d)&1,p>>(4-d)&1); s+=f; } c.check(fabsl(r(q>>4&1,q>>3&1,q>>2&1,q>>1&1,q&1)-s)<=1e-8*powl(2+la::nmax(J)+la::nmax(I),5),"polar/t5"); } c.ev("tensor5"); }

static double ang(mon::Case&c){ return c.r.uni(-PIl+0.08,PIl-0.08); }
FAMILY(polar,250){ double r=c.r.pick({1,0})?c.r.uni(.3,6):c.r.uni(.3,1.5), f=ang(c); c.in("r",r); c.in("phi",f); CoordTransfPolarToCartesian2D tr; L C=cosl(f),S=sinl(f); la::M J=mat(2,{C,-r*S,S,r*C}); judge<2,Vector2Polar,Vector2Cartesian>(c,tr,Vector2Polar(r,f),{r*C,r*S},J,10,1e-8,"polar"); tensor5(c,tr,Vector2Polar(r,f),J); }
FAMILY(cyl,250){ double r=c.r.uni(.3,6),f=ang(c),z=c.r.uni(-5,5); c.in("q",std::vector<double>{r,f,z}); L C=cosl(f),S=sinl(f); la::M J=mat(3,{C,-r*S,0,S,r*C,0,0,0,1}); judge<3,Vector3Cylindrical,Vector3Cartesian>(c,CoordTransfCylToCart,Vector3Cylindrical(r,f,z),{r*C,r*S,z},J,10,1e-8,"cyl"); double x=(double)(r*C),y=(double)(r*S); L R=hypotl(x,y); judge<3,Vector3Cartesian,Vector3Cylindrical>(c,CoordTransfCartToCyl,Vector3Cartesian(x,y,z),{R,atan2l(y,x),z},mat(3,{x/R,y/R,0,-y/(R*R),x/(R*R),0,0,0,1}),10,1e-8,"icyl"); }
static la::M Jsph(L r,L t,L f){ return mat(3,{sinl(t)*cosl(f),r*cosl(t)*cosl(f),-r*sinl(t)*sinl(f), sinl(t)*sinl(f),r*cosl(t)*sinl(f),r*sinl(t)*cosl(f), cosl(t),-r*sinl(t),0}); }
FAMILY(sph,250){ double r=c.r.uni(.5,6),t=c.r.uni(.1,3.04),f=ang(c); if(r*std::sin(t)<.3) t=c.r.uni(.7,2.4); if(r*std::sin(t)<.3){ c.trivial(); return; } c.in("q",std::vector<double>{r,t,f}); Vector3Spherical q(r,t,f); la::M J=Jsph(r,t,f); L x=r*sinl(t)*cosl(f),y=r*sinl(t)*sinl(f),z=r*cosl(t); judge<3,Vector3Spherical,Vector3Cartesian>(c,CoordTransfSpherToCart,q,{x,y,z},J,10,1e-8,"sph");
  double X=(double)x,Y=(double)y,Z=(double)z; L R=sqrtl((L)X*X+(L)Y*Y+(L)Z*Z),T=acosl(Z/R),F=atan2l(Y,X); judge<3,Vector3Cartesian,Vector3Spherical>(c,CoordTransfCartToSpher,Vector3Cartesian(X,Y,Z),{R,T,F},inv(Jsph(R,T,F)),10,3e-8,"isph");
  L hs[3]={1,(L)r,r*sinl(t)}; for(int k=0;k<3;k++){ auto u=CoordTransfSpherToCart.getUnitBasisVec(k,q); auto iu=CoordTransfSpherToCart.getInverseUnitBasisVec(k,q); for(int i=0;i<3;i++){ c.check(fabsl(u[i]-J(i,k)/hs[k])<1e-14,"sph/unit"); c.check(fabsl(iu[i]-J(k,i)/hs[i])<1e-14,"sph/iunit"); } } }
// round trips over the whole domain incl. axes, poles and any scale
FAMILY(roundtrip,600){ double s=c.r.pmag(-30,30); Vector3Cartesian p(s*c.r.uni(-1,1),s*c.r.uni(-1,1),s*c.r.uni(-1,1)); int k=c.r.i(0,9); if(k<3) p[k]=0; else if(k<6) p[k-3]*=1e-9; else if(k==6){ p[0]=p[1]=0; } else if(k==7){ p[0]=-std::abs(p[0]); p[1]=c.r.coin()?0.0:-0.0; } c.in("p",std::vector<double>{p[0],p[1],p[2]}); double tol=4e-15*s;
  Vector3Spherical q=CoordTransfCartToSpher.transf(p); c.check(q[0]>=0&&q[1]>=0&&q[1]<=Constants::PI&&std::abs(q[2])<=Constants::PI,"rt/sph-range"); Vector3Cartesian b=CoordTransfCartToSpher.transfInverse(q),b2=CoordTransfSpherToCart.transf(CoordTransfSpherToCart.transfInverse(p)); for(int i=0;i<3;i++){ c.check(std::abs(b[i]-p[i])<=tol,"rt/sph",[&]{ return mon::str(b[i]-p[i]); }); c.check(std::abs(b2[i]-p[i])<=tol,"rt/sph2"); }
  Vector3Cylindrical w=CoordTransfCartToCyl.transf(p); c.check(w[0]>=0&&std::abs(w[1])<=Constants::PI,"rt/cyl-range"); Vector3Cartesian d=CoordTransfCylToCart.transf(w),d2=CoordTransfCylToCart.transf(CoordTransfCylToCart.transfInverse(p)); for(int i=0;i<3;i++){ c.check(std::abs(d[i]-p[i])<=tol,"rt/cyl"); c.check(std::abs(d2[i]-p[i])<=tol,"rt/cyl2"); }
  c.check(std::abs(q[0]*std::sin(q[1])-w[0])<=tol&&std::abs(q[0]*std::cos(q[1])-w[2])<=tol&&(w[0]==0||q[2]==w[1]),"rt/consistent"); Vector2Cartesian e(p[0],p[1]); CoordTransfPolarToCartesian2D P; auto g=P.transf(P.transfInverse(e)); c.check(std::abs(g[0]-e[0])<=tol&&std::abs(g[1]-e[1])<=tol,"rt/polar"); }

static la::M axis(L x,L y,L z,L a){ L n=sqrtl(x*x+y*y+z*z); x/=n;y/=n;z/=n; L C=cosl(a),S=sinl(a),D=1-C; return mat(3,{C+x*x*D,x*y*D-z*S,x*z*D+y*S, y*x*D+z*S,C+y*y*D,y*z*D-x*S, z*x*D-y*S,z*y*D+x*S,C+z*z*D}); }
template<class TR> static void lin3(mon::Case&c,TR&tr,const la::M&A,const char*tag,double cond=1){ for(int k=0;k<2;k++){ Vector3Cartesian p(c.r.uni(-5,5),c.r.uni(-5,5),c.r.uni(-5,5)); judge<3,Vector3Cartesian,Vector3Cartesian>(c,tr,p,mv(A,vl<3>(p)),A,40*cond,1e-9*cond,tag,k==0); } }
// a transformation object behaves the same after having been copied and the original destroyed
template<class TR> static void copies(mon::Case&c,std::unique_ptr<TR> o,const la::M&A,const char*tag,double cond=1){ lin3(c,*o,A,tag,cond); std::vector<TR> v; v.push_back(*o); TR k(*o); o.reset(); lin3(c,k,A,tag,cond); lin3(c,v[0],A,tag,cond); c.ev("copies"); }
static double angle(mon::Case&c){ switch(c.r.i(0,4)){ case 0: return c.r.i(-8,8)*Constants::PI/4; case 1: return c.r.uni(-20,20); default: return c.r.uni(-4,4);} }
FAMILY(rot,250){ double a=angle(c),b=angle(c),g=angle(c); c.in("abg",std::vector<double>{a,b,g}); auto X=axis(1,0,0,a),Y=axis(0,1,0,a),Z=axis(0,0,1,a);
  copies(c,std::make_unique<CoordTransfCart3DRotationXAxis>(a),X,"rotX"); copies(c,std::make_unique<CoordTransfCart3DRotationYAxis>(a),Y,"rotY"); copies(c,std::make_unique<CoordTransfCart3DRotationZAxis>(a),Z,"rotZ");
  copies(c,std::make_unique<CoordTransfCart3DRotationEuler>(a,b,g),la::mul(la::mul(axis(0,0,1,a),axis(0,1,0,b)),axis(0,0,1,g)),"euler");
  Vector3Cartesian n(c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)); if(n.NormL2()<.1){ c.trivial(); return; } n=Vector3Cartesian(n/n.NormL2()); auto A=axis(n[0],n[1],n[2],a),B=axis(0,1,0,b);
  copies(c,std::make_unique<CoordTransfCart3DRotationQuaternion>(n,a),A,"quat"); CoordTransfCart3DRotationQuaternion q(n,a),r(Vector3Cartesian(0,1,0),b); MatrixNM<Real,3,3> MA; for(int i=0;i<3;i++) for(int j=0;j<3;j++) MA(i,j)=(double)A(i,j); CoordTransfCart3DRotationQuaternion qm(MA); lin3(c,qm,A,"quat-mat");
  auto co=q.Compose(r); lin3(c,co,la::mul(B,A),"compose"); CoordTransfCart3DRotationQuaternion q2(Quaternion(3.0*q.GetQuaternion().w(),3.0*q.GetQuaternion().x(),3.0*q.GetQuaternion().y(),3.0*q.GetQuaternion().z())); lin3(c,q2,A,"quat-scaled");
  auto i0=q.Interpolate(r,0),i1=q.Interpolate(r,1); lin3(c,i0,A,"interp0",10); lin3(c,i1,B,"interp1",10); { double t=c.r.u01(),dl=.07+std::fmod(std::abs(a),3.0); CoordTransfCart3DRotationQuaternion u(n,.3),w(n,.3+dl); auto it=u.Interpolate(w,t); lin3(c,it,axis(n[0],n[1],n[2],.3+t*dl),"slerp",20); }
  auto zyx=CoordTransfCart3DRotationQuaternion::FromEulerZYX(a,b,g); lin3(c,zyx,la::mul(la::mul(axis(0,0,1,a),axis(0,1,0,b)),axis(1,0,0,g)),"zyx");
  auto&T=q.GetTransformationMatrix(); auto&Ti=q.GetInverseMatrix(); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ c.check(fabsl(T(i,j)-A(i,j))<1e-13,"quat/matrix"); c.check(T(i,j)==Ti(j,i)||std::abs(T(i,j)-Ti(j,i))<1e-15,"quat/inverse-matrix"); }
  // 2D
  auto J2=mat(2,{cosl(a),-sinl(a),sinl(a),cosl(a)}); auto o=std::make_unique<CoordTransfCart2DRotation>(a); CoordTransfCart2DRotation k2(*o); o.reset(); Vector2Cartesian p(c.r.uni(-5,5),c.r.uni(-5,5)); judge<2,Vector2Cartesian,Vector2Cartesian>(c,k2,p,mv(J2,vl<2>(p)),J2,20,1e-9,"rot2"); }
FAMILY(linear,300){ L m[9]; for(auto&x:m) x=c.r.coin(.3)?c.r.i(-3,3):(double)c.r.uni(-3,3); for(auto&x:m) x=(double)x; la::M B(3,3); for(int i=0;i<9;i++) B.a[i]=m[i]; L d=la::det(B); if(fabsl(d)<.3){ c.trivial(); return; } std::vector<double> in; for(L x:m) in.push_back((double)x); c.in("m",in); double cond=(double)(1+la::nmax(inv(B)))*8; Vector3Cartesian b[3]; MatrixNM<Real,3,3> M; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ b[i][j]=(double)B(i,j); M(i,j)=(double)B(i,j); }
  copies(c,std::make_unique<CoordTransf3DCartGeneral>(M),B,"general",cond); CoordTransf3DCartGeneral G(M); c.check(G.IsRightHanded()==(d>0),"general/handed"); auto im=G.getInvTransfMatrix(); la::M Bi=inv(B); for(int i=0;i<3;i++) for(int j=0;j<3;j++) c.check(fabsl(im(i,j)-Bi(i,j))<1e-13*cond*cond,"general/invmat");
  // oblique: base vectors are the columns
  la::M Ob=inv(la::tr(B)); copies(c,std::make_unique<CoordTransfCartesianToOblique3D>(b[0],b[1],b[2]),Ob,"oblique",cond); CoordTransfCartesianToOblique3D ob(b[0],b[1],b[2]); c.check(ob.IsRightHanded()==(d>0),"oblique/handed"); for(int i=0;i<3;i++) for(int j=0;j<3;j++) c.check(std::abs(ScalarProduct(ob.Base(i),ob.Dual(j))-(i==j))<1e-13*cond*cond,"oblique/dual");
  c.throws<SingularMatrixError>([&]{ Vector3Cartesian s=b[0]+b[1]; CoordTransfCartesianToOblique3D(VectorN<Real,3>(b[0]),VectorN<Real,3>(b[0]),VectorN<Real,3>(b[1])); },"oblique/dependent");
  // orthogonal axes of any length and handedness
  la::M Q=la::orth(c.r,3,3); double l[3]; bool unit=c.r.coin(); for(auto&x:l) x=unit?1:c.r.pmag(-.6,.6); Vector3Cartesian e[3]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) e[i][j]=(double)Q(i,j)*l[i]; la::M E(3,3); for(int i=0;i<3;i++) for(int j=0;j<3;j++) E(i,j)=e[i][j]; try{ copies(c,std::make_unique<CoordTransf3DCartOrthogonal>(e[0],e[1],e[2]),E,"orthogonal",unit?4:60); CoordTransf3DCartOrthogonal oo(e[0],e[1],e[2]); c.check(oo.IsRightHanded()==(la::det(E)>0),"orthogonal/handed"); c.ev("orthogonal"); }catch(GeometryError&){ c.fail("orthogonal/rejected"); }
  if(std::abs(ScalarProduct(b[0],b[1]))>1e-3) c.throws<GeometryError>([&]{ CoordTransf3DCartOrthogonal(VectorN<Real,3>(b[0]),VectorN<Real,3>(b[1]),VectorN<Real,3>(b[2])); },"orthogonal/not");
  double a=c.r.uni(.2,2.9)*(c.r.coin()?1:-1); la::M O2=mat(2,{1,cosl(a),0,sinl(a)}); for(int w=0;w<2;w++){ Vector2Cartesian p(c.r.uni(-5,5),c.r.uni(-5,5)); if(w){ auto o=std::make_unique<CoordTransfObliqueToCartesian2D>(a); CoordTransfObliqueToCartesian2D k(*o); o.reset(); judge<2,Vector2Cartesian,Vector2Cartesian>(c,k,p,mv(O2,vl<2>(p)),O2,60,1e-8,"oblique2"); } else { auto o=std::make_unique<CoordTransfCartesianToOblique2D>(a); CoordTransfCartesianToOblique2D k(*o); o.reset(); la::M I=inv(O2); judge<2,Vector2Cartesian,Vector2Cartesian>(c,k,p,mv(I,vl<2>(p)),I,60,1e-8,"ioblique2"); } }
  c.throws<ArgumentError>([&]{ CoordTransfObliqueToCartesian2D(0.0); },"oblique2/flat"); c.throws<ArgumentError>([&]{ CoordTransfCartesianToOblique2D((double)c.r.i(-3,3)*0.0); },"oblique2/flat"); }
FAMILY(lorentz,250){ double v=c.r.coin(.1)?0:c.r.coin(.3)?1-c.r.pmag(-4,-1):c.r.uni(0,.99); c.in("v",v); L g=1/sqrtl(1-(L)v*v),b=v; la::M A=mat(4,{g,-b*g,0,0,-b*g,g,0,0,0,0,1,0,0,0,0,1}); auto o=std::make_unique<CoordTransfLorentzXAxis>(v); CoordTransfLorentzXAxis k(*o); o.reset(); double G=(double)(g*g); Vector4Minkowski p({c.r.uni(-5,5),c.r.uni(-5,5),c.r.uni(-5,5),c.r.uni(-5,5)}); judge<4,Vector4Minkowski,Vector4Minkowski>(c,k,p,mv(A,vl<4>(p)),A,40*G,1e-9*G,"lorentz",c.r.coin(.1));
  auto sq=[](const Vector4Minkowski&q){ return -(L)q[0]*q[0]+(L)q[1]*q[1]+(L)q[2]*q[2]+(L)q[3]*q[3]; }; Vector4Minkowski t=k.transf(p); c.check(fabsl(sq(t)-sq(p))<=1e-13*G*G*200,"lorentz/interval"); double u=c.r.uni(0,.9); L w=(u+b)/(1+u*b); CoordTransfLorentzXAxis K2(u),K3((double)w); auto z=K2.transf(t),z3=K3.transf(p); L g3=1/sqrtl(1-w*w); for(int i=0;i<4;i++) c.check(std::abs(z[i]-z3[i])<=1e-12*(double)(g3*g3*g3*g3)*5,"lorentz/composition"); c.throws<std::range_error>([&]{ CoordTransfLorentzXAxis(1.0+c.r.u01()); },"lorentz/fast"); c.throws<std::range_error>([&]{ CoordTransfLorentzXAxis(-c.r.uni(1e-6,2)); },"lorentz/negative"); }

template<int N> static void metric(mon::Case&c,const MetricTensorField<N>&g,const VectorN<Real,N>&pos,const la::M&G,std::function<L(int,int,int)> chr,double t0,double t1,const char*tag){ auto K=[&](const char*k){ return std::string(tag)+"/"+k; }; la::M Gi=inv(G); double gm=1+(double)la::nmax(G),gi=1+(double)la::nmax(Gi); auto gc=g.GetCovariantMetric(pos); auto gu=g.GetContravariantMetric(pos); auto gt=g(pos);
  for(int i=0;i<N;i++) for(int j=0;j<N;j++){ c.check(fabsl(gc(i,j)-G(i,j))<=t0*gm,K("covariant")); c.check(fabsl(gu(i,j)-Gi(i,j))<=t0*gm*gi*gi,K("contravariant")); c.check(fabsl(gt(i,j)-G(i,j))<=t0*gm&&fabsl(g.Component(i,j,pos)-G(i,j))<=t0*gm,K("component")); }
  VectorN<Real,N> v; VL vv; for(int i=0;i<N;i++){ v[i]=c.r.uni(-3,3); vv.push_back(v[i]); } auto lo=g.LowerIndex(v,pos),hi=g.RaiseIndex(v,pos); c.check(dist<N>(lo,mv(G,vv))<=10*t0*gm,K("lower")); c.check(dist<N>(hi,mv(Gi,vv))<=10*t0*gm*gi*gi,K("raise")); c.check(dist<N>(g.RaiseIndex(lo,pos),vv)<=30*t0*gm*gm*gi*gi,K("raise-lower"));
  Tensor2<N> t(2,0),u(0,2); la::M T(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) t(i,j)=u(i,j)=(double)(T(i,j)=c.r.uni(-3,3)); for(int ix=0;ix<2;ix++){ auto r=g.RaiseIndex(t,ix,pos),l=g.LowerIndex(u,ix,pos); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ L s=0,q=0; for(int k=0;k<N;k++){ s+=ix==0?Gi(i,k)*T(k,j):Gi(j,k)*T(i,k); q+=ix==0?G(i,k)*T(k,j):G(j,k)*T(i,k); } c.check(fabsl(r(i,j)-s)<=20*t0*gm*gi*gi,K("raise2")); c.check(fabsl(l(i,j)-q)<=20*t0*gm,K("lower2")); } c.check(r.NumContravar()==1&&r.NumCovar()==1,K("raise2-variance")); }
  for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int k=0;k<N;k++){ L w=chr(i,j,k); c.check(fabsl(g.GetChristoffelSymbolSecondKind(i,j,k,pos)-w)<=t1*gm*gi,K("gamma2"),[&]{ return mon::str(i)+mon::str(j)+mon::str(k)+" "+mon::str(g.GetChristoffelSymbolSecondKind(i,j,k,pos))+" want "+mon::str((double)w); }); L f=0; for(int m=0;m<N;m++) f+=G(m,k)*chr(m,i,j); c.check(fabsl(g.GetChristoffelSymbolFirstKind(i,j,k,pos)-f)<=4*t1*gm*gm*gi,K("gamma1")); } c.ev("christoffel");
  // covariant derivatives of a known field V^i = a_i + b_ij x_j + c_i x_0 x_(N-1)
  std::vector<double> a(N),d(N),b(N*N); for(auto*q:{&a,&d,&b}) for(auto&x:*q) x=c.r.uni(-2,2); VectorFunctionFromStdFunc<N> F([=](const VectorN<Real,N>&x){ VectorN<Real,N> r; for(int i=0;i<N;i++){ r[i]=a[i]+d[i]*x[0]*x[N-1]; for(int j=0;j<N;j++) r[i]+=b[i*N+j]*x[j]; } return r; }); auto val=F(pos); double vm=1+val.NormL2();
  for(int j=0;j<N;j++){ auto cu=g.CovariantDerivativeContravar(F,j,pos),cd=g.CovariantDerivativeCovar(F,j,pos); for(int i=0;i<N;i++){ L p=b[i*N+j]; if(j==0) p+=d[i]*pos[N-1]; if(j==N-1) p+=d[i]*pos[0]; L up=p,dn=p; for(int k=0;k<N;k++){ up+=chr(i,k,j)*val[k]; dn-=chr(k,i,j)*val[k]; } double tol=(1e-8+4*t1*gm*gi)*vm; c.check(fabsl(cu[i]-up)<=tol,K("nabla-up"),[&]{ return mon::str(cu[i])+" want "+mon::str((double)up); }); c.check(fabsl(cd[i]-dn)<=tol,K("nabla-down")); c.check(fabsl(g.CovariantDerivativeContravarComp(F,i,j,pos)-up)<=tol&&fabsl(g.CovariantDerivativeCovarComp(F,i,j,pos)-dn)<=tol,K("nabla-comp")); } } c.ev("nabla"); }
FAMILY(metrics,150){ double r=c.r.uni(.6,4),t=c.r.uni(.4,2.7),f=ang(c)*.9; c.in("q",std::vector<double>{r,t,f}); VectorN<Real,3> q{r,t,f}; L s=sinl(t),C=cosl(t); la::M Gs=mat(3,{1,0,0,0,(L)r*r,0,0,0,(L)r*r*s*s}); auto cs=[=](int i,int j,int k)->L{ if(j>k) std::swap(j,k); if(i==0&&j==1&&k==1) return -r; if(i==0&&j==2&&k==2) return -r*s*s; if(i==1&&j==0&&k==1) return 1/(L)r; if(i==1&&j==2&&k==2) return -s*C; if(i==2&&j==0&&k==2) return 1/(L)r; if(i==2&&j==1&&k==2) return C/s; return 0; };
  MetricTensorSpherical ms; metric<3>(c,ms,q,Gs,cs,1e-15,1e-8,"sph"); MetricTensorFromCoordTransf<Vector3Spherical,Vector3Cartesian,3> ft(CoordTransfSpherToCart); metric<3>(c,ft,q,Gs,cs,1e-8,3e-5,"sph-transf");
  MetricTensorSphericalContravar mc; auto ct=mc(q); la::M Gi=inv(Gs); for(int i=0;i<3;i++) for(int j=0;j<3;j++) c.check(fabsl(ct(i,j)-Gi(i,j))<=1e-14*(1+la::nmax(Gi)),"sph-contra"); c.throws<MMLException>([&]{ mc.Component(1,1,VectorN<Real,3>{0,1,1}); },"sph-contra/origin"); c.throws<MMLException>([&]{ mc.Component(2,2,VectorN<Real,3>{1,0,1}); },"sph-contra/pole");
  VectorN<Real,3> w{r,f,t}; la::M Gc=mat(3,{1,0,0,0,(L)r*r,0,0,0,1}); auto cc=[=](int i,int j,int k)->L{ if(j>k) std::swap(j,k); if(i==0&&j==1&&k==1) return -r; if(i==1&&j==0&&k==1) return 1/(L)r; return 0; }; MetricTensorCylindrical my; metric<3>(c,my,w,Gc,cc,1e-15,1e-8,"cyl"); MetricTensorFromCoordTransf<Vector3Cylindrical,Vector3Cartesian,3> fc(CoordTransfCylToCart); metric<3>(c,fc,w,Gc,cc,1e-8,3e-5,"cyl-transf");
  auto z=[](int,int,int)->L{ return 0; }; MetricTensorCartesian3D md; metric<3>(c,md,w,la::eye(3),z,1e-15,1e-8,"cart"); MetricTensorMinkowski mm; la::M Gm=la::eye(4); Gm(0,0)=-1; metric<4>(c,mm,VectorN<Real,4>{r,t,f,1},Gm,z,1e-15,1e-8,"minkowski");
  { Vector3Cartesian b[3]; la::M B(3,3); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ b[i][j]=c.r.uni(-2,2); B(j,i)=b[i][j]; } if(fabsl(la::det(B))>.5){ CoordTransfCartesianToOblique3D ob(b[0],b[1],b[2]); MetricTensorFromCoordTransf<Vector3Cartesian,Vector3Cartesian,3> fo(ob); la::M I=inv(B); metric<3>(c,fo,w,la::mul(la::tr(I),I),z,1e-8,1e-4,"oblique"); } } }

FAMILY(frames,300){ Vector3Cartesian v(c.r.uni(-3,3),c.r.uni(-3,3),c.r.uni(-3,3)),o(c.r.uni(-3,3),c.r.uni(-3,3),c.r.uni(-3,3)),p(c.r.uni(-3,3),c.r.uni(-3,3),c.r.uni(-3,3)); double t=c.r.uni(-20,20); c.in("t",t); ReferenceFrame3D root; InertialFrame3D in(&root,v,o); auto g=in.GetLocalPosInParentFrameAtTime(p,t); for(int i=0;i<3;i++) c.check(std::abs(g[i]-(o[i]+t*v[i]+p[i]))<1e-13*100,"inertial");
  double R=c.r.pmag(-1,2),P=c.r.pmag(-1,2),a0=c.r.uni(-4,4); CircleOrbitingFrame3DCartesian or1(&root,R,P,a0),or0(&root,R,P); L an=a0+2*PIl*t/P, an0=2*PIl*t/P; double ta=1e-14*(1+std::abs(t/P))*R*20; auto x=or1.GetOriginPositionAtTime(t),x0=or0.GetOriginPositionAtTime(t); c.check(fabsl(x[0]-R*cosl(an))<ta&&fabsl(x[1]-R*sinl(an))<ta&&x[2]==0,"orbit"); c.check(fabsl(x0[0]-R*cosl(an0))<ta&&fabsl(x0[1]-R*sinl(an0))<ta,"orbit0"); auto y=or1.GetLocalPosInParentFrameAtTime(p,t); for(int i=0;i<3;i++) c.check(std::abs(y[i]-x[i]-p[i])<1e-14*(R+5)*2,"orbit/local");
  VectorN<Real,3> ax{c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; if(ax.NormL2()<.1) ax[2]=1; double tr_=1e-13*(1+std::abs(t/P)); RotatingFrame3D rf(&root,P,ax); la::M A=axis(ax[0],ax[1],ax[2],an0); auto q=rf.GetLocalPosInParentFrameAtTime(p,t); c.check(dist<3>(q,mv(A,vl<3>(p)))<tr_*20,"rotating",[&]{ return mon::str((double)dist<3>(q,mv(A,vl<3>(p)))); }); rf._angle_at_t0=a0; la::M A2=axis(ax[0],ax[1],ax[2],an); c.check(dist<3>(rf.GetLocalPosInParentFrameAtTime(p,t),mv(A2,vl<3>(p)))<tr_*20,"rotating/phase");
  HardSphereRotatingFrame hs(&root,R,P,ax); double lat=c.r.uni(-90,90),lon=c.r.uni(-180,180),h=c.r.uni(0,5); L la_=lat*PIl/180,lo_=lon*PIl/180; VL w{(R+h)*cosl(la_)*cosl(lo_),(R+h)*cosl(la_)*sinl(lo_),(R+h)*sinl(la_)}; c.check(dist<3>(hs.GetLocalPosInParentFrameAtTime(VectorN<Real,3>{lat,lon,h},t),mv(A,w))<tr_*(R+h)*20,"sphere"); c.ev("frames"); }
// the frame tree: parent and child links always agree, no cycles, destruction unlinks
FAMILY(tree,300){ int n=c.r.i(2,7); std::vector<std::unique_ptr<ReferenceFrame3D>> f; std::vector<int> par(n,-1); for(int i=0;i<n;i++) f.push_back(std::make_unique<ReferenceFrame3D>()); std::vector<double> hist; auto anc=[&](int a,int x){ while(x>=0){ if(x==a) return true; x=par[x]; } return false; };
  for(int s=0;s<25;s++){ int op=c.r.i(0,5),a=c.r.i(0,n-1),b=c.r.i(0,n-1); hist.push_back(op*100+a*10+b); if(!f[a]||!f[b]) continue;
    if(op<2){ bool want=par[a]==b||!anc(a,b); c.check(f[a]->SetParentFrame(f[b].get())==want,"tree/set-parent"); if(want) par[a]=b; else c.ev("cycle-refused"); }
    else if(op==2){ c.check(f[a]->SetParentFrame(nullptr),"tree/orphan"); par[a]=-1; }
    else if(op==3){ bool want=!anc(b,a); c.check(f[a]->AddChildFrame(f[b].get())==want,"tree/add-child"); if(want) par[b]=a; c.check(!f[a]->AddChildFrame(nullptr),"tree/null"); }
    else if(op==4){ bool want=par[b]==a; c.check(f[a]->RemoveChildFrame(f[b].get())==want,"tree/remove"); if(want) par[b]=-1; }
    else if(c.r.coin(.3)){ f[a].reset(); par[a]=-1; for(int i=0;i<n;i++) if(par[i]==a) par[i]=-1; c.ev("destroyed"); }
    for(int i=0;i<n;i++) if(f[i]){ c.check(f[i]->GetParentFrame()==(par[i]<0?nullptr:f[par[i]].get()),"tree/parent"); std::multiset<ReferenceFrame3D*> w,g; for(int j=0;j<n;j++) if(f[j]&&par[j]==i) w.insert(f[j].get()); for(auto*x:f[i]->GetChildFrames()) g.insert(x); c.check(w==g,"tree/children"); } }
  c.in("ops",hist); }
MON_MAIN()
