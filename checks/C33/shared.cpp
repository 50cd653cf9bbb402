// Shared const objects read from several threads, and per-thread settings.
#include "mon.h"
#include <thread>
#include "base/Vector/Vector.h"
#include "base/Vector/VectorN.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Polynom.h"
#include "base/Function.h"
#include "base/Graph.h"
#include "base/Quaternions.h"
#include "base/Tensor.h"
#include "base/Random.h"
#include "base/InterpolatedFunction.h"
#include "core/LinAlgEqSolvers.h"
#include "core/CoordTransf.h"
#include "core/CoordTransf/CoordTransfSpherical.h"
#include "core/CoordTransf/CoordTransfCylindrical.h"
#include "core/MetricTensor.h"
#include "core/Fields.h"
#include "core/FieldOperations.h"
#include "core/Derivation.h"
#include "core/Integration.h"
#include "core/Curves.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "core/Integration/PathIntegration.h"
#include "algorithms/GraphAlgorithms.h"
#include "algorithms/RootFinding.h"
#include "algorithms/Statistics/Distributions.h"
using namespace MML; using mon::Case; typedef std::vector<double> VD;
// run the same const work in 4 threads on the same objects: every thread must get the values a single thread gets
static bool same(const VD&a,const VD&b){ return a.size()==b.size()&&(a.empty()||!memcmp(a.data(),b.data(),a.size()*8)); }
static void shared(Case&c,const char*name,const std::function<void(VD&)>&work,int reps=3){ VD want; work(want); std::atomic<int> ready{0}; std::atomic<int> bad{0}; std::vector<std::thread> th; for(int t=0;t<4;t++) th.emplace_back([&]{ ready++; while(ready<4) std::this_thread::yield(); for(int k=0;k<reps;k++){ VD got; try{ work(got); }catch(...){ bad++; } if(!same(got,want)) bad++; } }); for(auto&t:th) t.join(); c.check(bad==0,std::string("differs:")+name); c.check(!want.empty(),"worked"); c.ev("shared-object"); c.ev("shared-evaluations",4*reps*(long)want.size()); }
static Vector<Real> rv(Case&c,int n,double lo=-3,double hi=3){ Vector<Real> v(n); for(int i=0;i<n;i++) v[i]=c.r.uni(lo,hi); return v; }
static Matrix<Real> rm(Case&c,int n,int m){ Matrix<Real> a(n,m); for(int i=0;i<n;i++)for(int j=0;j<m;j++) a(i,j)=c.r.uni(-3,3)+(i==j?5:0); return a; }
static void put(VD&o,const Vector<Real>&v){ for(int i=0;i<v.size();i++) o.push_back(v[i]); } static void put(VD&o,const Matrix<Real>&a){ for(int i=0;i<a.rows();i++)for(int j=0;j<a.cols();j++) o.push_back(a(i,j)); } template<int N> static void put(VD&o,const VectorN<Real,N>&v){ for(int i=0;i<N;i++) o.push_back(v[i]); }
static void puts_(VD&o,const std::string&s){ for(char ch:s) o.push_back(ch); }
FAMILY(dense,12){ int n=c.r.i(2,8); c.in("n",n); const Matrix<Real> A=rm(c,n,n),B=rm(c,n,n); const Vector<Real> v=rv(c,n),w=rv(c,n); const VectorN<Real,3> p{c.r.uni(-1,1),2,3}; MatrixNM<Real,3,3> M0; for(int i=0;i<3;i++)for(int j=0;j<3;j++) M0(i,j)=c.r.uni(-2,2)+(i==j?4:0); const MatrixNM<Real,3,3> M=M0; shared(c,"dense",[&](VD&o){ put(o,A+B); put(o,A*B); put(o,A*v); put(o,A.transpose()); put(o,v+w); o.push_back(v.NormL2()); o.push_back(A(0,1)); o.push_back(A.IsEqualTo(B)); put(o,M*p); o.push_back(p.NormL2()); MatrixNM<Real,3,3> I=M.GetInverse(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) o.push_back(I(i,j)); std::ostringstream s; A.Print(s,12,6); s<<v<<p; puts_(o,s.str()); put(o,A.inverse()); }); }
FAMILY(solvers,12){ int n=c.r.i(2,8); c.in("n",n); const Matrix<Real> A=rm(c,n,n); const Vector<Real> b=rv(c,n); Matrix<Real> bd(n,3); for(int i=0;i<n;i++){ bd(i,0)=i?c.r.uni(-1,1):0; bd(i,1)=4; bd(i,2)=i<n-1?c.r.uni(-1,1):0; } const BandDiagonalSolver* BS=nullptr; BandDiagonalMatrix BM(n,1,1,bd); const BandDiagonalSolver bs(BM); BS=&bs; const Matrix<Real> S=A*A.transpose(); shared(c,"solvers",[&](VD&o){ LUSolver<Real> lu(A); put(o,lu.Solve(b)); QRSolver<Real> qr(A); put(o,qr.Solve(b)); SVDecompositionSolver sv(A); put(o,sv.Solve(b)); CholeskySolver<Real> ch(S); put(o,ch.Solve(b)); put(o,BS->Solve(b)); o.push_back(BS->Det()); Matrix<Real> a2=A; put(o,GaussJordanSolver<Real>::Solve(a2,b)); auto r=JacobiSolver::Solve(A,b); put(o,r.solution); }); }
FAMILY(interp,24){ int n=c.r.i(6,12); Vector<Real> x(n),y(n); double t=c.r.uni(-2,2); for(int i=0;i<n;i++){ x[i]=t; t+=c.r.uni(0.2,1); y[i]=c.r.uni(-3,3); } c.in("n",n); const LinearInterpRealFunc a(x,y); const PolynomInterpRealFunc p(x,y,4); const SplineInterpRealFunc s(x,y); const RationalInterpRealFunc q(x,y,3); const BarycentricRationalInterp bb(x,y,2); VD pts; for(int i=0;i<12;i++) pts.push_back(c.r.uni(x[0],x[n-1])); Matrix<Real> z(n,n); for(int i=0;i<n;i++)for(int j=0;j<n;j++) z(i,j)=c.r.uni(-2,2); const BilinearInterp2D bl(x,x,z); const BicubicSplineInterp2D bc(x,x,z); Matrix<Real> cp(n,3); for(int i=0;i<n;i++)for(int j=0;j<3;j++) cp(i,j)=c.r.uni(-2,2); const SplineInterpParametricCurve<3> sc(cp); shared(c,"interp",[&](VD&o){ for(double u:pts){ o.push_back(a(u)); o.push_back(p(u)); o.push_back(s(u)); o.push_back(s.Derivative(u)); o.push_back(q(u)); o.push_back(bb(u)); o.push_back(bl(u,pts[0])); o.push_back(bc(u,pts[1])); put(o,sc((u-x[0])/(x[n-1]-x[0]))); } },6); c.ev("interp"); }
FAMILY(functions,12){ double k=c.r.uni(0.5,2); c.in("k",k); const PolynomReal P=PolynomReal({c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2),1.0}),Q=PolynomReal({c.r.uni(-2,2),1.0}); const RealFunctionFromStdFunc f([k](Real x){ return std::sin(k*x)+x*x; }); const ScalarFunctionFromStdFunc<3> g([k](const VectorN<Real,3>&x){ return k*x[0]*x[1]+std::cos(x[2]); }); const CoordTransfSphericalToCartesian sp; const CoordTransfCylindricalToCartesian cy; const MetricTensorSpherical met; const Fields::DipoleField dip; const VectorN<Real,3> at{1.1,0.7,0.4}; const Curves::HelixCurve hx(1.5,0.7); shared(c,"functions",[&](VD&o){ o.push_back(P(1.3)); PolynomReal R=P*Q; for(int i=0;i<=R.degree();i++) o.push_back(R[i]); o.push_back(Derivation::NDer4(f,0.7)); o.push_back(IntegrateSimpson(f,0,1).value); o.push_back(IntegrateRomberg(f,0,1).value); o.push_back(IntegrateGauss10(f,0,1).value); put(o,VectorN<Real,3>(sp.transf(Vector3Spherical(1.1,0.7,0.4)))); put(o,VectorN<Real,3>(cy.transf(Vector3Cylindrical(1.1,0.7,0.4)))); put(o,ScalarFieldOperations::GradientCart<3>(g,at)); o.push_back(met.GetChristoffelSymbolSecondKind(1,0,1,at)); put(o,dip(at)); put(o,hx(0.3)); o.push_back(hx.getCurvature(0.3)); o.push_back(PathIntegration::ParametricCurveLength<3>(hx,0,1)); o.push_back(RootFinding::FindRootBrent(f,-0.2*k,0.3,1e-9)); Quaternion qq=Quaternion::FromAxisAngle(Vec3Cart(1,2,3),0.4); o.push_back((qq*qq).w()); Statistics::TDistribution td(5); o.push_back(td.cdf(1.2)); Statistics::ChiSquareDistribution ch(4); o.push_back(ch.cdf(2.2)); o.push_back(Functions::LGamma(3.3)); }); }
FAMILY(graphs,12){ int n=c.r.i(4,14); Graph<> G(n); for(int i=0;i<n;i++)for(int j=i+1;j<n;j++) if(c.r.coin(0.4)) G.addEdge(i,j,c.r.uni(0.1,3)); const Graph<>&g=G; c.in("n",n); shared(c,"graph",[&](VD&o){ auto d=Dijkstra(g,0); for(auto x:d.distance) o.push_back(x); auto b=BFS(g,0); for(auto x:b.visitOrder) o.push_back(x); o.push_back(g.numEdges()); }); }
// one thread's settings are its own
FAMILY(settings,30){ const RealFunctionFromStdFunc f([](Real x){ return std::exp(x)*std::cos(3*x); }); struct S{ double te,se,re; int vw,vp,nw,np,tm,rp,nr,br; }; std::vector<S> set(4); for(auto&s:set) s={c.r.pmag(-8,-2),c.r.pmag(-8,-2),c.r.pmag(-8,-2),c.r.i(8,30),c.r.i(3,14),c.r.i(8,30),c.r.i(3,14),c.r.i(15,22),c.r.i(3,6),c.r.i(10,90),c.r.i(20,200)}; c.in("vw",set[0].vw); c.in("te",set[0].te); bool viaCtx=c.r.coin(); c.in("viaCtx",viaCtx); S init={AlgorithmContext::Get().trapezoidIntegrationEPS,AlgorithmContext::Get().simpsonIntegrationEPS,AlgorithmContext::Get().rombergIntegrationEPS,PrintContext::Get().vectorWidth,PrintContext::Get().vectorPrecision,PrintContext::Get().vectorNWidth,PrintContext::Get().vectorNPrecision,AlgorithmContext::Get().trapezoidIntegrationMaxSteps,0,AlgorithmContext::Get().newtonRaphsonMaxSteps,AlgorithmContext::Get().brentMaxSteps};
 auto probe=[&](VD&o){ o.push_back(IntegrateTrap(f,0,2).value); o.push_back(IntegrateSimpson(f,0,2).value); o.push_back(IntegrateRomberg(f,0,2).value); Vector<Real> v(3); v[0]=1./3; v[1]=-2./7; v[2]=1e5/3; VectorN<Real,2> w{1./3,-5./7}; std::ostringstream s; s<<v<<"|"<<w; puts_(o,s.str()); puts_(o,v.to_string(Defaults::VectorPrintWidth,Defaults::VectorPrintPrecision)); }; auto apply=[&](const S&s){ if(viaCtx){ auto&a=AlgorithmContext::Get(); auto&p=PrintContext::Get(); a.trapezoidIntegrationEPS=s.te; a.simpsonIntegrationEPS=s.se; a.rombergIntegrationEPS=s.re; a.trapezoidIntegrationMaxSteps=s.tm; a.newtonRaphsonMaxSteps=s.nr; a.brentMaxSteps=s.br; p.vectorWidth=s.vw; p.vectorPrecision=s.vp; p.vectorNWidth=s.nw; p.vectorNPrecision=s.np; } else { Defaults::TrapezoidIntegrationEPS=s.te; Defaults::SimpsonIntegrationEPS=s.se; Defaults::RombergIntegrationEPS=s.re; Defaults::TrapezoidIntegrationMaxSteps=s.tm; Defaults::NewtonRaphsonMaxSteps=s.nr; Defaults::BrentMaxSteps=s.br; Defaults::VectorPrintWidth=s.vw; Defaults::VectorPrintPrecision=s.vp; Defaults::VectorNPrintWidth=s.nw; Defaults::VectorNPrintPrecision=s.np; } };
 auto text=[](const S&s){ Vector<Real> v(3); v[0]=1./3; v[1]=-2./7; v[2]=1e5/3; std::ostringstream o; v.Print(o,s.vw,s.vp); return o.str(); };
 VD untouched; probe(untouched); std::atomic<int> phase{0}; std::vector<VD> got(4); std::vector<int> ok(4,1); std::vector<std::string> txt(4); std::vector<std::thread> th; for(int t=0;t<4;t++) th.emplace_back([&,t]{ VD before; probe(before); if(!same(before,untouched)) ok[t]=2; phase++; while(phase<4) std::this_thread::yield(); apply(set[t]); phase++; while(phase<8) std::this_thread::yield(); const S&s=set[t]; if((double)Defaults::TrapezoidIntegrationEPS!=s.te||(int)Defaults::VectorPrintWidth!=s.vw||(int)Defaults::BrentMaxSteps!=s.br||AlgorithmContext::Get().simpsonIntegrationEPS!=s.se||PrintContext::Get().vectorNPrecision!=s.np||(int)Defaults::NewtonRaphsonMaxSteps!=s.nr) ok[t]=3; for(int k=0;k<2;k++) { got[t].clear(); probe(got[t]); } Vector<Real> v(3); v[0]=1./3; v[1]=-2./7; v[2]=1e5/3; std::ostringstream o; o<<v; txt[t]=o.str(); }); for(auto&t:th) t.join();
 for(int t=0;t<4;t++){ c.check(ok[t]!=2,"fresh-thread-default"); c.check(ok[t]!=3,"leaked"); VD alone; std::thread([&]{ apply(set[t]); probe(alone); }).join(); c.check(same(alone,got[t]),"not-as-alone"); c.check(txt[t]==text(set[t]),"print-setting-used"); } VD after; probe(after); c.check(same(after,untouched),"main-thread-changed"); S now={AlgorithmContext::Get().trapezoidIntegrationEPS,0,0,PrintContext::Get().vectorWidth}; c.check(now.te==init.te&&now.vw==init.vw&&(double)Defaults::TrapezoidIntegrationEPS==init.te,"main-settings-changed"); c.ev("settings"); }
FAMILY(random,10){ std::atomic<int> bad{0}; std::vector<VD> got(4); std::vector<std::thread> th; for(int t=0;t<4;t++) th.emplace_back([&,t]{ for(int i=0;i<200;i++){ double u=Random::UniformReal(-2,5); if(!(u>=-2&&u<=5)) bad++; int k=Random::UniformInt(-3,4); if(k<-3||k>4) bad++; got[t].push_back(u); } }); for(auto&t:th) t.join(); c.check(bad==0,"range"); for(int i=0;i<4;i++)for(int j=0;j<i;j++) c.check(!same(got[i],got[j]),"threads-share-stream"); c.ev("random"); c.note("r"); }
MON_MAIN()
