#include "mon.h"
#include "core/FieldOperations.h"
#include "core/Fields.h"
#include "core/MetricTensor.h"
#include "core/CoordTransf.h"
#include "core/CoordTransf/CoordTransfSpherical.h"
#include "core/CoordTransf/CoordTransfCylindrical.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "algorithms/FieldAnalyzers.h"
#include "algorithms/FieldLineTracer.h"
#include "la.h"
using namespace MML; using mon::Case; typedef long double L; typedef VectorN<Real,3> V3;
// analytic scalar function of N variables with exact derivatives
template<int N> struct An { struct T{ int k; L a,p; L w[N]; }; std::vector<T> t; L q[N][N],l[N],c0;
 void rnd(Case&c,int n){ for(int k=0;k<n;k++){ T x; x.k=c.r.i(0,1); x.a=c.r.uni(-2,2); x.p=c.r.uni(0,6); L m= x.k?0.5:1; for(int i=0;i<N;i++) x.w[i]=c.r.uni(-1,1)*m; t.push_back(x);} for(int i=0;i<N;i++){ l[i]=c.r.uni(-2,2); for(int j=0;j<N;j++) q[i][j]=c.r.uni(-1,1);} c0=c.r.uni(-3,3); }
 template<class P> L ph(const T&x,const P&y)const{ L s=x.k?0:x.p; for(int i=0;i<N;i++) s+=x.w[i]*(L)y[i]; return s; }
 template<class P> L f(const P&y)const{ L s=c0; for(auto&x:t) s+=x.a*(x.k?expl(ph(x,y)):sinl(ph(x,y))); for(int i=0;i<N;i++){ s+=l[i]*y[i]; for(int j=0;j<N;j++) s+=q[i][j]*(L)y[i]*y[j]; } return s; }
 template<class P> L d(int i,const P&y)const{ L s=l[i]; for(auto&x:t) s+=x.a*x.w[i]*(x.k?expl(ph(x,y)):cosl(ph(x,y))); for(int j=0;j<N;j++) s+=(q[i][j]+q[j][i])*y[j]; return s; }
 template<class P> L dd(int i,int j,const P&y)const{ L s=q[i][j]+q[j][i]; for(auto&x:t) s+=x.a*x.w[i]*x.w[j]*(x.k?expl(ph(x,y)):-sinl(ph(x,y))); return s; }
 template<class P> L mag(const P&y)const{ L s=1; for(auto&x:t) s+=fabsl(x.a)*(x.k?expl(ph(x,y)):1); for(int i=0;i<N;i++){ s+=fabsl(l[i]*y[i]); for(int j=0;j<N;j++) s+=fabsl(q[i][j]*y[i]*y[j]); } return s; } };
typedef An<3> A3;
template<int N> struct SF: IScalarFunction<N>{ std::function<Real(const VectorN<Real,N>&)> g; SF(std::function<Real(const VectorN<Real,N>&)> h):g(h){} Real operator()(const VectorN<Real,N>&x)const override{ return g(x);} };
template<int N> struct VF: IVectorFunction<N>{ std::function<VectorN<Real,N>(const VectorN<Real,N>&)> g; VF(std::function<VectorN<Real,N>(const VectorN<Real,N>&)> h):g(h){} VectorN<Real,N> operator()(const VectorN<Real,N>&x)const override{ return g(x);} };
// sys 0 spherical, 1 cylindrical: position, orthonormal frame rows e[k], scale factors h
struct Fr{ L x[3],e[3][3],h[3]; };
template<class P> Fr frame(int sys,const P&q){ Fr f; if(sys==0){ L r=q[0],st=sinl(q[1]),ct=cosl(q[1]),sp=sinl(q[2]),cp=cosl(q[2]); L X[3]={r*st*cp,r*st*sp,r*ct},E[3][3]={{st*cp,st*sp,ct},{ct*cp,ct*sp,-st},{-sp,cp,0}},H[3]={1,r,r*st}; memcpy(f.x,X,sizeof X); memcpy(f.e,E,sizeof E); memcpy(f.h,H,sizeof H); }
 else { L r=q[0],sp=sinl(q[1]),cp=cosl(q[1]); L X[3]={r*cp,r*sp,q[2]},E[3][3]={{cp,sp,0},{-sp,cp,0},{0,0,1}},H[3]={1,r,1}; memcpy(f.x,X,sizeof X); memcpy(f.e,E,sizeof E); memcpy(f.h,H,sizeof H);} return f; }
static V3 rq(Case&c,int sys){ V3 q; bool near=c.r.coin(0.2); q[0]=near?c.r.uni(0.03,0.3):c.r.uni(0.3,4); if(sys==0){ q[1]=c.r.coin(0.2)?(c.r.coin()?c.r.uni(0.05,0.2):M_PI-c.r.uni(0.05,0.2)):c.r.uni(0.2,M_PI-0.2); q[2]=c.r.uni(-M_PI,M_PI);} else { q[1]=c.r.uni(-M_PI,M_PI); q[2]=c.r.uni(-3,3);} c.in("q",std::vector<double>{q[0],q[1],q[2]}); if(near) c.ev("near-axis"); return q; }
// accuracy: a first derivative is good to ~1e-9*mag, a second to ~1e-5*mag (default step), divided by the scale factors
static const L T1=2e-8L, T2=2e-4L;
static L TO(int o){ switch(o){ case 1: return 2e-6; case 2: return 2e-7; case 4: return T1; case 6: return T1; default: return T1; } }
#if PART==1
FAMILY(cart,400){ A3 f; f.rnd(c,c.r.i(0,4)); A3 G[3]; for(auto&g:G) g.rnd(c,c.r.i(0,3)); V3 x{c.r.uni(-3,3),c.r.uni(-3,3),c.r.uni(-3,3)}; c.in("x",std::vector<double>{x[0],x[1],x[2]});
 SF<3> s([&](const V3&y){ return (Real)f.f(y);}); VF<3> v([&](const V3&y){ return V3{(Real)G[0].f(y),(Real)G[1].f(y),(Real)G[2].f(y)};}); L m=f.mag(x)*3,mv=(G[0].mag(x)+G[1].mag(x)+G[2].mag(x))*3;
 int o=c.r.pick({1,2,4,6,8}); V3 g=ScalarFieldOperations::GradientCart<3>(s,x),go=ScalarFieldOperations::GradientCart<3>(s,x,o); MetricTensorCartesian3D met; V3 gm=ScalarFieldOperations::Gradient<3>(s,x,met);
 for(int i=0;i<3;i++){ c.close(g[i],f.d(i,x),T1*m,"grad"); c.close(go[i],f.d(i,x),TO(o)*m,"grad-order"); c.close(gm[i],f.d(i,x),T1*m,"grad-metric"); }
 L lap=0; for(int i=0;i<3;i++) lap+=f.dd(i,i,x); c.close(ScalarFieldOperations::LaplacianCart<3>(s,x),lap,T2*m,"laplacian");
 L div=0; for(int i=0;i<3;i++) div+=G[i].d(i,x); c.close(VectorFieldOperations::DivCart<3>(v,x),div,T1*mv,"div"); c.close(VectorFieldOperations::Divergence<3>(v,x,met),div,T1*mv,"div-metric"); c.close(VectorFieldOperations::DivergenceViaDet<3>(v,x,met),div,T1*mv,"div-det");
 Vec3Cart cu=VectorFieldOperations::CurlCart(v,x); for(int i=0;i<3;i++){ int a=(i+1)%3,b=(i+2)%3; c.close(cu[i],G[b].d(a,x)-G[a].d(b,x),T1*mv,"curl"); }
 // detailed forms
 FieldOperationConfig cf; cf.estimate_error=c.r.coin(); auto dg=ScalarFieldOperations::GradientCartDetailed<3>(s,x,cf); c.check(dg.status==AlgorithmStatus::Success,"detailed-status"); auto dl=ScalarFieldOperations::LaplacianCartDetailed<3>(s,x,cf); auto dd=VectorFieldOperations::DivCartDetailed<3>(v,x,cf); auto dc=VectorFieldOperations::CurlCartDetailed(v,x,cf);
 for(int i=0;i<3;i++){ c.close(dg.value[i],f.d(i,x),T1*m,"grad-detailed"); c.check(dc.value[i]==cu[i],"curl-detailed"); if(cf.estimate_error) c.check(std::isfinite(dg.error[i])&&dc.error[i]>=0,"error-finite"); }
 c.close(dl.value,lap,T2*m,"laplacian-detailed"); c.close(dd.value,div,T1*mv,"div-detailed"); if(cf.estimate_error) c.check(dl.error>=0&&dd.error>=0,"error-sign");
 int bad=c.r.pick({3,5,7,-1,9,10}); c.throws<std::invalid_argument>([&]{ ScalarFieldOperations::GradientCart<3>(s,x,bad); },"bad-order"); cf.derivative_order=bad; cf.exception_policy=EvaluationExceptionPolicy::Propagate; c.throws<std::invalid_argument>([&]{ ScalarFieldOperations::GradientCartDetailed<3>(s,x,cf); },"bad-order-detailed"); cf.exception_policy=EvaluationExceptionPolicy::ConvertToStatus; auto bd=ScalarFieldOperations::GradientCartDetailed<3>(s,x,cf); c.check(bd.status==AlgorithmStatus::InvalidInput&&!bd.error_message.empty(),"bad-order-status"); cf.derivative_order=o; auto od=ScalarFieldOperations::GradientCartDetailed<3>(s,x,cf); for(int i=0;i<3;i++) c.check(od.value[i]==go[i],"order-detailed");
 // analyzers agree
 ScalarFieldAnalyzer sa(s); VectorFieldAnalyzer va(v); Vec3Cart p(x[0],x[1],x[2]); c.check(sa.LaplacianAt(p)==ScalarFieldOperations::LaplacianCart<3>(s,x)&&va.DivergenceAt(p)==VectorFieldOperations::DivCart<3>(v,x),"analyzer"); Vec3Cart ac=va.CurlAt(p),ag=sa.GradientAt(p); for(int i=0;i<3;i++) c.check(ac[i]==cu[i]&&ag[i]==g[i],"analyzer-vec"); c.ev("cart"); }
FAMILY(dims,200){ // 2 and 4 dimensions
 An<2> f; f.rnd(c,3); An<4> h,H[4]; h.rnd(c,3); for(auto&z:H) z.rnd(c,2); VectorN<Real,2> x{c.r.uni(-3,3),c.r.uni(-3,3)}; VectorN<Real,4> y{c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; c.in("x",std::vector<double>{x[0],x[1]}); c.in("y",std::vector<double>{y[0],y[1],y[2],y[3]}); SF<2> s([&](const VectorN<Real,2>&z){return (Real)f.f(z);}); SF<4> t([&](const VectorN<Real,4>&z){return (Real)h.f(z);}); VF<4> v([&](const VectorN<Real,4>&z){ VectorN<Real,4> r; for(int i=0;i<4;i++) r[i]=H[i].f(z); return r;});
 auto g=ScalarFieldOperations::GradientCart<2>(s,x); auto g4=ScalarFieldOperations::GradientCart<4>(t,y); for(int i=0;i<2;i++) c.close(g[i],f.d(i,x),T1*3*f.mag(x),"grad2"); for(int i=0;i<4;i++) c.close(g4[i],h.d(i,y),T1*3*h.mag(y),"grad4"); c.close(ScalarFieldOperations::LaplacianCart<2>(s,x),f.dd(0,0,x)+f.dd(1,1,x),T2*3*f.mag(x),"lap2"); L l4=0,d4=0,mm=0; for(int i=0;i<4;i++){ l4+=h.dd(i,i,y); d4+=H[i].d(i,y); mm+=H[i].mag(y);} c.close(ScalarFieldOperations::LaplacianCart<4>(t,y),l4,T2*4*h.mag(y),"lap4"); c.close(VectorFieldOperations::DivCart<4>(v,y),d4,T1*3*mm,"div4");
 MetricTensorMinkowski M; auto gm=ScalarFieldOperations::Gradient<4>(t,y,M); for(int i=0;i<4;i++) c.close(gm[i],(i?1:-1)*h.d(i,y),T1*3*h.mag(y),"grad-minkowski"); c.close(VectorFieldOperations::Divergence<4>(v,y,M),d4,T1*3*mm,"div-minkowski"); c.ev("dims"); }
FAMILY(analyzer,60){ // regional predicates on fields of known character
 L k=c.r.uni(0.5,2); L a=c.r.uni(-2,2),b=c.r.uni(-2,2),o[3]={c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; Vec3Cart lo(c.r.uni(-2,0),c.r.uni(-2,0),c.r.uni(-2,0)),hi(c.r.uni(0.5,2),c.r.uni(0.5,2),c.r.uni(0.5,2)); int n=c.r.i(2,5); c.in("k",(double)k); c.in("n",n);
 SF<3> harm([&](const V3&x){ return (Real)(a*(x[0]*x[0]-x[1]*x[1])+b*x[1]*x[2]+o[0]*x[0]+sinl(x[0])*sinhl(x[1])); }); SF<3> non([&](const V3&x){ return (Real)(k*x[0]*x[0]+b*x[1]); }); ScalarFieldAnalyzer h(harm),q(non); c.check(h.IsHarmonic(lo,hi,n,1e-3),"harmonic"); c.check(!q.IsHarmonic(lo,hi,n,1e-3),"not-harmonic");
 VF<3> rot([&](const V3&x){ return V3{(Real)(o[1]*x[2]-o[2]*x[1]),(Real)(o[2]*x[0]-o[0]*x[2]),(Real)(o[0]*x[1]-o[1]*x[0])}; }); L on=sqrtl(o[0]*o[0]+o[1]*o[1]+o[2]*o[2]); VectorFieldAnalyzer R(rot); c.check(R.IsSolenoidal(lo,hi,n,1e-6),"rot-solenoidal"); if(on>0.1) c.check(!R.IsIrrotational(lo,hi,n,1e-3)&&!R.IsConservative(lo,hi,n,1e-3),"rot-not-irrotational"); c.close(R.MaxCurlMagnitude(lo,hi,n),2*on,1e-7*(1+on),"max-curl"); c.check(R.MaxDivergence(lo,hi,n)<1e-7,"max-div0");
 VF<3> gr([&](const V3&x){ return V3{(Real)(k*x[0]+x[1]*x[2]),(Real)(x[0]*x[2]),(Real)(x[0]*x[1])}; }); VectorFieldAnalyzer G(gr); c.check(G.IsIrrotational(lo,hi,n,1e-6)&&G.IsConservative(lo,hi,n,1e-6),"grad-irrotational"); c.check(!G.IsSolenoidal(lo,hi,n,1e-3),"grad-not-solenoidal"); c.close(G.MaxDivergence(lo,hi,n),k,1e-7L*(1+k),"max-div");
 // a violation confined to one corner of the sampled box must be seen (the far corner is a sample point)
 VF<3> cor([&](const V3&x){ double d=x[2]-(hi[2]-0.05); return V3{0.0,0.0,d>0?d*2:0.0}; }); VectorFieldAnalyzer Cn(cor); c.check(!Cn.IsSolenoidal(lo,hi,n,1e-2),"corner"); SF<3> hc([&](const V3&x){ double d=x[0]-(hi[0]-0.05); return d>0?d*d:0.0;}); ScalarFieldAnalyzer Hc(hc); c.check(!Hc.IsHarmonic(lo,hi,n,1e-2),"corner-harmonic");
 SF<3> sing([&](const V3&x){ return x[0]==lo[0]&&0?0.0:std::sqrt(x[0]-lo[0]-1e-9); }); ScalarFieldAnalyzer Sg(sing); c.check(!Sg.IsHarmonic(lo,hi,n,1e-2),"undefined-not-harmonic");
 // critical points on the grid, exactly the grid points with vanishing gradient
 int gi=c.r.i(0,n),gj=c.r.i(0,n),gk=c.r.i(0,n); double P[3]={lo[0]+gi*((hi[0]-lo[0])/n),lo[1]+gj*((hi[1]-lo[1])/n),lo[2]+gk*((hi[2]-lo[2])/n)}; SF<3> cp([&](const V3&x){ double s=0; for(int i=0;i<3;i++) s+=(i+1)*(x[i]-P[i])*(x[i]-P[i]); return (double)k*s; }); ScalarFieldAnalyzer C(cp); auto cl=C.FindCriticalPoints(lo,hi,n,1e-4); c.check(cl.size()==1,"critical-count"); if(cl.size()==1) for(int i=0;i<3;i++) c.close(cl[0][i],P[i],1e-9,"critical-pos"); c.check(C.IsCriticalPoint(Vec3Cart(P[0],P[1],P[2])),"is-critical"); c.check(!C.IsCriticalPoint(Vec3Cart(P[0]+0.1,P[1],P[2])),"is-not-critical");
 // circulation: rigid rotation gives 2 (omega.n) * polygon area
 Vec3Cart ctr(c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)),nn(c.r.normal(),c.r.normal(),c.r.normal()); if(c.r.coin(0.2)) nn=Vec3Cart(c.r.coin()?2:0,0,0)+Vec3Cart(0,0,0.0); if(nn.NormL2()==0) nn=Vec3Cart(0,-3,0); double rad=c.r.uni(0.1,2); int np=c.r.i(3,200); L dn=0,nl=nn.NormL2(); for(int i=0;i<3;i++) dn+=o[i]*nn[i]/nl; L area=0.5L*np*rad*rad*sinl(2*M_PIl/np); c.close(R.CirculationAroundCircle(ctr,nn,rad,np),2*dn*area,1e-11L*(1+on)*rad*(10),"circulation"); SF<3> dummy([](const V3&){return 0.0;}); VF<3> lin([&](const V3&x){ return V3{k*x[0],a*x[1],b*x[2]}; }); VectorFieldAnalyzer Ln(lin); c.close(Ln.CirculationAroundCircle(ctr,nn,rad,np),0,1e-11L*20*(1+rad)*(rad),"circulation-conservative"); c.ev("analyzer"); }
#endif
#if PART==2
static void curvi(Case&c,int sys){ A3 f; f.rnd(c,c.r.i(0,3)); A3 G[3]; for(auto&g:G) g.rnd(c,c.r.i(0,2)); V3 q=rq(c,sys); Fr F=frame(sys,q);
 SF<3> s([&](const V3&y){ Fr t=frame(sys,y); return (Real)f.f(t.x);}); auto phys=[&](const V3&y){ Fr t=frame(sys,y); V3 r; for(int i=0;i<3;i++){ L a=0; for(int k=0;k<3;k++) a+=t.e[i][k]*G[k].f(t.x); r[i]=a;} return r;}; VF<3> v(phys); VF<3> vc([&](const V3&y){ V3 r=phys(y); Fr t=frame(sys,y); for(int i=0;i<3;i++) r[i]/=t.h[i]; return r;}); VF<3> vd([&](const V3&y){ V3 r=phys(y); Fr t=frame(sys,y); for(int i=0;i<3;i++) r[i]*=t.h[i]; return r;});
 L R=1+F.h[1]+F.h[2]; L m=f.mag(F.x)*3*R*R,mv=(G[0].mag(F.x)+G[1].mag(F.x)+G[2].mag(F.x))*3*R*R; L hm=std::min({F.h[0],F.h[1],F.h[2]}); L i1=1/hm,i2=i1*i1; L gr[3],lap=0,div=0,cur[3],J[3][3]; for(int i=0;i<3;i++){ gr[i]=0; for(int k=0;k<3;k++) gr[i]+=F.e[i][k]*f.d(k,F.x); lap+=f.dd(i,i,F.x); div+=G[i].d(i,F.x); for(int k=0;k<3;k++) J[i][k]=G[i].d(k,F.x); } L cc[3]={J[2][1]-J[1][2],J[0][2]-J[2][0],J[1][0]-J[0][1]}; for(int i=0;i<3;i++){ cur[i]=0; for(int k=0;k<3;k++) cur[i]+=F.e[i][k]*cc[k]; }
 int o=c.r.pick({1,2,4,6,8}); FieldOperationConfig cf; cf.estimate_error=c.r.coin(); cf.derivative_order=c.r.coin()?0:o; V3 g,g2,g3,cu,cu2; Real lp,lp2,dv,dv2;
 if(sys==0){ Vec3Sph p(q[0],q[1],q[2]); g=ScalarFieldOperations::GradientSpher(s,p); g2=ScalarFieldOperations::GradientSpher(s,p,o); auto r=ScalarFieldOperations::GradientSpherDetailed(s,p,cf); g3=r.value; c.check(r.status==AlgorithmStatus::Success,"status"); lp=ScalarFieldOperations::LaplacianSpher(s,p); lp2=ScalarFieldOperations::LaplacianSpherDetailed(s,p,cf).value; dv=VectorFieldOperations::DivSpher(v,q); dv2=VectorFieldOperations::DivSpherDetailed(v,q,cf).value; cu=VectorFieldOperations::CurlSpher(v,q); cu2=VectorFieldOperations::CurlSpherDetailed(v,q,cf).value; }
 else { Vec3Cyl p(q[0],q[1],q[2]); g=ScalarFieldOperations::GradientCyl(s,p); g2=ScalarFieldOperations::GradientCyl(s,p,o); auto r=ScalarFieldOperations::GradientCylDetailed(s,p,cf); g3=r.value; c.check(r.status==AlgorithmStatus::Success,"status"); lp=ScalarFieldOperations::LaplacianCyl(s,p); lp2=ScalarFieldOperations::LaplacianCylDetailed(s,p,cf).value; dv=VectorFieldOperations::DivCyl(v,q); dv2=VectorFieldOperations::DivCylDetailed(v,q,cf).value; cu=VectorFieldOperations::CurlCyl(v,q); cu2=VectorFieldOperations::CurlCylDetailed(v,q,cf).value; }
 for(int i=0;i<3;i++){ c.close(g[i],gr[i],T1*m*i1,"grad"); c.close(g2[i],gr[i],20*TO(o)*m*i1,"grad-order"); c.close(g3[i],gr[i],(cf.derivative_order?20*TO(o):T1)*m*i1,"grad-detailed"); c.close(cu[i],cur[i],T1*mv*i1,"curl"); c.check(cu2[i]==cu[i],"curl-detailed"); } c.close(lp,lap,T2*m*i2,"laplacian"); c.check(lp2==lp&&dv2==dv,"detailed-same"); c.close(dv,div,T1*mv*i1,"div");
 // general-metric forms work with coordinate components
 MetricTensorSpherical ms; MetricTensorCylindrical mc; const MetricTensorField<3>&M=sys==0?(const MetricTensorField<3>&)ms:(const MetricTensorField<3>&)mc; V3 gm=ScalarFieldOperations::Gradient<3>(s,q,M); for(int i=0;i<3;i++) c.close(gm[i],gr[i]/F.h[i],T1*m*i2,"grad-metric"); c.close(VectorFieldOperations::Divergence<3>(vc,q,M),div,20*T1*mv*i2,"div-metric"); c.close(VectorFieldOperations::DivergenceViaDet<3>(vc,q,M),div,20*T1*mv*i2*i1*R,"div-det");
 // metric, index gymnastics, Christoffel symbols and covariant derivative: basis E_i = h_i e_i
 MatrixNM<Real,3,3> gc=M.GetCovariantMetric(q),gi=M.GetContravariantMetric(q); Tensor2<3> gt=M(q); V3 rv{c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; V3 up=M.RaiseIndex(rv,q),dn=M.LowerIndex(rv,q); for(int i=0;i<3;i++){ for(int j=0;j<3;j++){ c.close(gc[i][j],i==j?F.h[i]*F.h[i]:0,1e-14L*R*R,"metric"); c.close(gi[i][j],i==j?1/(F.h[i]*F.h[i]):0,1e-13L*i2*R*R,"metric-inv"); c.check(gt(i,j)==gc[i][j],"metric-tensor"); } c.close(up[i],rv[i]/(F.h[i]*F.h[i]),1e-13L*i2*R*R*3,"raise"); c.close(dn[i],rv[i]*F.h[i]*F.h[i],1e-13L*R*R,"lower"); }
 Tensor2<3> t(2,0); for(int i=0;i<3;i++)for(int j=0;j<3;j++) t(i,j)=c.r.uni(-2,2); int ix=c.r.i(0,1); Tensor2<3> tu=M.RaiseIndex(t,ix,q),tl=M.LowerIndex(t,ix,q); for(int i=0;i<3;i++)for(int j=0;j<3;j++){ L h=F.h[ix?j:i]; c.close(tu(i,j),t(i,j)/(h*h),1e-12L*i2*R*R,"raise2"); c.close(tl(i,j),t(i,j)*h*h,1e-13L*R*R,"lower2"); }
 auto gam=[&](int i,int j,int k)->L{ L r=q[0],th=q[1]; if(sys==0){ L st=sinl(th),ct=cosl(th); if(i==0&&j==1&&k==1) return -r; if(i==0&&j==2&&k==2) return -r*st*st; if(i==1&&((j==0&&k==1)||(j==1&&k==0))) return 1/r; if(i==1&&j==2&&k==2) return -st*ct; if(i==2&&((j==0&&k==2)||(j==2&&k==0))) return 1/r; if(i==2&&((j==1&&k==2)||(j==2&&k==1))) return ct/st; return 0; } if(i==0&&j==1&&k==1) return -r; if(i==1&&((j==0&&k==1)||(j==1&&k==0))) return 1/r; return 0; };
 { int i=c.r.i(0,2),j=c.r.i(0,2),k=c.r.i(0,2); for(int z=0;z<2;z++){ c.close(M.GetChristoffelSymbolSecondKind(i,j,k,q),gam(i,j,k),1e-9L*R*R*i2,"christoffel2"); c.close(M.GetChristoffelSymbolFirstKind(i,j,k,q),gam(k,i,j)*F.h[k]*F.h[k],1e-9L*R*R*R*R*i2,"christoffel1"); if(c.r.coin()){ i=sys==0?c.r.i(0,2):c.r.i(0,1); j=i==0?1:0; k=i==0?1:i; } } if(gam(i,j,k)!=0) c.ev("nonzero-christoffel"); }
 int dj=c.r.i(0,2),di=c.r.i(0,2); V3 cv=M.CovariantDerivativeContravar(vc,dj,q),cw=M.CovariantDerivativeCovar(vd,dj,q); for(int i=0;i<3;i++){ L w=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) w+=F.e[i][a]*J[a][b]*F.e[dj][b]; c.close(cv[i],w*F.h[dj]/F.h[i],20*T1*mv*R*i2*i1,"covd-contra"); c.close(cw[i],w*F.h[dj]*F.h[i],20*T1*mv*R*R*i2,"covd-co"); if(i==di){ c.close(M.CovariantDerivativeContravarComp(vc,i,dj,q),cv[i],1e-12L*mv*R*i2,"covd-comp"); c.close(M.CovariantDerivativeCovarComp(vd,i,dj,q),cw[i],1e-12L*mv*R*R*i1,"covd-comp-co"); } }
 c.ev(sys==0?"spherical":"cylindrical"); }
FAMILY(spher,300){ curvi(c,0); }
FAMILY(cyl,250){ curvi(c,1); }
FAMILY(transf_metric,120){ V3 q=rq(c,0); Fr F=frame(0,q); CoordTransfSphericalToCartesian tr; MetricTensorFromCoordTransf<Vector3Spherical,Vector3Cartesian,3> M(tr); L R=1+F.h[1]+F.h[2]; auto g=M.GetCovariantMetric(q); for(int i=0;i<3;i++)for(int j=0;j<3;j++) c.close(g[i][j],i==j?F.h[i]*F.h[i]:0,1e-9L*R*R,"sph"); CoordTransfCylindricalToCartesian tc; MetricTensorFromCoordTransf<Vector3Cylindrical,Vector3Cartesian,3> Mc(tc); V3 p{q[0],q[2],q[1]}; auto h=Mc.GetCovariantMetric(p); Fr Fc=frame(1,p); for(int i=0;i<3;i++)for(int j=0;j<3;j++) c.close(h[i][j],i==j?Fc.h[i]*Fc.h[i]:0,1e-9L*R*R,"cyl"); c.close(M.GetChristoffelSymbolSecondKind(0,1,1,q),-(L)q[0],1e-5L*R*R,"christoffel"); c.ev("transf-metric"); }
FAMILY(singular,300){ // documented policies exactly at and next to coordinate singularities
 int sys=c.r.i(0,1); V3 q=rq(c,sys); int w=sys==0?c.r.i(0,2):0; if(w==0) q[0]=c.r.coin()?0:1e-14; else q[1]=w==1?0:M_PI; c.in("q",std::vector<double>{q[0],q[1],q[2]}); SF<3> s([&](const V3&y){ return y[0]*2+y[1]*3-y[2]; }); VF<3> v([&](const V3&y){ return V3{1+y[0],2+y[1],3+y[2]}; }); typedef SingularityPolicy P; struct O{ const char*n; std::function<std::vector<double>(P)> f; }; std::vector<O> ops; auto vec=[](const V3&x){ return std::vector<double>{x[0],x[1],x[2]}; };
 if(sys==0){ Vec3Sph p(q[0],q[1],q[2]); ops={{"grad",[&,p](P k){ return vec(ScalarFieldOperations::GradientSpher(s,p,k)); }},{"grad4",[&,p](P k){ return vec(ScalarFieldOperations::GradientSpher(s,p,4,k)); }},{"lap",[&,p](P k){ return std::vector<double>{ScalarFieldOperations::LaplacianSpher(s,p,k)}; }},{"div",[&](P k){ return std::vector<double>{VectorFieldOperations::DivSpher(v,q,k)}; }},{"curl",[&](P k){ return vec(VectorFieldOperations::CurlSpher(v,q,k)); }}}; }
 else { Vec3Cyl p(q[0],q[1],q[2]); ops={{"grad",[&,p](P k){ return vec(ScalarFieldOperations::GradientCyl(s,p,k)); }},{"grad4",[&,p](P k){ return vec(ScalarFieldOperations::GradientCyl(s,p,4,k)); }},{"lap",[&,p](P k){ return std::vector<double>{ScalarFieldOperations::LaplacianCyl(s,p,k)}; }},{"div",[&](P k){ return std::vector<double>{VectorFieldOperations::DivCyl(v,q,k)}; }},{"curl",[&](P k){ return vec(VectorFieldOperations::CurlCyl(v,q,k)); }}}; }
 for(auto&op:ops){ c.throws<DomainError>([&]{ op.f(P::Throw); },"throw"); auto n=op.f(P::ReturnNaN); bool any=false; for(double z:n) any|=std::isnan(z); c.check(any,"nan",op.n); for(double z:op.f(P::Clamp)) c.check(std::isfinite(z),"clamp",op.n); for(double z:op.f(P::ReturnZero)) c.check(std::isfinite(z)&&std::fabs(z)<1e6,"zero",op.n); bool inf=false; for(double z:op.f(P::ReturnInf)) inf|=!std::isfinite(z); c.check(inf,"inf",op.n); }
 FieldOperationConfig cf; cf.exception_policy=EvaluationExceptionPolicy::ConvertToStatus; AlgorithmStatus st= sys==0?VectorFieldOperations::CurlSpherDetailed(v,q,cf).status:VectorFieldOperations::CurlCylDetailed(v,q,cf).status; c.check(st==AlgorithmStatus::InvalidInput,"status"); cf.exception_policy=EvaluationExceptionPolicy::Propagate; c.throws<DomainError>([&]{ if(sys==0) VectorFieldOperations::DivSpherDetailed(v,q,cf); else VectorFieldOperations::DivCylDetailed(v,q,cf); },"propagate"); c.ev("singular"); }
#endif
#if PART==3
FAMILY(fields,300){ // built-in fields have their equations and their analytic character
 V3 x; do{ for(int i=0;i<3;i++) x[i]=c.r.uni(-3,3);}while(x.NormL2()<0.3||hypot(x[0],x[1])<0.2); double C=c.r.uni(-3,3); c.in("x",std::vector<double>{x[0],x[1],x[2]}); c.in("C",C); L r=sqrtl((L)x[0]*x[0]+(L)x[1]*x[1]+(L)x[2]*x[2]); L s=1+fabs(C); L i3=1+1/(r*r*r)+1/powl(hypotl(x[0],x[1]),3);
 Fields::InverseRadialFieldCart ph(C); Fields::InverseRadialForceFieldCart fo(C); Fields::InverseRadialFieldSpher phs(C); Fields::InverseRadialForceFieldSpher fos(C); c.close(ph(x),C/r,1e-14L*s*i3,"potential"); V3 sp{(Real)r,1.0,2.0}; c.close(phs(sp),C/r,1e-14L*s*i3,"potential-sph"); double rc=hypot(x[0],x[1]); c.close(Fields::InverseRadialPotentialFieldCyl(C,V3{rc,atan2(x[1],x[0]),x[2]}),C/r,1e-14L*s*i3,"potential-cyl"); c.close(Fields::InverseRadialPotentialFieldCart(C,x),C/r,1e-14L*s*i3,"potential-fn"); c.close(Fields::InverseRadialPotentialFieldSpher(C,sp),C/r,1e-14L*s*i3,"potential-fn-sph");
 V3 F=fo(x),g=ScalarFieldOperations::GradientCart<3>(ph,x); V3 Fs=fos(sp); c.close(Fs[0],-C/(r*r),1e-13L*s*i3,"force-sph"); c.check(Fs[1]==0&&Fs[2]==0,"force-sph-radial"); for(int i=0;i<3;i++){ c.close(F[i],-C*x[i]/(r*r*r),1e-13L*s*i3,"force"); c.close(g[i],F[i],1e-7L*s*i3*i3,"force-is-gradient"); } c.close(ScalarFieldOperations::LaplacianCart<3>(ph,x),0,1e-3L*s*i3*i3,"harmonic"); c.close(VectorFieldOperations::DivCart<3>(fo,x),0,1e-7L*s*i3*i3,"div-free");
 auto chk=[&](const IVectorFunction<3>&v,const V3&want,int df,int cf,const char*n){ V3 y=v(x); for(int i=0;i<3;i++) c.close(y[i],want[i],1e-12L*s*i3*10,n); if(df) c.close(VectorFieldOperations::DivCart<3>(v,x),0,1e-6L*s*i3*i3*10,(std::string(n)+"-div").c_str()); if(cf){ Vec3Cart q=VectorFieldOperations::CurlCart(v,x); for(int i=0;i<3;i++) c.close(q[i],0,1e-6L*s*i3*i3*10,(std::string(n)+"-curl").c_str()); } };
 double q2=x[0]*x[0]+x[1]*x[1]; chk(Fields::InfiniteLineCurrentField(C),V3{-C*x[1]/q2,C*x[0]/q2,0},1,1,"line-current"); Line3D zl(Pnt3Cart(0,0,c.r.uni(-2,2)),Vec3Cart(0,0,c.r.uni(0.5,2))); chk(Fields::InfiniteLineCurrentFieldGeneral(zl,C),V3{-C*x[1]/q2,C*x[0]/q2,0},1,1,"line-current-z");
 Vec3Cart ld(c.r.normal(),c.r.normal(),c.r.normal()); if(ld.NormL2()<0.1) ld=Vec3Cart(1,1,0); Pnt3Cart lp(c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)); { L d[3],n=ld.NormL2(),w[3]={x[0]-lp.X(),x[1]-lp.Y(),x[2]-lp.Z()},pr=0; for(int i=0;i<3;i++){ d[i]=ld[i]/n; pr+=w[i]*d[i]; } L p2=0; for(int i=0;i<3;i++){ w[i]-=pr*d[i]; p2+=w[i]*w[i]; } if(p2>0.05){ V3 want; for(int i=0;i<3;i++){ int a=(i+1)%3,b=(i+2)%3; want[i]=C*(d[a]*w[b]-d[b]*w[a])/p2; } i3+=1/(p2*p2); chk(Fields::InfiniteLineCurrentFieldGeneral(Line3D(lp,ld),C),want,1,1,"line-current-general"); } }
 V3 om{c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; chk(Fields::VortexField(om),V3{om[1]*x[2]-om[2]*x[1],om[2]*x[0]-om[0]*x[2],om[0]*x[1]-om[1]*x[0]},1,0,"vortex"); { Fields::VortexField vf(om); Vec3Cart q=VectorFieldOperations::CurlCart(vf,x); for(int i=0;i<3;i++) c.close(q[i],2*om[i],1e-8,"vortex-curl"); } chk(Fields::VortexField(C),V3{-C*x[1],C*x[0],0},1,0,"vortex-z");
 { V3 ax{c.r.normal(),c.r.normal(),c.r.normal()}; if(ax.NormL2()<0.1) ax=V3{0,2,0}; L n=ax.NormL2(),d[3],w[3],pr=0,p2=0; for(int i=0;i<3;i++){ d[i]=ax[i]/n; pr+=d[i]*x[i]; } for(int i=0;i<3;i++){ w[i]=x[i]-pr*d[i]; p2+=w[i]*w[i]; } if(p2>0.05){ V3 want; for(int i=0;i<3;i++){ int a=(i+1)%3,b=(i+2)%3; want[i]=C*(d[a]*w[b]-d[b]*w[a])/p2; } i3+=1/(p2*p2); chk(Fields::PotentialVortexField(C,ax),want,1,1,"potential-vortex"); } chk(Fields::PotentialVortexField(C),V3{-C*x[1]/q2,C*x[0]/q2,0},1,1,"potential-vortex-z"); }
 chk(Fields::SaddleField(C),V3{C*x[0],-C*x[1],0},1,1,"saddle"); V3 ce{c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; L w[3],R2=0; for(int i=0;i<3;i++){ w[i]=x[i]-ce[i]; R2+=w[i]*w[i]; } if(R2>0.1){ L Rn=sqrtl(R2),R3=R2*Rn; i3+=1/(R2*R2); chk(Fields::SourceSinkField(C,ce),V3{(Real)(C*w[0]/R3),(Real)(C*w[1]/R3),(Real)(C*w[2]/R3)},1,1,"source"); L pr=0; for(int i=0;i<3;i++) pr+=om[i]*w[i]; V3 want; for(int i=0;i<3;i++) want[i]=(3*pr*w[i]-R2*om[i])/(R2*R3); chk(Fields::DipoleField(om,ce),want,1,1,"dipole"); }
 double sg=c.r.uni(0.5,2); c.close(Fields::GaussianBumpField(C,sg,ce)(x),C*expl(-R2/(sg*(L)sg)),1e-13L*s,"gauss"); c.close(Fields::MexicanHatField(C,sg,ce)(x),C*(1-R2/((L)sg*sg))*expl(-R2/(2*(L)sg*sg)),1e-13L*s*(1+R2/(sg*sg)),"hat"); V3 pd{c.r.uni(-1,1),1,0}; V3 pf=Fields::InfinitePlaneCurrentField(C,pd)(x); for(int i=0;i<3;i++) c.close(pf[i],(x[2]>=0?1:-1)*C*pd[i],1e-15L*s*3,"plane"); c.ev("fields"); }
FAMILY(identities,150){ // curl grad = 0 and div curl = 0 through the library's own operators, in all three systems
 A3 f,G[3]; f.rnd(c,2); for(auto&g:G) g.rnd(c,2); int sys=c.r.i(0,2); c.in("sys",sys); V3 q= sys<2?rq(c,sys):V3{c.r.uni(-2,2),c.r.uni(-2,2),c.r.uni(-2,2)}; if(sys<2){ if(q[0]<0.3) q[0]+=0.3; if(sys==0&&sin(q[1])<0.25) q[1]=1; } auto X=[&](const V3&y,L*o){ if(sys<2){ Fr t=frame(sys,y); memcpy(o,t.x,sizeof t.x);} else for(int i=0;i<3;i++) o[i]=y[i]; }; SF<3> s([&](const V3&y){ L p[3]; X(y,p); return (Real)f.f(p);}); VF<3> gr([&](const V3&y)->V3{ if(sys==0) return ScalarFieldOperations::GradientSpher(s,Vec3Sph(y[0],y[1],y[2])); if(sys==1) return ScalarFieldOperations::GradientCyl(s,Vec3Cyl(y[0],y[1],y[2])); return ScalarFieldOperations::GradientCart<3>(s,y); }); VF<3> v([&](const V3&y){ if(sys==2) return V3{(Real)G[0].f(y),(Real)G[1].f(y),(Real)G[2].f(y)}; Fr t=frame(sys,y); V3 r; for(int i=0;i<3;i++){ L a=0; for(int k=0;k<3;k++) a+=t.e[i][k]*G[k].f(t.x); r[i]=a;} return r;}); VF<3> cv([&](const V3&y)->V3{ return sys==0?V3(VectorFieldOperations::CurlSpher(v,y)):sys==1?V3(VectorFieldOperations::CurlCyl(v,y)):V3(VectorFieldOperations::CurlCart(v,y)); });
 L p[3]; X(q,p); L R=1+fabsl(p[0])+fabsl(p[1])+fabsl(p[2]); L m=f.mag(p)*3*R*R*40,mv=(G[0].mag(p)+G[1].mag(p)+G[2].mag(p))*3*R*R*40; V3 cg= sys==0?V3(VectorFieldOperations::CurlSpher(gr,q)):sys==1?V3(VectorFieldOperations::CurlCyl(gr,q)):V3(VectorFieldOperations::CurlCart(gr,q)); for(int i=0;i<3;i++) c.close(cg[i],0,1e-6L*m,"curl-grad"); Real dc=sys==0?VectorFieldOperations::DivSpher(cv,q):sys==1?VectorFieldOperations::DivCyl(cv,q):VectorFieldOperations::DivCart<3>(cv,q); c.close(dc,0,1e-6L*mv,"div-curl"); L lap=0; for(int i=0;i<3;i++) lap+=f.dd(i,i,p); Real dg=sys==0?VectorFieldOperations::DivSpher(gr,q):sys==1?VectorFieldOperations::DivCyl(gr,q):VectorFieldOperations::DivCart<3>(gr,q); c.close(dg,lap,1e-6L*m,"div-grad"); c.ev("identities"); }
template<int N> static bool okline(Case&c,const FieldLine<N>&l,const BoundingBox<N>&b,const typename FieldLineTracer<N>::Config&g){ bool ok=true; for(auto&p:l.points){ ok&=b.Contains(p); for(int i=0;i<N;i++) ok&=std::isfinite(p[i]); } c.check(ok,"points-in-box"); c.check((int)l.size()<=(g.traceForward&&g.traceBackward?2*g.maxPoints:g.maxPoints),"max-points"); c.close(l.totalLength,(L)(l.empty()?0:l.size()-1)*g.stepSize,1e-9L*(1+l.totalLength),"length"); for(size_t i=1;i<l.size();i++){ double d=(l.points[i]-l.points[i-1]).NormL2(); if(d>g.stepSize*(1+1e-9)) ok=false; } c.check(ok,"step-length"); return ok; }
FAMILY(lines,150){ typedef VectorN<Real,2> V2; // lines of fields with known integral curves
 int k=c.r.i(0,4); c.in("kind",k); FieldLineTracer<2>::Config g; g.stepSize=c.r.pick({0.01,0.02,0.05}); g.maxLength=c.r.uni(0.5,15); g.maxPoints=c.r.coin(0.2)?c.r.i(2,40):10000; g.traceForward=c.r.coin(0.8); g.traceBackward=!g.traceForward||c.r.coin(); if(k==3){ g.traceForward=true; g.traceBackward=false; } double B=c.r.uni(1.5,5); auto box=BoundingBox<2>::Create2D(-B,B,-B*0.8,B*0.9); double am=exp(c.r.uni(-5,5)); V2 x0{c.r.uni(0.3,1.2),c.r.uni(0.2,1)}; V2 dir{c.r.normal(),c.r.normal()}; if(dir.NormL2()<0.1) dir=V2{1,0}; c.in("x0",std::vector<double>{x0[0],x0[1]}); VF<2> f([&](const V2&x)->V2{ switch(k){ case 0: return am*dir; case 1: return V2{-am*x[1],am*x[0]}; case 2: return V2{am*x[0],-am*x[1]}; case 3: return am*x; default: return V2{am*x[1],am*sin(x[0])*0.5}; } }); FieldLineTracer<2> T(g); auto l=T.Trace(f,x0,box); okline<2>(c,l,box,g); c.check(!l.empty(),"nonempty"); auto inv=[&](const V2&x)->L{ switch(k){ case 0: return ((L)x[0]*dir[1]-(L)x[1]*dir[0])/dir.NormL2(); case 1: return hypotl(x[0],x[1]); case 2: return (L)x[0]*x[1]; case 3: return atan2l(x[1],x[0]); default: return 0.5L*x[1]*x[1]+0.5L*cosl(x[0]); } }; bool mem=false; for(auto&p:l.points){ c.close(inv(p),inv(x0),1e-4*(k==2||k==4?1+B:1),"on-curve"); mem|=p[0]==x0[0]&&p[1]==x0[1]; } c.check(mem,"start-on-line"); // orientation follows the field
 for(size_t i=1;i<l.size();i++){ V2 d=l.points[i]-l.points[i-1]; V2 F=f(l.points[i-1]); double m=F.NormL2(); if(m>1e-3*am) if(!c.check((d[0]*F[0]+d[1]*F[1])>0.5*m*g.stepSize,"direction")) break; } if(!l.hitBoundary&&!l.hitSingularity){ if(!(g.traceForward&&g.traceBackward)) c.check(l.totalLength>=g.maxLength-1e-9||(int)l.size()>=g.maxPoints,"stopped-early"); } else c.ev("boundary"); if(l.hitBoundary){ const V2&e=l.points.back(),&s=l.points.front(); auto edge=[&](const V2&p){ return std::min({B-p[0],p[0]+B,B*0.9-p[1],p[1]+B*0.8})<=g.stepSize*1.001; }; c.check(edge(e)||edge(s),"boundary-near"); }
 c.check(T.Trace(f,V2{B+1,0},box).empty(),"outside"); auto L2=T.TraceFromSource(f,V2{0.1,0.2},c.r.i(3,9),0.3,box); double a0=0; for(size_t i=0;i<L2.size();i++){ bool found=false; for(auto&p:L2[i].points) found|=fabs(hypot(p[0]-0.1,p[1]-0.2)-0.3)<1e-12; c.check(found||L2[i].empty(),"seed"); } c.ev("lines2"); }
FAMILY(lines3,80){ FieldLineTracer<3>::Config g; g.stepSize=c.r.uni(0.02,0.1); g.maxLength=c.r.uni(1,6); g.traceBackward=c.r.coin(); auto box=BoundingBox<3>::Create3D(-3,3,-3,3,-3,3); FieldLineTracer<3> T(g); int k=c.r.i(0,2); c.in("k",k); double Q=c.r.uni(0.5,3)*(c.r.coin()?1:-1); Fields::SourceSinkField src(Q); Fields::VortexField vor(V3{0,0,Q}); SF<3> u([](const V3&){return 0.0;}); int n=c.r.i(1,12); const IVectorFunction<3>&F=k==0?(const IVectorFunction<3>&)src:(const IVectorFunction<3>&)vor; auto ls=T.TraceFromSource(F,V3{0,0,0},n,0.5,box); c.check((int)ls.size()==n,"count"); for(auto&l:ls){ if(k) okline<3>(c,l,box,g); if(l.empty()) continue; V3 s; bool f=false; for(auto&p:l.points) if(fabs(p.NormL2()-0.5)<1e-12&&!f){ s=p; f=true; } c.check(f,"seed-on-sphere"); if(!f) continue; for(auto&p:l.points){ if(k==0){ if(p.NormL2()<0.15||(Q<0&&0)) continue; V3 cr{p[1]*s[2]-p[2]*s[1],p[2]*s[0]-p[0]*s[2],p[0]*s[1]-p[1]*s[0]}; c.check(cr.NormL2()<=1e-7,"radial"); } else { c.close(p[2],s[2],1e-9,"height"); if(hypot(s[0],s[1])>0.15) c.close(hypot(p[0],p[1]),hypot(s[0],s[1]),1e-2,"radius"); } } }
 // a field that is undefined or infinite somewhere ends the line instead of producing made-up points
 int z=c.r.i(0,2); VF<3> bad([&](const V3&x){ double w=x[0]<1?1.0: z==0?NAN: z==1?INFINITY:0.0; return V3{w,0.0,0.0}; }); auto l=T.Trace(bad,V3{0.3,0,0},box); bool ok=!l.empty(); for(auto&p:l.points) ok&=std::isfinite(p[0])&&p[0]<=1+g.stepSize; c.check(ok,"undefined-field"); if(g.maxLength>1.5) c.check(l.hitSingularity,"undefined-reported"); c.ev("lines3"); }
#endif
MON_MAIN()
