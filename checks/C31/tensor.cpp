// C31: tensors of rank 2-5 in 2, 3 and 4 dimensions against component-wise definitions.
#include "mon.h"
#include "MMLBase.h"
#include "base/Tensor.h"
#include "base/BaseUtils.h"
#include <sstream>
using namespace MML; typedef long double L;
template<int N> static VectorN<Real,N> rv(mon::Case&c){ VectorN<Real,N> v; for(int i=0;i<N;i++) v[i]=c.r.coin(.2)?c.r.i(-1,1):c.r.uni(-3,3); return v; }
static L val(mon::Case&c){ return c.r.i(0,4)==0?(double)c.r.i(-2,2):c.r.uni(-5,5); }
template<int N> static void rank2(mon::Case&c){ int nc=c.r.i(0,2); Tensor2<N> t(nc,2-nc),u(nc,2-nc); std::vector<double> a(N*N),b(N*N); for(int i=0;i<N*N;i++){ a[i]=val(c); b[i]=val(c); t(i/N,i%N)=a[i]; u(i/N,i%N)=b[i]; } c.in("nco",nc); c.in("t",a); double k=c.r.logmag(-2,2);
  auto flags=[&](const Tensor2<N>&x,const char*n){ c.check(x.NumCovar()==nc&&x.NumContravar()==2-nc&&x.IsContravar(0)==(t.IsContravar(0))&&x.IsContravar(1)==t.IsContravar(1)&&x.IsCovar(0)!=x.IsContravar(0),n); };
  for(int i=0;i<2;i++) c.check(t.IsContravar(i)==(i>=nc)&&t.IsCovar(i)==(i<nc),"r2/order"); if(nc==1&&c.r.coin()){ t.setContravar(0,true); t.setContravar(1,false); u.setContravar(0,true); u.setContravar(1,false); c.ev("upper-lower"); }
  auto s=t+u,d=t-u,m=t*k,m2=k*t,q=t/k; flags(s,"r2/add-variance"); flags(d,"r2/sub-variance"); flags(m,"r2/mul-variance"); flags(m2,"r2/mul2-variance"); flags(q,"r2/div-variance"); auto mt=t.GetMatrix(); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ double x=a[i*N+j],y=b[i*N+j]; c.check(t(i,j)==x&&t.at(i,j)==x&&mt(i,j)==x&&s(i,j)==x+y&&d(i,j)==x-y&&m(i,j)==x*k&&m2(i,j)==x*k&&std::abs(q(i,j)-x/k)<=1e-15*std::abs(x/k),"r2/components"); }
  auto v=rv<N>(c),w=rv<N>(c); L e=0,ab=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++){ e+=(L)a[i*N+j]*v[i]*w[j]; ab+=fabsl((L)a[i*N+j]*v[i]*w[j]); } c.close(t(v,w),(double)e,1e-14*(double)ab+1e-300,"r2/eval"); if(nc==1){ L tr=0; for(int i=0;i<N;i++) tr+=a[i*N+i]; c.close(t.Contract(),(double)tr,1e-14,"r2/contract"); } else c.throws<TensorCovarContravarNumError>([&]{ t.Contract(); },"r2/contract-same");
  int on=(nc+1)%3; Tensor2<N> o(on,2-on); c.throws<TensorCovarContravarArithmeticError>([&]{ t+o; },"r2/add-mismatch"); c.throws<TensorCovarContravarArithmeticError>([&]{ t-o; },"r2/sub-mismatch"); for(auto p:{std::pair<int,int>{3,-1},{-1,3},{1,2},{0,0},{2,1},{0,1}}) c.throws<TensorCovarContravarNumError>([&]{ Tensor2<N> x(p.first,p.second); },"r2/ctor"); int bad=c.r.coin()?-1-c.r.i(0,5):N+c.r.i(0,5); c.throws<TensorIndexError>([&]{ t.at(bad,0); },"r2/at"); c.throws<TensorIndexError>([&]{ ((const Tensor2<N>&)t).at(0,bad); },"r2/at"); t.at(N-1,0)=42; c.check(t(N-1,0)==42,"r2/at-write");
  Tensor2<N> z(nc,2-nc); bool zz=true; for(int i=0;i<N;i++) for(int j=0;j<N;j++) zz&=z(i,j)==0; c.check(zz,"r2/zero"); c.ev("rank2"); }
template<int N> static void rank3(mon::Case&c){ int nc=c.r.i(0,3); Tensor3<N> t(nc,3-nc); std::vector<double> a(N*N*N); auto A=[&](int i,int j,int k)->double&{ return a[(i*N+j)*N+k]; }; for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int k=0;k<N;k++) t(i,j,k)=A(i,j,k)=val(c); c.in("nco",nc); c.in("t",a); for(int i=0;i<3;i++) c.check(t.IsContravar(i)==(i>=nc)&&t.IsCovar(i)!=t.IsContravar(i),"r3/order"); c.check(t.NumCovar()==nc&&t.NumContravar()==3-nc,"r3/num");
  auto u=rv<N>(c),v=rv<N>(c),w=rv<N>(c); L e=0,ab=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int k=0;k<N;k++){ c.check(t(i,j,k)==A(i,j,k)&&t.at(i,j,k)==A(i,j,k),"r3/components"); L x=(L)A(i,j,k)*u[i]*v[j]*w[k]; e+=x; ab+=fabsl(x); } c.close(t(u,v,w),(double)e,1e-14*(double)ab+1e-300,"r3/eval");
  for(int p=0;p<3;p++) for(int q=0;q<3;q++){ if(p==q){ c.throws<TensorIndexError>([&]{ t.Contract(p,q); },"r3/contract-equal"); continue; } auto r=t.Contract(p,q); for(int x=0;x<N;x++){ L s=0; for(int m=0;m<N;m++){ int id[3]; for(int z=0;z<3;z++) id[z]=(z==p||z==q)?m:x; s+=A(id[0],id[1],id[2]); } c.close(r[x],(double)s,1e-13,"r3/contract"); } } int bad=c.r.coin()?-1-c.r.i(0,3):3+c.r.i(0,3); c.throws<TensorIndexError>([&]{ t.Contract(bad,0); },"r3/contract-range"); c.throws<TensorIndexError>([&]{ t.Contract(1,bad); },"r3/contract-range"); int ob=c.r.coin()?-1:N; c.throws<TensorIndexError>([&]{ t.at(ob,0,0); },"r3/at"); c.throws<TensorIndexError>([&]{ t.at(0,ob,0); },"r3/at"); c.throws<TensorIndexError>([&]{ ((const Tensor3<N>&)t).at(0,0,ob); },"r3/at"); for(auto x:{std::pair<int,int>{4,-1},{-1,4},{1,1},{2,2},{0,0}}) c.throws<TensorCovarContravarNumError>([&]{ Tensor3<N> y(x.first,x.second); },"r3/ctor"); c.ev("rank3"); }
template<int N> static void rank4(mon::Case&c){ int nc=c.r.i(0,4); Tensor4<N> t(nc,4-nc); std::vector<double> a(N*N*N*N); auto A=[&](const int*i)->double&{ return a[((i[0]*N+i[1])*N+i[2])*N+i[3]]; }; for(int q=0;q<N*N*N*N;q++){ int i[4]={q/(N*N*N),q/(N*N)%N,q/N%N,q%N}; t(i[0],i[1],i[2],i[3])=A(i)=val(c); } c.in("nco",nc); for(int i=0;i<4;i++) c.check(t.IsContravar(i)==(i>=nc),"r4/order"); if(c.r.coin()) for(int s=0;s<2;s++){ int x=c.r.i(0,3),y=c.r.i(0,3); bool fx=t.IsContravar(x),fy=t.IsContravar(y); t.setContravar(x,fy); t.setContravar(y,fx); }
  VectorN<Real,N> v[4]; for(auto&x:v) x=rv<N>(c); L e=0,ab=0; for(int q=0;q<N*N*N*N;q++){ int i[4]={q/(N*N*N),q/(N*N)%N,q/N%N,q%N}; c.check(t.at(i[0],i[1],i[2],i[3])==A(i),"r4/components"); L x=(L)A(i)*v[0][i[0]]*v[1][i[1]]*v[2][i[2]]*v[3][i[3]]; e+=x; ab+=fabsl(x); } c.close(t(v[0],v[1],v[2],v[3]),(double)e,1e-14*(double)ab+1e-300,"r4/eval");
  for(int p=0;p<4;p++) for(int q=0;q<4;q++){ if(p==q){ c.throws<TensorIndexError>([&]{ t.Contract(p,q); },"r4/contract-equal"); continue; } auto r=t.Contract(p,q); int rest[2],n=0; for(int z=0;z<4;z++) if(z!=p&&z!=q) rest[n++]=z; c.check(r.IsContravar(0)==t.IsContravar(rest[0])&&r.IsContravar(1)==t.IsContravar(rest[1])&&r.NumContravar()==(int)r.IsContravar(0)+r.IsContravar(1)&&r.NumCovar()+r.NumContravar()==2,"r4/contract-variance"); for(int x=0;x<N;x++) for(int y=0;y<N;y++){ L s=0; for(int m=0;m<N;m++){ int id[4]; id[p]=id[q]=m; id[rest[0]]=x; id[rest[1]]=y; s+=A(id); } c.close(r(x,y),(double)s,1e-13,"r4/contract"); } } int bad=c.r.coin()?-1:4; c.throws<TensorIndexError>([&]{ t.Contract(bad,0); },"r4/contract-range"); c.throws<TensorIndexError>([&]{ t.Contract(1,bad); },"r4/contract-range"); int ob=c.r.coin()?-1:N; c.throws<TensorIndexError>([&]{ t.at(0,0,ob,0); },"r4/at"); c.throws<TensorIndexError>([&]{ ((const Tensor4<N>&)t).at(0,0,0,ob); },"r4/at"); c.throws<TensorIndexError>([&]{ t.at(ob,0,0,0); },"r4/at"); c.throws<TensorIndexError>([&]{ t.at(0,ob,0,0); },"r4/at"); for(auto x:{std::pair<int,int>{5,-1},{-1,5},{1,2},{3,2}}) c.throws<TensorCovarContravarNumError>([&]{ Tensor4<N> y(x.first,x.second); },"r4/ctor"); c.ev("rank4"); }
template<int N> static void rank5(mon::Case&c){ int nc=c.r.i(0,5); Tensor5<N> t(nc,5-nc); int T=N*N*N*N*N; std::vector<double> a(T); auto A=[&](const int*i)->double&{ return a[(((i[0]*N+i[1])*N+i[2])*N+i[3])*N+i[4]]; }; auto dec=[&](int q,int*i){ for(int z=4;z>=0;z--){ i[z]=q%N; q/=N; } }; for(int q=0;q<T;q++){ int i[5]; dec(q,i); t(i[0],i[1],i[2],i[3],i[4])=A(i)=val(c); } c.in("nco",nc); for(int i=0;i<5;i++) c.check(t.IsContravar(i)==(i>=nc),"r5/order");
  VectorN<Real,N> v[5]; for(auto&x:v) x=rv<N>(c); L e=0,ab=0; for(int q=0;q<T;q++){ int i[5]; dec(q,i); c.check(t.at(i[0],i[1],i[2],i[3],i[4])==A(i),"r5/components"); L x=A(i); for(int z=0;z<5;z++) x*=v[z][i[z]]; e+=x; ab+=fabsl(x); } c.close(t(v[0],v[1],v[2],v[3],v[4]),(double)e,1e-14*(double)ab+1e-300,"r5/eval");
  for(int p=0;p<5;p++) for(int q=0;q<5;q++){ if(p==q){ c.throws<TensorIndexError>([&]{ t.Contract(p,q); },"r5/contract-equal"); continue; } auto r=t.Contract(p,q); int rest[3],n=0; for(int z=0;z<5;z++) if(z!=p&&z!=q) rest[n++]=z; bool ok=true; int up=0; for(int z=0;z<3;z++){ ok&=r.IsContravar(z)==t.IsContravar(rest[z]); up+=r.IsContravar(z); } c.check(ok&&r.NumContravar()==up&&r.NumCovar()==3-up,"r5/contract-variance"); for(int w=0;w<N*N*N;w++){ int x[3]={w/(N*N),w/N%N,w%N}; L s=0; for(int m=0;m<N;m++){ int id[5]; id[p]=id[q]=m; for(int z=0;z<3;z++) id[rest[z]]=x[z]; s+=A(id); } c.close(r(x[0],x[1],x[2]),(double)s,1e-13,"r5/contract"); } } c.throws<TensorIndexError>([&]{ t.Contract(-1,0); },"r5/contract-range"); c.throws<TensorIndexError>([&]{ t.Contract(1,5); },"r5/contract-range"); for(int z=0;z<5;z++){ int i[5]={0,0,0,0,0}; i[z]=c.r.coin()?-1:N; c.throws<TensorIndexError>([&]{ t.at(i[0],i[1],i[2],i[3],i[4]); },"r5/at"); c.throws<TensorIndexError>([&]{ ((const Tensor5<N>&)t).at(i[0],i[1],i[2],i[3],i[4]); },"r5/at"); } for(auto x:{std::pair<int,int>{6,-1},{-1,6},{2,2},{3,3}}) c.throws<TensorCovarContravarNumError>([&]{ Tensor5<N> y(x.first,x.second); },"r5/ctor"); c.ev("rank5"); }
FAMILY(r2,400){ switch(c.r.i(2,4)){ case 2: rank2<2>(c); break; case 3: rank2<3>(c); break; default: rank2<4>(c);} }
FAMILY(r3,300){ switch(c.r.i(2,4)){ case 2: rank3<2>(c); break; case 3: rank3<3>(c); break; default: rank3<4>(c);} }
FAMILY(r4,200){ switch(c.r.i(2,4)){ case 2: rank4<2>(c); break; case 3: rank4<3>(c); break; default: rank4<4>(c);} }
FAMILY(r5,120){ c.r.coin()?rank5<2>(c):rank5<3>(c); }
// initialiser lists: row-major, missing entries zero, too many rejected
FAMILY(lists,150){ double x[9]; std::vector<double> in; for(auto&y:x){ y=val(c); in.push_back(y); } c.in("x",in); Tensor2<3> a(2,0,{x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8]}),b(1,1,{x[0],x[1],x[2],x[3]}); for(int i=0;i<9;i++){ c.check(a(i/3,i%3)==x[i],"full"); c.check(b(i/3,i%3)==(i<4?x[i]:0),"partial"); } Tensor3<2> t(1,2,{x[0],x[1],x[2],x[3],x[4],x[5]}); for(int i=0;i<8;i++) c.check(t(i>>2,i>>1&1,i&1)==(i<6?x[i]:0),"t3"); c.check(t.NumCovar()==1&&t.NumContravar()==2&&b.IsCovar(0)&&b.IsContravar(1),"variance"); c.throws<TensorCovarContravarNumError>([&]{ Tensor2<2> z(1,1,{1,2,3,4,5}); },"too-many"); c.throws<TensorCovarContravarNumError>([&]{ Tensor3<2> z(1,2,{1,2,3,4,5,6,7,8,9}); },"too-many3"); c.throws<TensorCovarContravarNumError>([&]{ Tensor2<2> z(2,1,{1,2}); },"ctor"); c.throws<TensorCovarContravarNumError>([&]{ Tensor3<2> z(-1,4,{1,2}); },"ctor3");
  Tensor2<3> cp(a); cp(0,0)+=1; c.check(cp(0,0)==x[0]+1&&a(0,0)==x[0],"copy"); std::ostringstream o; o<<a; c.check(o.str().find("N = 3")!=std::string::npos,"print"); c.ev("lists"); }
ENUM(symbols,1){  for(int i=0;i<=5;i++) for(int j=0;j<=5;j++){ c.check(Utils::KroneckerDelta(i,j)==(i==j),"delta"); for(int k=0;k<=5;k++){ int w=(i<1||j<1||k<1||i>3||j>3||k>3)?0:(i-j)*(j-k)*(k-i)/2; c.check(Utils::LeviCivita(i,j,k)==w,"levi3"); for(int l=0;l<=5;l++){ int q[4]={i,j,k,l},s=1; for(int a=0;a<4;a++){ if(q[a]<1||q[a]>4) s=0; for(int b=a+1;b<4;b++) s*=q[a]<q[b]?1:q[a]>q[b]?-1:0; } c.check(Utils::LeviCivita(i,j,k,l)==s,"levi4"); } } } c.ev("symbols"); }
MON_MAIN()
