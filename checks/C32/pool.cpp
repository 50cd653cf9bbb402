#include "mon.h"
#include <vector>
#include <queue>
#include <deque>
#include <list>
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <functional>
#include <atomic>
#include <exception>
#include <stdexcept>
#include <memory>
#include <future>
#include <chrono>
#include <utility>
#include <set>
// schedule perturbation: per-thread random pauses
static std::atomic<unsigned> g_seed{1}; static std::atomic<int> g_level{0};
static unsigned tl(){ static thread_local unsigned s=0; if(!s) s=g_seed.fetch_add(2654435761u)|1; s^=s<<13; s^=s>>17; s^=s<<5; return s; }
static void jit(){ int lv=g_level.load(std::memory_order_relaxed); if(!lv) return; unsigned x=tl()%100; if((int)x<lv/4) std::this_thread::sleep_for(std::chrono::microseconds(tl()%60)); else if((int)x<lv) std::this_thread::yield(); }
#ifdef JITTER
// the real pool code with mutexes and condition variables that pause at every operation and wake spuriously (both allowed by the standard)
namespace std { struct JMutex{ mutex m; void lock(){ jit(); m.lock(); } void unlock(){ m.unlock(); jit(); } bool try_lock(){ jit(); return m.try_lock(); } };
 struct JCond{ condition_variable_any c; void notify_one()noexcept{ jit(); c.notify_one(); jit(); } void notify_all()noexcept{ jit(); c.notify_all(); jit(); }
  template<class Lk> void wait(Lk&l){ if(g_level.load(std::memory_order_relaxed)&&tl()%4==0){ l.unlock(); jit(); l.lock(); return; } c.wait(l); } template<class Lk,class P> void wait(Lk&l,P p){ while(!p()) wait(l); }
  template<class Lk,class D> cv_status wait_for(Lk&l,const D&d){ return c.wait_for(l,d); } template<class Lk,class D,class P> bool wait_for(Lk&l,const D&d,P p){ return c.wait_for(l,d,p); } template<class Lk,class D,class P> bool wait_until(Lk&l,const D&d,P p){ return c.wait_until(l,d,p); } }; }
#define mutex JMutex
#define condition_variable JCond
#include "tools/ThreadPool.h"
#undef mutex
#undef condition_variable
#else
#include "tools/ThreadPool.h"
#endif
using MML::ThreadPool; using mon::Case; using namespace std::chrono_literals;
static std::set<size_t> g_sched; static void sched(Case&c,const std::vector<int>&o){ size_t h=1469598103u; for(int x:o) h=(h^(size_t)x)*1099511628211ull; if(g_sched.insert(h).second) c.ev("distinct-schedule"); }
static void setup(Case&c){ g_seed=(unsigned)c.r.i(1,1<<30); g_level=c.r.pick({0,20,60,100}); }
static int pools(Case&c){ int n=c.r.pick({1,1,2,2,3,4,8}); c.in("workers",n); return n; }
// plain (unsynchronised) memory written by tasks and read by the waiter: a missing happens-before edge is a data race
FAMILY(rounds,360){ setup(c); int n=pools(c),subs=c.r.i(0,4),rounds=c.r.i(1,4),m=c.r.i(0,60); c.in("subs",subs); c.in("m",m); ThreadPool p(n); c.check(p.thread_count()==(size_t)n,"thread-count");
 for(int r=0;r<rounds;r++){ int S=subs?subs:1; std::vector<int> runs(S*m,0); std::vector<std::thread::id> who(S*m); std::atomic<int> seq{0}; std::vector<int> order(S*m,-1); auto sub=[&](int s){ for(int i=0;i<m;i++){ jit(); int k=s*m+i; p.enqueue([&,k]{ jit(); runs[k]++; who[k]=std::this_thread::get_id(); order[seq++]=k; }); } };
  if(subs){ std::vector<std::thread> th; for(int s=0;s<subs;s++) th.emplace_back(sub,s); for(auto&t:th) t.join(); } else sub(0);
  p.wait_for_tasks(); bool once=true,self=false; std::set<std::thread::id> ids; for(int k=0;k<S*m;k++){ once&=runs[k]==1; ids.insert(who[k]); self|=who[k]==std::this_thread::get_id(); } c.check(once,"exactly-once"); c.check((int)ids.size()<=n&&!self,"worker-threads"); c.check(!p.has_tasks()&&p.pending_tasks()==0&&p.queued_tasks()==0,"idle-after-wait"); c.check(!p.has_exceptions()&&p.get_exception()==nullptr,"no-exception"); if(n==1&&subs<=1){ bool fifo=true; for(int k=0;k<m;k++) fifo&=order[k]==k; c.check(fifo,"fifo"); } if(subs>1||n==1){ std::vector<int> last(S,-1); if(n==1){ bool f=true; for(int x:order){ f&=last[x/m]<x%m; last[x/m]=x%m; } c.check(f,"fifo-per-submitter"); } } std::vector<int> o(order); { std::map<std::thread::id,int> w; for(int k:order){ int id=w.emplace(who[k],(int)w.size()).first->second; o.push_back(id); } } sched(c,o); c.ev("tasks",S*m); } c.ev("rounds"); }
FAMILY(waiters,240){ // several threads wait while others submit; each sees everything accepted before its own wait
 setup(c); int n=pools(c),w=c.r.i(2,4),m=c.r.i(1,25); ThreadPool p(n); std::vector<std::vector<int>> done(w,std::vector<int>(m*3,0)); std::vector<int> bad(w,0); std::vector<std::thread> th; for(int t=0;t<w;t++) th.emplace_back([&,t]{ for(int r=0;r<3;r++){ for(int i=0;i<m;i++){ int k=r*m+i; p.enqueue([&,t,k]{ jit(); done[t][k]++; }); } p.wait_for_tasks(); for(int k=0;k<(r+1)*m;k++) if(done[t][k]!=1) bad[t]++; } }); for(auto&t:th) t.join(); int b=0; for(int x:bad) b+=x; c.check(b==0,"sees-own-tasks"); c.ev("waiters"); c.ev("tasks",w*m*3); }
FAMILY(nested,240){ // tasks that submit tasks: the wait covers the whole tree
 setup(c); int n=pools(c),depth=c.r.i(1,5),fan=c.r.i(1,3); c.in("depth",depth); c.in("fan",fan); ThreadPool p(n); std::atomic<int> id{0}; std::vector<int> runs(2000,0); std::function<void(int)> node=[&](int d){ int k=id++; runs[k]++; if(d<depth) for(int i=0;i<fan;i++){ jit(); p.enqueue([&,d]{ node(d+1); }); } jit(); }; p.enqueue([&]{ node(0); }); p.wait_for_tasks(); int want=0,pw=1; for(int d=0;d<=depth;d++){ want+=pw; pw*=fan; } int tot=0; for(int x:runs) tot+=x; c.check(tot==want&&id==want,"tree-complete"); c.ev("nested"); c.ev("tasks",want); }
FAMILY(parallel,180){ // all n workers can run at once, also after tasks have thrown and after waits
 setup(c); int n=c.r.i(1,8); c.in("n",n); ThreadPool p(n); for(int r=0;r<3;r++){ int thr=c.r.i(0,2*n); for(int i=0;i<thr;i++) p.enqueue([]{ jit(); throw 1; }); if(c.r.coin()) p.wait_for_tasks(); std::mutex m; std::condition_variable cv; int in=0; std::atomic<int> timeouts{0}; for(int i=0;i<n;i++) p.enqueue([&]{ std::unique_lock<std::mutex> l(m); if(++in==n) cv.notify_all(); else if(!cv.wait_for(l,30s,[&]{ return in==n; })) timeouts++; }); p.wait_for_tasks(); if(!c.check(timeouts==0,"all-workers-run")) break; } c.ev("parallel"); }
struct Boom{ int id; };
FAMILY(exceptions,360){ setup(c); int n=pools(c),m=c.r.i(1,40); c.in("m",m); ThreadPool p(n); int cb=c.r.i(0,2); c.in("callback",cb); std::mutex cm; std::multiset<int> seen; auto idof=[](std::exception_ptr e){ try{ std::rethrow_exception(e); }catch(const Boom&b){ return b.id; }catch(int i){ return i; }catch(const std::runtime_error&e){ return atoi(e.what()); }catch(...){ return -1; } }; if(cb) p.set_error_callback([&,cb](std::exception_ptr e){ { std::lock_guard<std::mutex> l(cm); seen.insert(idof(e)); } if(cb==2) throw std::logic_error("callback"); }); std::vector<int> ran(m,0); std::multiset<int> want; std::vector<int> ord; for(int i=0;i<m;i++){ int k=c.r.i(0,5); if(k<3){ want.insert(i); ord.push_back(i); } p.enqueue([&,i,k]{ ran[i]++; jit(); if(k==0) throw Boom{i}; if(k==1) throw i; if(k==2) throw std::runtime_error(std::to_string(i)); }); } p.wait_for_tasks(); bool once=true; for(int x:ran) once&=x==1; c.check(once,"others-run"); c.check(p.exception_count()==want.size()&&p.has_exceptions()==!want.empty(),"count"); if(cb){ std::lock_guard<std::mutex> l(cm); c.check(seen==want,"callback-each-once"); }
 int mode=c.r.i(0,2); if(mode==0){ std::multiset<int> got; std::vector<int> o; while(auto e=p.get_exception()){ int k=idof(e); got.insert(k); o.push_back(k); } c.check(got==want,"drained"); if(n==1) c.check(o==ord,"drain-order"); } else if(mode==1){ p.clear_exceptions(); } else { size_t k=0; for(;k<want.size();k++){ bool t=false; try{ p.rethrow_if_exception(); }catch(...){ t=true; } if(!c.check(t,"rethrows")) break; } c.nothrow([&]{ p.rethrow_if_exception(); },"no-more"); } c.check(!p.has_exceptions()&&p.exception_count()==0&&p.get_exception()==nullptr,"empty"); int again=0; p.enqueue([&]{ again++; }); p.wait_for_tasks(); c.check(again==1,"works-after"); p.enqueue(std::function<void()>()); p.wait_for_tasks(); c.check(p.exception_count()==1,"empty-function-reported"); p.set_error_callback(nullptr); p.enqueue([]{ throw 5; }); p.wait_for_tasks(); c.check(p.exception_count()==2,"without-callback"); if(!want.empty()) c.ev("exceptions"); }
FAMILY(shutdown,360){ // destruction completes accepted work, exactly once, including work submitted by running tasks
 setup(c); int n=pools(c),m=c.r.i(0,50); bool nest=c.r.coin(0.4); c.in("m",m); c.in("nest",nest); std::vector<int> run(m,0),child(m,0); { ThreadPool p(n); for(int i=0;i<m;i++) p.enqueue([&,i]{ jit(); run[i]++; if(nest) p.enqueue([&,i]{ jit(); child[i]++; }); if(i%7==3) throw i; }); if(c.r.coin(0.3)) jit(); if(c.r.coin(0.2)) p.wait_for_tasks(); } bool ok=true,ck=true; for(int i=0;i<m;i++){ ok&=run[i]==1; ck&=child[i]==(nest?1:0); } c.check(ok,"accepted-work"); c.check(ck,"nested-work"); c.ev("shutdown"); }
FAMILY(captures,240){ // a finished wait means the task's captured state is gone too
 setup(c); int n=pools(c),m=c.r.i(1,20); ThreadPool p(n); for(int r=0;r<3;r++){ int alive=0; std::mutex mm; struct G{ int*a; ~G(){ jit(); --*a; } }; std::vector<int> live(m,1); for(int i=0;i<m;i++){ auto g=std::shared_ptr<G>(new G{&live[i]}); p.enqueue([g]{ jit(); }); g.reset(); } p.wait_for_tasks(); for(int x:live) alive+=x; if(!c.check(alive==0,"released")) break; } c.ev("captures"); }
FAMILY(observers,180){ // status calls are consistent and race-free while work is running
 setup(c); int n=pools(c); ThreadPool p(n); std::mutex m; std::condition_variable cv; bool go=false; int started=0; std::atomic<int> badIn{0}; int k=c.r.i(1,n+4); for(int i=0;i<k;i++) p.enqueue([&]{ if(!p.has_tasks()||p.pending_tasks()<1||p.pending_tasks()>(size_t)n) badIn++; std::unique_lock<std::mutex> l(m); started++; cv.notify_all(); cv.wait(l,[&]{ return go; }); }); { std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{ return started==std::min(k,n); }); } c.check(p.has_tasks()&&p.pending_tasks()==(size_t)std::min(k,n)&&p.queued_tasks()==(size_t)std::max(0,k-n),"busy-counts"); std::atomic<bool> ret{false}; std::thread w([&]{ p.wait_for_tasks(); ret=true; }); std::this_thread::sleep_for(300us); c.check(!ret,"wait-returned-early"); std::atomic<bool> stop{false}; std::thread obs([&]{ while(!stop){ p.has_tasks(); p.pending_tasks(); p.queued_tasks(); p.exception_count(); p.has_exceptions(); p.set_error_callback([](std::exception_ptr){}); std::this_thread::yield(); } }); { std::lock_guard<std::mutex> l(m); go=true; } cv.notify_all(); for(int i=0;i<20;i++) p.enqueue([i]{ jit(); if(i%3==0) throw i; }); p.wait_for_tasks(); w.join(); stop=true; obs.join(); c.check(p.exception_count()==7,"exception-count"); c.check(badIn==0&&!p.has_tasks(),"self-visible"); c.ev("observers"); }
ENUM(ctor,1){ c.throws<std::invalid_argument>([]{ ThreadPool p(0); },"zero"); for(int i=0;i<30;i++){ ThreadPool p(i%8+1); } ThreadPool p(2); p.wait_for_tasks(); p.wait_for_tasks(); c.ev("ctor"); }
MON_MAIN()
