// T03: resizing and shutting down a pool
#include "pool.h"
using namespace tp;
typedef bt::thread_pool<bt::task_func,bt::fifo_scheduler,bt::dynamic_resize_policy,bt::resize_controller,bt::wait_for_active_tasks> active_pool;
typedef bt::thread_pool<bt::task_func,bt::fifo_scheduler,bt::dynamic_resize_policy,bt::resize_controller,bt::immediately> immediate_pool;
typedef std::shared_ptr<std::atomic<int> > Cnt;
enum Policy { ALL, ACTIVE, NOW };
template<class P,int POL> void resizing(pbt::Case& c){
  size_t target=c.range(1,6); std::unique_ptr<P> pool(new P(target)); vector<Cnt> cnt; std::ostringstream h; h<<target<<" workers"; bool died=false; int n=0,shrinks=0,grows=0,nt=0; string hist=h.str();
  auto put=[&](unsigned r,unsigned pr,bool die){ Cnt k=std::make_shared<std::atomic<int> >(0); cnt.push_back(k); PBT_REQUIRE(c,Sched<P>::go(*pool,[=]{ work(r); ++*k; if(die) throw boost::thread_interrupted(); },pr),"T03:rejected","schedule returned false; "<<hist); ++nt; };
  auto settled=[&](const char* when){ PBT_REQUIRE(c,eventually([&]{return pool->size()==target;}),"T03:size",when<<": the pool has "<<pool->size()<<" workers, "<<target<<" were requested; "<<hist); };
  auto all=[&](const char* when){ for(size_t i=0;i<cnt.size();++i) PBT_REQUIRE(c,cnt[i]->load()==1,"T03:count",when<<": task "<<i<<" of "<<cnt.size()<<" ran "<<cnt[i]->load()<<" times; "<<hist); };
  while(c.more(n,7,20)){ std::ostringstream s; s<<"; ";
    switch(c.weighted({5,5,3,2,2,1})){
      case 0: { int k=(int)c.range(1,15); int die= c.chance(1,5)? 1+(int)c.draw(4): 0; s<<k<<" tasks"; if(die){ s<<", each "<<die<<". of which ends its thread"; died=true; } unsigned r=c.seed32(); for(int i=0;i<k;++i) put((unsigned)pbt::hcomb(r,i),r%3,die&&i%die==die-1); break; }
      case 1: { size_t w=c.range(1,8); s<<"resize to "<<w; if(w<target) ++shrinks; if(w>target) ++grows; target=w; hist+=s.str(); PBT_REQUIRE(c,pool->size_controller().resize(w),"T03:resize","resize returned false; "<<hist); continue; }
      case 2: s<<"wait"; hist+=s.str(); pool->wait(); all("after wait()"); continue;
      case 3: s<<"settle"; hist+=s.str(); settled("after resizing"); continue;
      case 4: { size_t a=c.range(1,8); s<<"at most "<<a<<" active"; pool->size_controller().resize_active(a); break; }
      case 5: { s<<"two threads resize and schedule"; hist+=s.str(); unsigned r=c.seed32(); size_t a=c.range(1,6),b=c.range(1,6); P* q=pool.get(); vector<Cnt> v; for(int i=0;i<12;++i) v.push_back(std::make_shared<std::atomic<int> >(0));
          std::thread t1([&]{ q->size_controller().resize(a); work(r); q->size_controller().resize(b); }), t2([&]{ for(int i=0;i<12;++i){ Cnt k=v[i]; unsigned rr=(unsigned)pbt::hcomb(r,i); Sched<P>::go(*q,[=]{ work(rr); ++*k; },0); } }); t1.join(); t2.join(); for(auto&k:v) cnt.push_back(k); nt+=12; if(b<target) ++shrinks; target=b; continue; } }
    hist+=s.str(); }
  c.nontrivial(nt>0&&shrinks+grows>0); c.label_if(shrinks>0,"shrunk"); c.label_if(grows>0,"grown"); c.label_if(died,"workers lost"); c.note(hist);
  if(c.boolean()){ pool->wait(); all("after the last wait()"); settled("at the end"); hist+="; wait; settle"; }
  hist+="; destroy";
  vector<int> before; for(auto&k:cnt) before.push_back(k->load());
  pool.reset();
  if(POL==ALL) all("after destroying the pool");
  else for(size_t i=0;i<cnt.size();++i) PBT_REQUIRE(c,cnt[i]->load()<=1&&cnt[i]->load()>=before[i],"T03:count","task "<<i<<" ran "<<cnt[i]->load()<<" times; "<<hist);
  if(POL==ACTIVE){ vector<int> v; for(auto&k:cnt) v.push_back(k->load()); work(7); for(size_t i=0;i<cnt.size();++i) PBT_REQUIRE(c,cnt[i]->load()==v[i],"T03:after-shutdown","a task ran after the pool was destroyed; "<<hist); }
}
// tasks on the library's pools
static void put(SpatialOps::ThreadPoolFIFO& p,const boost::function0<void>& f,unsigned){ p.schedule(f); }
static void put(SpatialOps::ThreadPool& p,const boost::function0<void>& f,unsigned q){ p.schedule(bt::prio_task_func(q%7,f)); }
#ifdef EXIT
// the process ends with the library's pools alive: their tasks finish and it does not hang
#include <sys/wait.h>
#include <unistd.h>
static std::atomic<int> left(0); static void after_pools(){ if(left.load()!=0) _exit(3); }
PBT_CFTARGET("process-exit",1){
  struct Op { int k,n; }; std::vector<Op> ops; std::ostringstream h; int n=0; bool any=false; int order=(int)c.draw(4); h<<(order==0?"first-in-first-out pool":order==1?"priority pool":"both pools"); while(c.more(n,5,14)){ Op o; o.k=c.weighted({4,1,1,1}); o.n=(int)c.range(1,9); ops.push_back(o); h<<(o.k==0?"; tasks ":o.k==1?"; capacity ":o.k==2?"; active ":"; wait ")<<o.n; any=any||o.k==0; } unsigned r=c.seed32();
  c.note(h.str()); c.nontrivial(any); c.label("process exit"); fflush(NULL);
  pid_t p=fork(); if(p==0){ alarm(20); std::atexit(after_pools); using namespace SpatialOps; if(order==0||order==2) ThreadPoolFIFO::self(); if(order) ThreadPool::self(); if(order==3) ThreadPoolFIFO::self(); bool f=order==0, both=order>1;
    for(size_t i=0;i<ops.size();++i){ bool q= both? pbt::hcomb(r,i)&1: f; int m=ops[i].n; switch(ops[i].k){
      case 0: for(int t=0;t<m;++t){ ++left; unsigned w=(unsigned)pbt::hcomb(r,i*100+t); boost::function0<void> g=[w]{ work(w); --left; }; if(q) put(ThreadPoolFIFO::self(),g,w>>8); else put(ThreadPool::self(),g,w>>8); } break;
      case 1: if(q) ThreadPoolFIFO::set_pool_capacity(m); else ThreadPool::set_pool_capacity(m); break;
      case 2: if(q) ThreadPoolFIFO::resize_pool(m); else ThreadPool::resize_pool(m); break;
      default: if(q) ThreadPoolFIFO::self().wait(); else ThreadPool::self().wait(); } }
    std::exit(0); }
  if(p<0) c.discard(); int st=0; while(p>0&&waitpid(p,&st,0)<0){} PBT_REQUIRE(c,WIFEXITED(st)&&WEXITSTATUS(st)==0,"T03:process-exit",(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM?"the process hung while ending":WIFEXITED(st)&&WEXITSTATUS(st)==3?"the process ended before all scheduled tasks had run":"the process did not end cleanly")<<" after "<<h.str()); }
#else
PBT_CTARGET("all",5){ resizing<bt::fifo_pool,ALL>(c); }
PBT_CTARGET("prio",2){ resizing<bt::prio_pool,ALL>(c); }
PBT_CTARGET("lifo",1){ resizing<bt::lifo_pool,ALL>(c); }
PBT_CTARGET("active",2){ resizing<active_pool,ACTIVE>(c); }
PBT_CFTARGET("immediately",1){ resizing<immediate_pool,NOW>(c); }
// destroying a pool whose policy waits only for active tasks: those running finish, those queued never run
PBT_CTARGET("shutdown_active",2){ int w=(int)c.range(1,4), q=(int)c.range(0,8); std::unique_ptr<active_pool> p(new active_pool(w)); Gate g; std::atomic<int> started(0),fin(0),queued(0); for(int i=0;i<w;++i) p->schedule([&]{ ++started; g.take(); ++fin; });
  if(!eventually([&]{return started.load()==w;})){ g.give(100); p.reset(); c.fail("T03:stalled","tasks did not start on idle workers"); }
  // the queued tasks hold a token: when shutdown drops them, it expires, and only then may the running tasks finish
  std::shared_ptr<int> tok(new int(1)); std::weak_ptr<int> gone(tok); for(int i=0;i<q;++i) p->schedule([&queued,tok]{ ++queued; }); tok.reset(); bool kept=false;
  std::thread t([&]{ if(!eventually([&]{return gone.expired();},10)) kept=true; work(7); g.give(100); }); p.reset(); int f=fin.load(); t.join(); std::ostringstream h; h<<w<<" running, "<<q<<" queued"; c.note(h.str()); c.nontrivial(q>0);
  PBT_REQUIRE(c,f==w&&queued==0&&!kept,"T03:shutdown-active","after shutdown "<<f<<" of "<<w<<" running tasks had finished and "<<queued<<" queued tasks ran"<<(kept?"; queued tasks were not dropped":"")); }
// library pools: capacity and active count
template<class TF> static void library(pbt::Case& c,const char* name){ int n=0; std::ostringstream h; h<<name; std::atomic<int> a(0); int want=0; SpatialOps::ThreadPoolFIFO::self(); SpatialOps::ThreadPool::self(); int cap=TF::get_pool_capacity(); bool ch=false; int act=0;
  while(c.more(n,7,20)){ switch(c.weighted({3,2,4,2})){
      case 0: cap=(int)c.range(-1,8); h<<"; capacity "<<cap; TF::set_pool_capacity(cap); if(cap<1) cap=1; ch=true; break;
      case 1: { int s=(int)c.range(-1,8); h<<"; active "<<s; TF::resize_pool(s); act=std::max(1,s); break; }
      case 2: { int k=(int)c.range(1,12); h<<"; "<<k<<" tasks"; unsigned r=c.seed32(); for(int i=0;i<k;++i){ unsigned q=(unsigned)pbt::hcomb(r,i); put(TF::self(),[&a,q]{ work(q); ++a; },q>>8); } want+=k; break; }
      case 3: h<<"; wait"; TF::self().wait(); if(a!=want){ std::ostringstream o; o<<"after wait() "<<a<<" of "<<want<<" tasks had run"<<h.str(); c.fail("T03:library",o.str()); } break; } }
  TF::self().wait(); c.note(h.str()); c.nontrivial(ch&&want>0); PBT_REQUIRE(c,a==want,"T03:library","after wait() "<<a<<" of "<<want<<" tasks had run"<<h.str());
  if(ch) PBT_REQUIRE(c,eventually([&]{return TF::get_pool_capacity()==cap;}),"T03:library-capacity","capacity is "<<TF::get_pool_capacity()<<" instead of "<<cap<<"; "<<h.str());
  int sz=TF::get_pool_size(); PBT_REQUIRE(c,sz>=1&&sz<=64&&(!act||ch||sz<=act),"T03:library-active","at most "<<sz<<" workers are active, last requested "<<act<<"; "<<h.str()); }
PBT_LTARGET("library",2){ library<SpatialOps::ThreadPoolFIFO>(c,"first-in-first-out"); }
PBT_LTARGET("library-prio",1){ library<SpatialOps::ThreadPool>(c,"priority"); }
#endif
PBT_MAIN
