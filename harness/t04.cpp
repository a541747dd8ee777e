// T04: futures and semaphores
#include "pool.h"
using namespace tp;
template<class T> T val(unsigned r);
template<> int val<int>(unsigned r){ return (int)r; }
template<> double val<double>(unsigned r){ return r*0.37-5; }
template<> bool val<bool>(unsigned r){ return r&1; }
template<> const char* val<const char*>(unsigned r){ static const char* n[]={"a","b",0,"d"}; return n[r%4]; }
template<class T> void futures(pbt::Case& c){
  typedef bt::future<T> Fu; int w=(int)c.range(1,4), n=(int)c.range(1,10); bool hold=c.boolean(); std::ostringstream h; h<<w<<" workers, "<<n<<" futures"<<(hold?", workers held back":""); c.note(h.str()); c.nontrivial(n>1);
  bt::fifo_pool p(w); Gate g; std::atomic<int> in(0); if(hold){ for(int i=0;i<w;++i) p.schedule([&]{ ++in; g.take(); }); eventually([&]{return in.load()==w;}); }
  vector<Fu> f; vector<T> want; vector<std::shared_ptr<std::atomic<int> > > ran; vector<char> canc; unsigned r=c.seed32();
  for(int i=0;i<n;++i){ unsigned q=(unsigned)pbt::hcomb(r,i); T v=val<T>(q); auto k=std::make_shared<std::atomic<int> >(0); ran.push_back(k); want.push_back(v); f.push_back(bt::schedule(p,boost::function0<T>([=]()->T{ work(q>>3); ++*k; return v; }))); canc.push_back(0); }
  vector<vector<Fu> > copies(n); for(int i=0;i<n;++i) for(int k=(int)c.draw(3);k>0;--k) copies[i].push_back(f[i]);
  string err; auto bad=[&](const string& e){ if(err.empty()) err=e; };
  if(hold){ for(int i=0;i<n;++i){ if(f[i].ready()) bad("ready before its task ran"); if(c.chance(1,4)&&c.boolean()) { if(f[i].timed_wait(in_ms(1))) bad("timed_wait returned true before the task ran"); } }
    for(int i=0;i<n;++i) if(c.chance(1,6)){ if(!f[i].cancel()) bad("cancelling a queued task failed"); canc[i]=1; if(!f[i].is_cancelled()) bad("is_cancelled false after cancel"); } }
  vector<std::thread> th; std::mutex em; int waiters=(int)c.draw(3); for(int k=0;k<waiters;++k) th.emplace_back([&,k]{ for(int i=k;i<n;i+=2) if(!canc[i]){ Fu mine=f[i]; T v=mine(); bool ok=v==want[i]&&ran[i]->load()==1; if(!ok){ std::lock_guard<std::mutex> l(em); bad("a waiter got a wrong value or returned before the task ran"); } } });
  if(hold) g.give(100);
  for(int i=0;i<n;++i) if(!canc[i]){ int how=(int)c.draw(3); Fu& x= copies[i].empty()? f[i]: copies[i].back(); if(how==0) x.wait(); else if(how==1){ if(!x.timed_wait(in_ms(20000))) bad("timed_wait timed out"); } T v=x.get(); if(!(v==want[i])) bad("wrong value"); if(ran[i]->load()!=1) bad("value available before the task ran"); if(!x.ready()||!f[i].ready()) bad("not ready after get()"); for(auto&y:copies[i]) if(!y.ready()||!(y()==want[i])) bad("a copy disagrees"); }
  for(auto&t:th) t.join(); p.wait();
  for(int i=0;i<n;++i){ if(canc[i]&&(ran[i]->load()!=0||f[i].ready())) bad("a cancelled task ran"); if(!canc[i]&&ran[i]->load()!=1) bad("a task ran "+std::to_string(ran[i]->load())+" times"); }
  PBT_REQUIRE(c,err.empty(),"T04:future",err<<" ("<<h.str()<<")");
}
PBT_CTARGET("future_int",2){ futures<int>(c); }
PBT_CTARGET("future_double",1){ futures<double>(c); }
PBT_CTARGET("future_bool",1){ futures<bool>(c); }
PBT_CTARGET("future_ptr",1){ futures<const char*>(c); }
PBT_CTARGET("semaphore",4){
  int init=(int)c.range(0,5), w=(int)c.range(1,6), per=(int)c.range(1,4); int total=w*per; std::ostringstream h; h<<"initial "<<init<<", "<<w<<" waiters x "<<per; SpatialOps::Semaphore s(init); std::atomic<int> passed(0); vector<std::thread> th; unsigned r=c.seed32();
  for(int t=0;t<w;++t) th.emplace_back([&,t]{ for(int i=0;i<per;++i){ s.wait(); ++passed; work((unsigned)pbt::hcomb(r,t*10+i)); } });
  int posted=init; string err; auto settle=[&](const char* when){ int want=std::min(total,posted); if(!eventually([&]{return passed.load()>=want;},8)) err=string(when)+": only "+std::to_string(passed.load())+" of "+std::to_string(want)+" waits returned"; else { work(7); if(passed.load()!=want) err=string(when)+": "+std::to_string(passed.load())+" waits returned, only "+std::to_string(want)+" were allowed"; } };
  settle("before any post"); int steps=0; while(err.empty()&&posted<total){ int k=(int)c.range(1,4); ++steps; if(c.boolean()){ for(int i=0;i<k;++i) s.post(); } else { vector<std::thread> ps; for(int i=0;i<k;++i) ps.emplace_back([&]{ s.post(); }); for(auto&x:ps) x.join(); } posted+=k; h<<" +"<<k; if(c.boolean()) settle("after posting"); }
  if(err.empty()) settle("at the end");
  for(int i=0;i<total+10;++i) s.post(); for(auto&t:th) t.join(); c.note(h.str()); c.nontrivial(steps>0&&w>1);
  PBT_REQUIRE(c,err.empty(),"T04:semaphore",err<<" ("<<h.str()<<")"); 
  if(passed.load()!=total) c.fail("T04:semaphore","waits lost");
}
// counting without blocking: n posts then n waits must not block, whatever the interleaving
PBT_TARGET("semaphore_seq",1){ int v=(int)c.range(0,6); SpatialOps::Semaphore s(v); int n=0; while(c.more(n,15,60)){ if(c.boolean()){ s.post(); ++v; } else if(v>0){ s.wait(); --v; } } 
  std::atomic<int> through(0); std::thread t([&]{ s.wait(); ++through; }); if(v==0){ work(7); bool early=through!=0; s.post(); t.join(); PBT_REQUIRE(c,!early,"T04:semaphore","wait() returned with nothing available"); } else t.join(); c.nontrivial(n>3); }
PBT_MAIN
