// T01: every accepted task runs exactly once, wait() returns after all of them
#include "pool.h"
using namespace tp;
template<class P> struct Once {
  pbt::Case& c; string hist; std::shared_ptr<P> pool; vector<std::shared_ptr<P> > copies; vector<std::shared_ptr<std::atomic<int> > > cnt; std::atomic<int> foreign; std::thread::id me; size_t workers;
  Once(pbt::Case& cc):c(cc),foreign(0),me(std::this_thread::get_id()){}
  void check_all(const char* when){ for(size_t i=0;i<cnt.size();++i){ int v=cnt[i]->load(); PBT_REQUIRE(c,v==1,"T01:count",when<<": task "<<i<<" of "<<cnt.size()<<" ran "<<v<<" times; "<<hist); } }
  void put(P& p,unsigned r,int nest){ auto k=std::make_shared<std::atomic<int> >(0); cnt.push_back(k); vector<std::shared_ptr<std::atomic<int> > > kids; for(int j=0;j<nest;++j){ kids.push_back(std::make_shared<std::atomic<int> >(0)); cnt.push_back(kids.back()); }
    P* q=pool.get(); std::atomic<int>* fr=&foreign; std::thread::id m=me;
    bool ok=Sched<P>::go(p,[=]{ if(std::this_thread::get_id()==m) ++*fr; work(r); for(auto kk:kids) Sched<P>::go(*q,[=]{ work(r/3); ++*kk; },r%5); ++*k; },r%7);
    PBT_REQUIRE(c,ok,"T01:rejected","schedule returned false"); }
  void run(){
    workers=c.range(1,6); pool.reset(new P(workers)); std::ostringstream h; h<<workers<<" workers"; if(c.chance(1,4)){ int a=(int)c.range(1,(long)workers); pool->size_controller().resize_active(a); h<<", at most "<<a<<" active"; } hist=h.str();
    int n=0,phases=0,nt=0; while(c.more(n,5,12)){ std::ostringstream s; s<<"; ";
      switch(c.weighted({5,4,2,2,2,2,2})){
        case 0: { int k=(int)c.range(1,25); unsigned r=c.seed32(); int nest=(int)c.weighted({4,1,1}); if(nest) r|=1; s<<k<<" tasks"<<(nest?" with subtasks":""); for(int i=0;i<k;++i){ r=(unsigned)pbt::mix64(r+i); put(*pool,r,nest); } nt+=k; break; }
        case 1: s<<"wait"; hist+=s.str(); pool->wait(); check_all("after wait()"); ++phases; continue;
        case 2: { int k=(int)c.range(1,4); size_t before=0; for(auto&x:cnt) if(x->load()==0) ++before; s<<"wait("<<k<<")"; hist+=s.str(); (void)before;
          // subtasks that are still to be scheduled do not count: only ask when none are nested
          pool->wait(k); size_t un=0; for(auto&x:cnt) if(x->load()==0) ++un; bool nested=hist.find("subtasks")!=string::npos; PBT_REQUIRE(c,nested||un<=(size_t)k,"T01:wait-threshold","after wait("<<k<<") "<<un<<" tasks were unfinished; "<<hist); continue; }
        case 3: { s<<"timed wait"; hist+=s.str(); bool r=pool->wait(in_ms(c.boolean()?20000:1)); if(r) check_all("after timed wait() returned true"); continue; }
        case 4: { int k=(int)c.range(2,4), m=(int)c.range(1,12); s<<k<<" threads schedule "<<m<<" tasks each"; nt+=k*m; vector<std::thread> th; vector<vector<std::shared_ptr<std::atomic<int> > > > v(k); unsigned r=c.seed32(); P* q=pool.get(); std::atomic<int> bad(0);
          for(int t=0;t<k;++t){ for(int i=0;i<m;++i) v[t].push_back(std::make_shared<std::atomic<int> >(0)); }
          for(int t=0;t<k;++t) th.emplace_back([&,t]{ for(int i=0;i<m;++i){ auto kk=v[t][i]; unsigned rr=(unsigned)pbt::hcomb(r,t*100+i); if(!Sched<P>::go(*q,[=]{ work(rr); ++*kk; },rr%5)) ++bad; work(rr/7); } });
          for(auto&x:th) x.join(); for(auto&x:v) for(auto&y:x) cnt.push_back(y); PBT_REQUIRE(c,bad==0,"T01:rejected","schedule returned false"); break; }
        case 6: { int k=(int)c.range(2,4); s<<k<<" threads wait at once"; hist+=s.str(); vector<std::thread> th; vector<int> seen(k,0); vector<int> thr; for(int t=0;t<k;++t) thr.push_back(c.chance(1,4)? (int)c.range(1,3): 0); P* q=pool.get(); auto* cn=&cnt; for(int t=0;t<k;++t) th.emplace_back([&,t,q,cn]{ if(thr[t]) q->wait(thr[t]); else q->wait(); int un=0; for(auto&x:*cn) if(x->load()==0) ++un; seen[t]=un; }); for(auto&x:th) x.join();
          bool nested=hist.find("subtasks")!=string::npos; for(int t=0;t<k;++t) PBT_REQUIRE(c,seen[t]<=thr[t]||(nested&&thr[t]),"T01:wait-together","wait("<<thr[t]<<") in one of "<<k<<" waiting threads returned with "<<seen[t]<<" tasks unfinished; "<<hist); ++phases; continue; }
        case 5: { s<<"through a copy of the pool: "; P cp(*pool); int k=(int)c.range(1,6); s<<k<<" tasks"; unsigned r=c.seed32(); for(int i=0;i<k;++i) put(cp,(unsigned)pbt::mix64(r+i),0); nt+=k; break; }
      }
      hist+=s.str(); }
    c.nontrivial(nt>=4); c.label_if(workers>1,"several workers"); c.label_if(phases>1,"several waits"); c.note(hist);
    if(c.boolean()){ pool->wait(); check_all("after the last wait()"); PBT_REQUIRE(c,pool->pending()==0&&pool->empty(),"T01:pending","tasks pending after wait()"); pool.reset(); }
    else { pool.reset(); if(hist.find("subtasks")==string::npos) check_all("after destroying the pool"); }
    PBT_REQUIRE(c,foreign==0,"T01:foreign","a task ran in the scheduling thread");
    if(hist.find("subtasks")==string::npos) check_all("at the end");
  }
};
PBT_CTARGET("fifo",3){ Once<bt::fifo_pool> o(c); o.run(); }
PBT_CTARGET("lifo",2){ Once<bt::lifo_pool> o(c); o.run(); }
PBT_CTARGET("prio",2){ Once<bt::prio_pool> o(c); o.run(); }
// waiting for a threshold: returns when, and only when, no more tasks than that are unfinished; tasks finish one at a time
template<class P> void threshold(pbt::Case& c){
  int w=(int)c.range(1,4), n=(int)c.range(1,9), nw=(int)c.range(1,3); std::unique_ptr<P> pool(new P(w)); Gate g; std::atomic<int> fin(0), started(0), total(n); std::ostringstream h; h<<w<<" workers, "<<n<<" tasks, waiting for"; int act=w; if(c.chance(1,4)){ act=(int)c.range(1,w); pool->size_controller().resize_active(act); }
  vector<int> thr,wasleft(nw,-1); vector<std::thread> th; std::atomic<int> back(0); for(int i=0;i<nw;++i){ thr.push_back((int)c.range(0,n)); h<<" "<<thr[i]; } bool timed=c.chance(1,4); if(timed) h<<" (at most two minutes)"; if(act<w) h<<", at most "<<act<<" active"; int clear= c.chance(1,3)? (int)c.draw(n): -1; if(clear>=0){ h<<", queue cleared after "<<clear<<" tasks"; c.label("queue cleared"); } c.note(h.str()); c.nontrivial(n>1); c.label_if(n>w,"more tasks than workers"); c.label("threshold");
  for(int i=0;i<n;++i) Sched<P>::go(*pool,[&]{ ++started; g.take(); ++fin; },i%3);
  P* q=pool.get(); vector<std::shared_ptr<std::atomic<int> > > done; for(int i=0;i<nw;++i){ done.push_back(std::make_shared<std::atomic<int> >(0)); auto d=done[i]; int t=thr[i]; int* u=&wasleft[i]; th.emplace_back([=,&fin,&back,&total]{ bool r=true; if(timed) r=q->wait(in_ms(120000),t); else q->wait(t); *u=r? total.load()-fin.load(): -2; ++back; ++*d; }); }
  string bad; int f=0; for(;;){ if(f==clear){ if(!eventually([&]{return started.load()==std::min(n,f+act);},15)) bad="tasks did not start; "+h.str(); total=n=started.load(); pool->clear(); }
    for(int i=0;i<nw&&bad.empty();++i) if(thr[i]>=n-f&&!eventually([&]{return done[i]->load()==1;},15)){ std::ostringstream o; o<<"wait("<<thr[i]<<") had not returned when "<<n-f<<" tasks were unfinished; "<<h.str(); bad=o.str(); } if(f==n||!bad.empty()) break; g.give(); ++f; if(!eventually([&]{return fin.load()==f;},15)){ bad="a task did not run; "+h.str(); break; } }
  g.give(1000); for(auto&t:th) t.join(); pool.reset(); if(!bad.empty()) c.fail("T01:wait-late",bad);
  for(int i=0;i<nw;++i) PBT_REQUIRE(c,wasleft[i]>=-1&&wasleft[i]<=thr[i],"T01:wait-threshold","wait("<<thr[i]<<") returned with "<<wasleft[i]<<" tasks unfinished; "<<h.str()); }
PBT_CTARGET("threshold",2){ threshold<bt::fifo_pool>(c); }
PBT_CTARGET("threshold-prio",1){ threshold<bt::prio_pool>(c); }
// looped tasks run until their function returns false
PBT_CTARGET("looped",1){ int n=(int)c.range(1,5), w=(int)c.range(1,3); bt::fifo_pool p(w); vector<std::shared_ptr<std::atomic<int> > > k; vector<int> lim; std::ostringstream h; h<<w<<" workers, looped tasks of";
  for(int i=0;i<n;++i){ lim.push_back((int)c.range(1,6)); k.push_back(std::make_shared<std::atomic<int> >(0)); h<<" "<<lim[i]; auto kk=k[i]; int l=lim[i]; p.schedule(bt::looped_task_func([=]()->bool{ return ++*kk<l; },(unsigned)c.weighted({5,1}))); }
  p.wait(); c.note(h.str()); c.nontrivial(n>1); for(int i=0;i<n;++i) PBT_REQUIRE(c,k[i]->load()==lim[i],"T01:looped","looped task ran "<<k[i]->load()<<" times instead of "<<lim[i]); }
// the library's own pools
PBT_LTARGET("library",2){ int n=(int)c.range(1,40); std::atomic<int> a(0),b(0); int cap=(int)c.range(1,6), soft=(int)c.range(1,cap); std::ostringstream h; h<<n<<" tasks, capacity "<<cap<<", active "<<soft; c.note(h.str()); c.nontrivial(n>1);
  SpatialOps::ThreadPoolFIFO::set_pool_capacity(cap); SpatialOps::ThreadPoolFIFO::resize_pool(soft); SpatialOps::ThreadPool::set_pool_capacity(cap); SpatialOps::ThreadPool::resize_pool(soft);
  unsigned r=c.seed32(); for(int i=0;i<n;++i){ unsigned q=(unsigned)pbt::hcomb(r,i); SpatialOps::ThreadPoolFIFO::self().schedule([&a,q]{ work(q); ++a; }); SpatialOps::ThreadPool::self().schedule(bt::prio_task_func(q%4,[&b,q]{ work(q); ++b; })); }
  SpatialOps::ThreadPoolFIFO::self().wait(); SpatialOps::ThreadPool::self().wait(); PBT_REQUIRE(c,a==n&&b==n,"T01:library","ran "<<a<<" and "<<b<<" of "<<n<<" tasks"); }
PBT_MAIN
