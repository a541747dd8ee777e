// T05: how many tasks of a pool run at once.  Tasks wait at a gate, so the number executing is known after every step:
// queued tasks start exactly while fewer are executing than both the number of workers and the limit on active workers allow.
#include "pool.h"
using namespace tp;
template<class P> void atonce(pbt::Case& c){
  size_t target=c.range(1,6); std::unique_ptr<P> pool(new P(target)); size_t cap=target, r=0, q=0; Gate gate; std::mutex book; int allowed=0; std::atomic<int> in(0), over(0), fin(0);   // book: a task's arrival is compared with the limit of that moment
  int total=0; std::ostringstream h; h<<target<<" workers"; int raised=0, lowered=0, waited=0; bool big=c.chance(1,3);
  auto lim=[&]{ return std::min(cap,target); };
  auto settle=[&]{ // what may start now, starts; nothing else does
    size_t l=lim(); if(r<l){ size_t k=std::min(q,l-r); r+=k; q-=k; } 
    PBT_REQUIRE(c,eventually([&]{return in.load()>=(int)r;}),"T05:idle","only "<<in.load()<<" tasks are executing, "<<r<<" could be (limit "<<cap<<", workers "<<target<<", "<<q<<" more queued); "<<h.str());
    if(big||q) spin(4000); size_t wc=std::max(target,r);
    PBT_REQUIRE(c,in.load()==(int)r&&!over.load(),"T05:over",in.load()<<" tasks are executing, at most "<<r<<" may; "<<h.str());
    PBT_REQUIRE(c,eventually([&]{return pool->size()==wc;}),"T05:size","the pool has "<<pool->size()<<" workers, "<<wc<<" expected; "<<h.str());
    PBT_REQUIRE(c,eventually([&]{return pool->active()==r;}),"T05:active","active() is "<<pool->active()<<" with "<<r<<" tasks executing; "<<h.str());
    PBT_REQUIRE(c,pool->pending()==q,"T05:pending","pending() is "<<pool->pending()<<" with "<<q<<" tasks queued; "<<h.str());
    if(q) ++waited; };
  try{
  int n=0; while(c.more(n,10,30)){
    switch(c.weighted({5,4,3,3})){
      case 0: { int k=(int)c.range(1,big?12:5); h<<"; "<<k<<" tasks"; { std::lock_guard<std::mutex> l(book); allowed=(int)std::max(r,lim()); } total+=k; q+=k; for(int i=0;i<k;++i) PBT_REQUIRE(c,Sched<P>::go(*pool,[&]{ { std::lock_guard<std::mutex> l(book); if(++in>allowed) ++over; } gate.take(); { std::lock_guard<std::mutex> l(book); --in; } ++fin; },(unsigned)i%3),"T05:rejected","schedule returned false; "<<h.str()); break; }
      case 1: if(r){ size_t k=c.range(1,r); h<<"; "<<k<<" of "<<r<<" finish"; { std::lock_guard<std::mutex> l(book); allowed=(int)std::max(r,lim()); } int f=fin.load(); gate.give(k); PBT_REQUIRE(c,eventually([&]{return fin.load()>=f+(int)k;}),"T05:stalled","tasks do not finish; "<<h.str()); r-=k; } break;
      case 2: { size_t a=c.range(1,8), wc=std::max(target,r), m=std::min(a,wc); h<<"; at most "<<a<<" active"; if(m>cap) ++raised; if(m<cap) ++lowered; { std::lock_guard<std::mutex> l(book); allowed=(int)std::max(r,std::max(lim(),std::min(m,target))); } pool->size_controller().resize_active(a); cap=m; PBT_REQUIRE(c,pool->max_active()==m,"T05:max-active","max_active() is "<<pool->max_active()<<" after asking for "<<a<<" of "<<wc<<" workers; "<<h.str()); break; }
      default: { size_t w=c.range(1,7); h<<"; resize to "<<w; if(w>target) ++raised; if(w<target) ++lowered; { std::lock_guard<std::mutex> l(book); allowed=(int)std::max(r,std::max(lim(),std::min(cap,w))); } PBT_REQUIRE(c,pool->size_controller().resize(w),"T05:resize","resize returned false; "<<h.str()); target=w; } }
    settle(); }
  h<<"; all finish"; { std::lock_guard<std::mutex> l(book); allowed=(int)std::max(r,lim()); } gate.give(1000000); pool->wait(); PBT_REQUIRE(c,fin.load()==total&&!over.load(),"T05:count",fin.load()<<" of "<<total<<" tasks ran"<<(over.load()?", too many at once":"")<<"; "<<h.str());
  }catch(pbt::Failure&){ gate.give(1000000); pool.reset(); throw; }
  c.nontrivial(waited>0&&raised+lowered>0); c.label_if(raised>0,"raised"); c.label_if(lowered>0,"lowered"); c.note(h.str());
}
PBT_CTARGET("fifo",3){ atonce<bt::fifo_pool>(c); }
PBT_CTARGET("prio",1){ atonce<bt::prio_pool>(c); }
PBT_CTARGET("lifo",1){ atonce<bt::lifo_pool>(c); }
PBT_MAIN
