// T02: order of queued tasks with a single worker, pending(), clear()
#include "pool.h"
using namespace tp;
enum Kind { FIFO, LIFO, PRIO };
template<class P,int K> void order(pbt::Case& c){
  std::unique_ptr<P> pool(new P(1));
  Gate gate; std::mutex m; std::condition_variable cv; vector<int> started; std::atomic<int> finished(0);
  struct Q { int id; unsigned pr; }; vector<Q> queue; int cur=-1; int next=0; std::ostringstream h; int cleared=0, maxq=0, ran=0; size_t seen=0; vector<char> gone;
  auto put=[&](unsigned pr){ int id=next++; gone.push_back(0); Sched<P>::go(*pool,[&,id]{ { std::lock_guard<std::mutex> l(m); started.push_back(id); cv.notify_all(); } gate.take(); ++finished; },pr); queue.push_back(Q{id,pr}); };
  // the worker is free and the queue is not empty: some task must start; which one may it be?
  auto expect_start=[&]{ int got; { std::unique_lock<std::mutex> l(m); if(!cv.wait_for(l,std::chrono::seconds(20),[&]{return started.size()>seen;})) c.fail("T02:stalled","no task started although "+std::to_string(queue.size())+" are queued; "+h.str()); got=started[seen++]; }
    size_t at=queue.size(); for(size_t i=0;i<queue.size();++i) if(queue[i].id==got) at=i;
    PBT_REQUIRE(c,at<queue.size(),"T02:unexpected","task "<<got<<" started but is not queued; "<<h.str());
    bool ok= K==FIFO? at==0: K==LIFO? at+1==queue.size(): true; if(K==PRIO) for(auto&q:queue) if(q.pr>queue[at].pr) ok=false;
    if(!ok){ std::ostringstream o; o<<"task "<<got<<" started out of order; queued (id:priority):"; for(auto&q:queue) o<<" "<<q.id<<":"<<q.pr; o<<"; "<<h.str(); c.fail("T02:order",o.str()); }
    queue.erase(queue.begin()+at); cur=got; h<<" ["<<got<<" starts]"; };
  auto finish=[&]{ // let the running task finish
    int f=finished.load(); gate.give(); ++ran; if(!eventually([&]{return finished.load()>f;})) c.fail("T02:stalled","a task did not finish; "+h.str()); cur=-1; h<<" finish;"; if(!queue.empty()) expect_start(); };
  try{
  int n=0; while(c.more(n,14,40)){
    switch(c.weighted({6,5,1,2})){
      case 0: { int k=(int)c.range(1,4); for(int i=0;i<k;++i){ unsigned pr=K==PRIO? (c.chance(1,6)?(unsigned)c.seed32():(unsigned)c.draw(5)):0; bool idle=cur<0; put(pr); h<<" +"<<next-1; if(K==PRIO) h<<"(p"<<pr<<")"; if(idle) expect_start(); } break; }
      case 1: if(cur>=0) finish(); break;
      case 2: pool->clear(); cleared+=(int)queue.size(); queue.clear(); h<<" clear;"; break;
      case 3: break; }
    maxq=std::max(maxq,(int)queue.size());
    PBT_REQUIRE(c,pool->pending()==queue.size(),"T02:pending","pending() is "<<pool->pending()<<" with "<<queue.size()<<" tasks queued; "<<h.str());
    PBT_REQUIRE(c,pool->empty()==queue.empty(),"T02:empty","empty() is "<<pool->empty()<<" with "<<queue.size()<<" tasks queued; "<<h.str()); }
  while(cur>=0) finish();
  pool->wait();
  PBT_REQUIRE(c,(int)started.size()==next-cleared,"T02:cleared","of "<<next<<" tasks "<<cleared<<" were cleared but "<<started.size()<<" started; "<<h.str());
  }catch(pbt::Failure&){ gate.give(1000000); pool->clear(); pool.reset(); throw; }
  c.nontrivial(maxq>=2&&ran>=2); c.label_if(cleared>0,"cleared"); c.note(h.str());
}
PBT_TARGET("fifo",1){ order<bt::fifo_pool,FIFO>(c); }
PBT_TARGET("lifo",1){ order<bt::lifo_pool,LIFO>(c); }
PBT_TARGET("prio",1){ order<bt::prio_pool,PRIO>(c); }
// the schedulers themselves as containers
template<class Sch,int K> void container(pbt::Case& c){
  Sch s; struct Q{ int id; unsigned pr; }; vector<Q> q; int n=0,next=0; int* box=new int(-1); std::shared_ptr<int> hold(box); std::ostringstream h; size_t mx=0;
  while(c.more(n,20,80)){ switch(c.weighted({5,4,1})){
      case 0: { int id=next++; unsigned pr=(unsigned)c.draw(4); bool r; boost::function0<void> f=[box,id]{ *box=id; }; r=s.push(typename Sch::task_type(K==PRIO? bt::prio_task_func(pr,f): bt::prio_task_func(0,f))); PBT_REQUIRE(c,r,"T02:push","push returned false"); q.push_back(Q{id,pr}); h<<" +"<<id<<":"<<pr; break; }
      case 1: if(!q.empty()){ typename Sch::task_type t=s.top(); s.pop(); *box=-1; t(); int id=*box; size_t at=q.size(); for(size_t i=0;i<q.size();++i) if(q[i].id==id) at=i; h<<" top="<<id; PBT_REQUIRE(c,at<q.size(),"T02:container","top() returned a task that is not queued;"<<h.str());
          bool ok=K==FIFO?at==0:K==LIFO?at+1==q.size():true; if(K==PRIO) for(auto&x:q) if(x.pr>q[at].pr) ok=false; PBT_REQUIRE(c,ok,"T02:container","top() out of order;"<<h.str()); q.erase(q.begin()+at); } break;
      case 2: s.clear(); q.clear(); h<<" clear"; break; }
    mx=std::max(mx,q.size()); PBT_REQUIRE(c,s.size()==q.size()&&s.empty()==q.empty(),"T02:container","size() "<<s.size()<<" with "<<q.size()<<" queued;"<<h.str()); }
  c.nontrivial(mx>=3); c.note(h.str()); }
PBT_TARGET("fifo_container",1){ container<bt::fifo_scheduler<bt::prio_task_func>,FIFO>(c); }
PBT_TARGET("lifo_container",1){ container<bt::lifo_scheduler<bt::prio_task_func>,LIFO>(c); }
PBT_TARGET("prio_container",1){ container<bt::prio_scheduler<bt::prio_task_func>,PRIO>(c); }
PBT_MAIN
