// T06: looped tasks: run until they ask to stop, a break before every run
#include "pool.h"
using namespace tp;
typedef std::chrono::system_clock Clock;
struct Loop { int left; unsigned ms, work_; vector<Clock::time_point> begin, end; Loop():left(0),ms(0),work_(0){} };
PBT_CTARGET("looped",1){
  int w=(int)c.range(1,3), n=(int)c.range(1,4); bool pooled=c.chance(3,4); vector<std::shared_ptr<Loop> > L; std::ostringstream h; h<<(pooled?"":"called directly, ")<<w<<" workers:"; 
#ifdef SCHED
  bool lng=c.chance(1,3); const long longest=150000;      // simulated time costs nothing
#else
  bool lng=c.chance(1,60); const long longest=1040;
#endif
  int most=0;
  for(int i=0;i<n;++i){ std::shared_ptr<Loop> l(new Loop); l->ms= lng&&i==0? (unsigned)c.range(1000,longest): c.weighted({2,3})? (unsigned)c.range(1,7): 0; l->left= lng&&i==0? (int)c.draw(2): (int)c.draw(l->ms?4:30); l->work_=c.seed32(); L.push_back(l); h<<" "<<l->left+1<<" runs with breaks of "<<l->ms<<" ms"; most=std::max(most,l->left); }
  c.note(h.str()); c.nontrivial(most>0); c.label_if(lng,"break over a second"); vector<Clock::time_point> start;
  auto body=[](std::shared_ptr<Loop> l)->bool{ l->begin.push_back(Clock::now()); work((unsigned)pbt::hcomb(l->work_,l->begin.size())); bool more= l->left-->0; l->end.push_back(Clock::now()); return more; };
  vector<int> want; for(auto&l:L) want.push_back(l->left+1);
  { bt::fifo_pool p(w); for(auto&l:L){ bt::looped_task_func t(std::bind(body,l),l->ms); start.push_back(Clock::now()); if(pooled) p.schedule(t); else t(); } p.wait(); }
  for(int i=0;i<n;++i){ Loop& l=*L[i]; PBT_REQUIRE(c,(int)l.begin.size()==want[i],"T06:count","task "<<i<<" ran "<<l.begin.size()<<" times, "<<want[i]<<" expected; "<<h.str());
    for(size_t k=0;k<l.begin.size();++k){ double gap=std::chrono::duration<double,std::milli>(l.begin[k]-(k?l.end[k-1]:start[i])).count(); PBT_REQUIRE(c,gap>=l.ms-0.5,"T06:break","only "<<gap<<" ms passed before run "<<k<<" of task "<<i<<"; "<<h.str()); } }
}
// an empty looped task does nothing
PBT_CTARGET("empty",1){ unsigned ms=(unsigned)c.range(0,3); bt::looped_task_func t((boost::function0<bool>()),ms); bt::fifo_pool p(1); std::atomic<int> k(0); int n=(int)c.range(1,5); for(int i=0;i<n;++i){ if(c.boolean()) p.schedule(t); p.schedule([&]{ ++k; }); } p.wait(); c.nontrivial(); PBT_REQUIRE(c,k==n,"T06:empty","tasks beside an empty looped task did not run"); }
PBT_MAIN
