// E05: several user threads assigning their own fields while the pool is resized.
#include "env.h"
#include "tune.h"
#ifdef SCHED   // a process and a pool of its own per case, threads and clock under the deterministic scheduler
#include "detsched.h"
#undef PBT_CTARGET
#define PBT_CTARGET PBT_CFTARGET
#endif
#include <thread>
#include <atomic>
#include <boost/thread.hpp>
using namespace so;
// The pool's counters are single words read without its lock on purpose (the volatile idiom of boost.threadpool); only reports whose
// innermost frame is one of these accessors are ignored, not those from tasks the pool runs.
extern "C" const char* __tsan_default_suppressions(){ return "race_top:pool_core*::size\nrace_top:pool_core*::max_active\nrace_top:pool_core*::active\nrace_top:pool_core*::resize_active\n"; }
namespace {
template<class F> struct Job { Box<F> t; int kind; double s; Ibox ex; int parts; };
template<class F> void run(pbt::Case& c){
  S::ThreadPoolFIFO::self(); GeoOpts o; o.maxn=c.chance(1,4)?14:6; o.maxg=2; Geo base=gen_geo(c,o); Geo ga=base, gb=base; gen_ghosts(c,ga,o); gen_pads(c,ga,25); Box<F> a(ga), b(gb); a.fill(c.seed32(),DYADIC); b.fill(c.seed32(),DYADIC); if(c.boolean()){ int vm[3],vp[3]; gen_valid(c,b.g,vm,vp,100); b.set_valid(vm,vp); } MaskBox<F> M; int vm[3],vp[3]; for(int d=0;d<3;++d){ vm[d]=base.gm[d]; vp[d]=base.gp[d]; } Geo gm=base; M.init(c,gm,vm,vp);
  int users=(int)c.range(1,4), each=(int)c.range(1,5); bool meddle=c.boolean(); vector<vector<std::unique_ptr<Job<F> > > > js(users); Ibox ops=a.valid(); ops.meet(b.valid());
  static const int many[]={1,2,3,4,5,6,7,8,9,12,17}; std::ostringstream h; h<<users<<" threads x "<<each<<" assignments to "<<Stag<F>::name()<<" like "<<base.str()<<(meddle?", workers changed meanwhile":"")<<", partitions"; int split=0;
  for(int u=0;u<users;++u) for(int k=0;k<each;++k){ Job<F>* j=new Job<F>; Geo gt=base; if(c.boolean()) gen_ghosts(c,gt,o); gen_pads(c,gt,25); j->t.init(gt); j->t.fill(c.seed32(),SMALLINT); j->t.save(); j->kind=(int)c.draw(4); j->s=cellval(c.seed32(),DYADIC,1); j->parts=many[c.draw(11)]; h<<" "<<j->parts; j->t.f->set_partition_count(j->parts); j->ex=j->t.total(); j->ex.meet(ops); if(j->kind==2) j->ex.meet(M.proto.valid()); if(j->kind==3) j->ex=j->t.total(); if(j->parts>1&&(j->parts<=gt.glob(0)||j->parts<=gt.glob(1)||j->parts<=gt.glob(2))) ++split; js[u].push_back(std::unique_ptr<Job<F> >(j)); }
  c.note(h.str()); c.nontrivial(users>1&&split>1); c.label_if(meddle,"workers changed meanwhile"); std::atomic<int> left(users); vector<string> err(users); uint64_t sd=c.seed32();
  { boost::thread_group tg; for(int u=0;u<users;++u) tg.create_thread([&,u]{ using namespace SpatialOps; try{ for(auto&j:js[u]){ F& t=*j->t.f; const F& x=*a.f; const F& y=*b.f; double s=j->s; switch(j->kind){ case 0: t <<= x*s+y; break; case 1: t <<= max(x,y)-s; break; case 2: t <<= cond(*M.m,x)(x<y,y*2.0)(s); break; default: t <<= s; } } }catch(std::exception& e){ err[u]=e.what(); } --left; });
    uint64_t r=sd; int n=0; while(meddle&&left>0&&n++<12){ r=pbt::mix64(r); int k=1+(int)(r%6); if(r>>20&1) S::set_hard_thread_count(k); else S::set_soft_thread_count(k); if(r>>21&1) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(50)); } tg.join_all(); if(meddle){ S::set_hard_thread_count(4); S::set_soft_thread_count(4); } }
  for(int u=0;u<users;++u){ PBT_REQUIRE(c,err[u].empty(),"E05:user-threw","an assignment in user thread "<<u<<" failed: "<<err[u]<<"; "<<h.str()); for(size_t q=0;q<js[u].size();++q){ Job<F>& j=*js[u][q]; for(size_t p=0;p<j.t.mem.size();++p){ long f=(long)p-Box<F>::G; int i[3]; bool in=false; if(f>=0&&f<j.t.g.npts()){ j.t.g.ijk(f,i); in=j.ex.has(i[0],i[1],i[2]); } if(!in){ if(!bits(j.t.mem[p],j.t.snap[p])) j.t.fail_at(c,"E05:user-outside",h.str().c_str(),p); continue; }
      double w=j.s; if(j.kind<3){ double x=a.at(i[0],i[1],i[2]), y=b.at(i[0],i[1],i[2]); w= j.kind==0? x*j.s+y: j.kind==1? rmax(x,y)-j.s: M.get(i[0],i[1],i[2])? x: x<y? y*2.0: j.s; } PBT_REQUIRE(c,close(j.t.mem[p],w,1e-11*(std::fabs(w)+1000)),"E05:user-value","thread "<<u<<", assignment "<<q<<" (form "<<j.kind<<", "<<j.parts<<" partitions) gives "<<num(j.t.mem[p])<<" at "<<ijks(i[0],i[1],i[2])<<", expected "<<num(w)<<"; target "<<j.t.g.str()<<"; "<<h.str()); } } }
}
}
PBT_CTARGET("svol",2){ run<SS::SVolField>(c); }
PBT_CTARGET("xvol",1){ run<SS::XVolField>(c); }
PBT_CTARGET("ssurfz",1){ run<SS::SSurfZField>(c); }
PBT_MAIN
