// F06: memory pool.  Model: the set of outstanding blocks (address range, contents).
#include "pbt.h"
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/SpatialOpsDefs.h>
using namespace SpatialOps; using namespace SpatialOps::structured;
template<class T> struct Run {
  struct B { T* p; size_t n; uint64_t seed; };
  pbt::Case& c; Pool<T>& pool; std::vector<B> out; size_t a0; std::string hist; int reuse; std::set<T*> seen;
  Run(pbt::Case& cc): c(cc), pool(Pool<T>::self()), reuse(0) { a0=pool.active(); }
  static T val(uint64_t s,size_t i){ return (T)(pbt::hcomb(s,i)%100003); }
  void books(){ PBT_REQUIRE(c,pool.active()==a0+out.size(),"F06:active","pool reports "<<pool.active()-a0<<" active blocks, "<<out.size()<<" are outstanding after "<<hist); PBT_REQUIRE(c,pool.total()>=pool.active(),"F06:total","total blocks "<<pool.total()<<" below active blocks "<<pool.active()); PBT_REQUIRE(c,&Pool<T>::self()==&pool,"F06:self","another pool instance"); }
  void get(size_t n){ B b; b.n=n; b.p=pool.get(LOCAL_RAM,n); b.seed=pbt::hcomb(out.size(),hist.size()); PBT_REQUIRE(c,b.p!=NULL,"F06:null","no block for "<<n<<" elements"); hist+="get("+std::to_string(n)+") ";
    for(auto& o: out) PBT_REQUIRE(c, o.p!=b.p && (b.p+b.n<=o.p || b.p>=o.p+o.n),"F06:overlap","block of "<<n<<" elements overlaps an outstanding block of "<<o.n<<" after "<<hist);
    if(!seen.insert(b.p).second) ++reuse; for(size_t i=0;i<n;++i) b.p[i]=val(b.seed,i); out.push_back(b); }
  void verify(const B& b){ for(size_t i=0;i<b.n;++i) PBT_REQUIRE(c,b.p[i]==val(b.seed,i),"F06:contents","element "<<i<<" of an outstanding block of "<<b.n<<" changed after "<<hist); }
  void put(size_t k){ verify(out[k]); hist+="put("+std::to_string(out[k].n)+") "; pool.put(LOCAL_RAM,out[k].p); out.erase(out.begin()+k); }
  void go(int maxops){ int n=0; size_t last=1; int gets=0; size_t scale=(size_t)c.oneof({8,40,300,3000}); size_t total0=pool.total();
    while(c.more(n,25,maxops)){ int o=c.weighted({5,4,1}); if(o==1&&out.empty()) o=0;
      if(o==0){ size_t m= c.chance(1,3)? std::max<long>(0,(long)last+c.range(-2,2)) : c.draw(scale+1); get(m); last=m; ++gets; } else if(o==1) put(c.draw(out.size())); else for(auto&b:out) verify(b);
      books(); PBT_REQUIRE(c,pool.total()<=total0+gets,"F06:total","pool created more blocks than were requested"); }
    c.nontrivial(reuse>0&&gets>2); c.label_if(reuse>0,"a returned block was reused"); c.note(hist); for(auto&b:out) verify(b); while(!out.empty()){ put(out.size()-1); books(); } }
};
static void pick(pbt::Case& c,int mx){ switch(c.draw(3)){ case 0: { Run<double> r(c); r.go(mx); break; } case 1: { Run<float> r(c); r.go(mx); break; } default: { Run<unsigned> r(c); r.go(mx); } } }
#ifdef FRESH
PBT_FTARGET("fresh-pool",4){ pick(c,60); }
// the process ends while blocks are pooled or still outstanding; some are returned by exit handlers that run before or after the pool is destroyed
#include <sys/wait.h>
#include <unistd.h>
static std::vector<double*> early_b, late_b; static void early(){ for(double* p:early_b) Pool<double>::self().put(LOCAL_RAM,p); } static void late(){ for(double* p:late_b) Pool<double>::self().put(LOCAL_RAM,p); }
PBT_FTARGET("process-exit",1){
  std::vector<std::pair<int,size_t> > ops; int n=0; size_t held=0; std::string h; while(c.more(n,10,30)){ if(held&&c.boolean()){ ops.push_back({1+(int)c.weighted({4,1,1}),c.draw(held)}); --held; } else { ops.push_back({0,c.draw(200)+1}); ++held; } h+=ops.back().first==0?"get("+std::to_string(ops.back().second)+") ":ops.back().first==1?"put ":ops.back().first==2?"return-at-exit ":"return-after-pool "; }
  c.note(h).note(std::to_string(held)+" outstanding at exit"); bool any=false; for(auto&o:ops) any=any||o.first; c.nontrivial(any); c.label("process exit");
  pid_t p=fork(); if(p==0){ alarm(30); std::atexit(late); Pool<double>& pool=Pool<double>::self(); std::vector<double*> b; for(auto&o:ops){ if(o.first==0) { b.push_back(pool.get(LOCAL_RAM,o.second)); b.back()[o.second-1]=1; } else { double* q=b[o.second]; b.erase(b.begin()+o.second); if(o.first==1) pool.put(LOCAL_RAM,q); else (o.first==2?early_b:late_b).push_back(q); } } std::atexit(early); std::exit(0); }
  if(p<0) c.discard(); int st=0; while(p>0&&waitpid(p,&st,0)<0){} PBT_REQUIRE(c,WIFEXITED(st)&&WEXITSTATUS(st)==0,"F06:exit","a process that used the pool does not end cleanly ("<<(WIFSIGNALED(st)?"signal ":"status ")<<(WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st))<<") after "<<h<<"and exiting with "<<held<<" blocks outstanding"); }
#else
PBT_TARGET("long-lived-pool",1){ pick(c,60); }
#endif
PBT_MAIN
