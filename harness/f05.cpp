// F05: scratch fields.  Model: a map from handle to scratch id, contents per scratch.
#include "so.h"
#include <spatialops/structured/SpatialFieldStore.h>
using namespace so;
#ifdef ENABLE_THREADS
#include <boost/thread.hpp>
#ifdef SCHED
#include "detsched.h"
#endif
#endif
template<class F> struct Handles {
  typedef S::SpatFldPtr<F> P; typedef typename F::value_type T;
  struct Scratch { F* addr; T* mem; vector<T> val; int refs; bool store; vector<T>* ext; Geo g; int mode; };
  pbt::Case& c; vector<std::unique_ptr<P> > h; vector<int> ref; vector<Scratch> sc; size_t a0; string hist; uint64_t stamp; vector<std::unique_ptr<vector<T> > > extmem; bool check_active;
  Handles(pbt::Case& cc,bool ca=true): c(cc), stamp(1), check_active(ca) { a0=SS::Pool<T>::self().active(); }
  void fill(int s){ Scratch& x=sc[s]; for(size_t i=0;i<x.val.size();++i){ x.val[i]=(T)(long)(stamp++%999983); x.mem[i]=x.val[i]; } }
  int reg(P& p,const Geo& g,bool store,bool ext){ Scratch s; s.addr=&*p; s.mem=p->field_values(); s.g=g; s.refs=0; s.store=store; s.mode=ext; s.ext=0; s.val.assign(g.npts(),T(0));
    PBT_REQUIRE(c,p.count()==1,"F05:count","a new scratch field has "<<p.count()<<" handles"); PBT_REQUIRE(c,p.built_from_store()==store,"F05:from-store","built_from_store is "<<p.built_from_store());
    const MemoryWindow& w=p->window_with_ghost(); for(int d=0;d<3;++d) PBT_REQUIRE(c,w.extent()[d]==g.glob(d)&&w.glob_dim()[d]==g.glob(d)&&w.offset()[d]==0,"F05:window",Stag<F>::name()<<" "<<g.str()<<": scratch window "<<w<<" has the wrong size in direction "<<d<<" after "<<hist);
    for(int d=0;d<3;++d) PBT_REQUIRE(c,p->window_without_ghost().extent()[d]==g.n[d]+g.e(d)&&p->window_without_ghost().offset()[d]==g.m(d),"F05:window",Stag<F>::name()<<" "<<g.str()<<": scratch interior "<<p->window_without_ghost());
    PBT_REQUIRE(c,p->get_ghost_data()==g.ghost()&&p->get_valid_ghost_data()==g.ghost(),"F05:ghosts","scratch ghosts "<<p->get_ghost_data());
    for(int d=0;d<3;++d) PBT_REQUIRE(c,(bool)p->boundary_info().has_bc(d)==g.bc[d]&&p->boundary_info().has_extra(d)==((g.bc[d]&&g.sdir==d)?1:0),"F05:boundary",Stag<F>::name()<<" "<<g.str()<<": scratch boundary information in direction "<<d);
    for(auto& o: sc) if(o.refs>0){ T* lo=o.mem; T* hi=lo+o.val.size(); PBT_REQUIRE(c,s.mem+g.npts()<=lo||s.mem>=hi,"F05:shared","a new scratch field shares memory with another live one after "<<hist); }
    sc.push_back(s); fill((int)sc.size()-1); return (int)sc.size()-1; }
  // drop what handle i refers to (model side)
  void drop(int i){ if(ref[i]>=0){ Scratch& s=sc[ref[i]]; if(--s.refs==0){} ref[i]=-1; } }
  void bind(int i,int s){ ref[i]=s; if(s>=0) sc[s].refs++; }
  template<class Proto> int from_proto(pbt::Case& c,const Geo& g0,P& out){ Geo pg=Geo::of<Proto>(g0); vector<typename Proto::value_type> mem(pg.npts()); Proto pf(pg.window(),pg.template bcinfo<Proto>(),pg.ghost(),mem.data(),S::structured::ExternalStorage);
    hist+=string("get from ")+Stag<Proto>::name()+" "; P p=S::SpatialFieldStore::get<F>(pf); Geo g=Geo::of<F>(g0); int s=reg(p,g,true,false); out=p; return s; }
  P obtain(int& s){ GeoOpts o; o.maxn=4; o.maxg=2; Geo g0=gen_geo(c,o); Geo g=Geo::of<F>(g0); 
    switch(c.draw(6)){
      case 0: { P p=S::SpatialFieldStore::get_from_window<F>(g.window(),g.template bcinfo<F>(),g.ghost()); hist+="get_from_window "; s=reg(p,g,true,false); return p; }
      case 1: { P p=S::SpatialFieldStore::get<F>(*new_proto(g)); hist+="get same type "; s=reg(p,g,true,false); return p; }
      case 2: { P p; p=first(); s=from_proto<SS::SVolField>(c,g0,p); return p; }
      case 3: { P p; p=first(); s=from_proto<SS::XVolField>(c,g0,p); return p; }
      case 4: { P p; p=first(); s=from_proto<SS::SSurfYField>(c,g0,p); return p; }
      default:{ P p; p=first(); s=from_proto<SS::ZSurfXField>(c,g0,p); return p; } } }
  P first(){ return S::SpatialFieldStore::get_from_window<F>(MemoryWindow(IntVec(1,1,1)),BoundaryCellInfo::build<F>(),GhostData(0)); }
  std::unique_ptr<F> protof; vector<T> protomem;
  F* new_proto(const Geo& g){ protomem.assign(g.npts(),T(0)); protof.reset(new F(g.window(),g.template bcinfo<F>(),g.ghost(),protomem.data(),S::structured::ExternalStorage)); return protof.get(); }
  F* raw(Geo& g,bool internal){ GeoOpts o; o.maxn=3; o.maxg=1; g=Geo::of<F>(gen_geo(c,o)); if(internal) return new F(g.window(),g.template bcinfo<F>(),g.ghost(),NULL,S::structured::InternalStorage);
    extmem.push_back(std::unique_ptr<vector<T> >(new vector<T>(g.npts()))); return new F(g.window(),g.template bcinfo<F>(),g.ghost(),extmem.back()->data(),S::structured::ExternalStorage); }
  void check(){ long live=0; for(auto&s:sc) if(s.refs>0 && (s.store||s.mode==0)) ++live;
    for(size_t i=0;i<h.size();++i){ P& p=*h[i]; const P& cp=p; if(ref[i]<0){ PBT_REQUIRE(c,p.isnull(),"F05:null","handle "<<i<<" refers to a field after "<<hist); continue; }
      Scratch& s=sc[ref[i]]; PBT_REQUIRE(c,!p.isnull()&&&*p==s.addr&&p.operator->()==s.addr&&&*cp==s.addr&&cp.operator->()==s.addr,"F05:target","handle "<<i<<" refers to another field after "<<hist);
      PBT_REQUIRE(c,p.count()==s.refs,"F05:count","field of handle "<<i<<" reports "<<p.count()<<" handles, "<<s.refs<<" exist after "<<hist);
      PBT_REQUIRE(c,p->field_values()==s.mem,"F05:storage","storage of handle "<<i<<" moved"); for(size_t k=0;k<s.val.size();++k) PBT_REQUIRE(c,s.mem[k]==s.val[k],"F05:contents","cell "<<k<<" of the field of handle "<<i<<" changed from "<<s.val[k]<<" to "<<s.mem[k]<<" after "<<hist); }
    if(check_active){ size_t act=SS::Pool<T>::self().active(); PBT_REQUIRE(c,act==a0+live,"F05:returned","the pool has "<<(long)(act-a0)<<" blocks in use for "<<live<<" live scratch fields after "<<hist); } }
  void step(){ int o=c.weighted({5,5,6,3,3,2,2,4,2}); size_t n=h.size(); std::ostringstream hs;
    if(n==0) o=0; int i=n?(int)c.draw(n):0, j=n?(int)c.draw(n):0;
    if((o==0||o==1||o==5)&&n>=7) o=2;
    switch(o){
      case 0: { int s; P p=obtain(s); h.push_back(std::unique_ptr<P>(new P(p))); ref.push_back(-1); bind((int)n,s); hs<<"->h"<<n; break; }
      case 1: { h.push_back(std::unique_ptr<P>(new P(*h[i]))); ref.push_back(-1); if(ref[i]>=0) bind((int)n,ref[i]); hs<<"h"<<n<<"(h"<<i<<")"; break; }
      case 2: { hs<<"h"<<i<<"=h"<<j; c.label_if(i==j,"self assignment"); c.label_if(ref[j]<0,"assignment from an empty handle"); c.label_if(i!=j&&ref[i]>=0&&ref[i]==ref[j],"assignment between handles of one field"); int s=ref[j]; hist+=hs.str()+"; "; hs.str(""); *h[i]=*h[j]; if(i!=j){ drop(i); bind(i,s); } break; }
      case 3: { hs<<"detach h"<<i; c.label_if(ref[i]>=0&&sc[ref[i]].refs>1,"detach of a shared field"); hist+=hs.str()+"; "; hs.str(""); h[i]->detach(); drop(i); break; }
      case 4: { hs<<"destroy h"<<i; hist+=hs.str()+"; "; hs.str(""); h[i].reset(); drop(i); h.erase(h.begin()+i); ref.erase(ref.begin()+i); break; }
      case 5: { h.push_back(std::unique_ptr<P>(new P())); ref.push_back(-1); hs<<"h"<<n<<"()"; break; }
      case 6: { Geo g; bool in=c.boolean(); F* f=raw(g,in); hs<<"h"<<i<<"=raw"<<(in?"(internal)":"(external)"); hist+=hs.str()+"; "; hs.str(""); *h[i]=f; drop(i); int s=reg(*h[i],g,false,!in); bind(i,s); break; }
      case 7: if(ref[i]>=0){ fill(ref[i]); hs<<"write h"<<i; } break;
      case 8: if(n<7){ Geo g; bool in=c.boolean(); F* f=raw(g,in); h.push_back(std::unique_ptr<P>(new P(f))); ref.push_back(-1); int s=reg(*h[n],g,false,!in); bind((int)n,s); hs<<"h"<<n<<"(raw)"; } break;
    }
    hist+=hs.str()+"; "; }
  void finish(){ while(!h.empty()){ int i=(int)h.size()-1; h[i].reset(); drop(i); h.pop_back(); ref.pop_back(); check(); } }
  void run(){ int n=0,copies=0; while(c.more(n,18,50)){ step(); check(); } for(auto&s:sc) (void)s; copies=(int)sc.size(); c.nontrivial(copies>=2&&n>6); c.note(hist); finish(); }
};
#ifndef MT
PBT_TARGET("svol",3){ Handles<SS::SVolField> h(c); h.run(); }
PBT_TARGET("ssurfx",2){ Handles<SS::SSurfXField> h(c); h.run(); }
PBT_TARGET("yvol",2){ Handles<SS::YVolField> h(c); h.run(); }
PBT_TARGET("zsurfz",1){ Handles<SS::ZSurfZField> h(c); h.run(); }
#else
// several threads, each with its own handles: the store hands every block to one thread only and the books balance
PBT_CTARGET("threads",1){
  typedef SS::SVolField F; int nt=(int)c.range(2,5), rounds=(int)c.range(1,30); uint64_t seed=c.seed32(); int hold=(int)c.range(1,6); c.nontrivial(); std::ostringstream ds; ds<<nt<<" threads x "<<rounds<<" rounds, up to "<<hold<<" fields held"; c.note(ds.str());
  size_t a0=SS::Pool<double>::self().active(); vector<string> err(nt); boost::thread_group tg;
  for(int t=0;t<nt;++t) tg.create_thread([=,&err]{ vector<std::pair<S::SpatFldPtr<F>,double> > held; uint64_t r=pbt::hcomb(seed,t);
      for(int k=0;k<rounds;++k){ r=pbt::mix64(r); int n=1+(int)(r%6); S::SpatFldPtr<F> p=S::SpatialFieldStore::get_from_window<F>(MemoryWindow(IntVec(n,n,n)),BoundaryCellInfo::build<F>(),GhostData(0)); double v=1000*(t+1)+k; for(F::iterator i=p->begin();i!=p->end();++i) *i=v; held.push_back(std::make_pair(p,v));
        if((int)held.size()>hold) held.erase(held.begin()+(r>>8)%held.size());
        for(auto&x:held) for(F::iterator i=x.first->begin();i!=x.first->end();++i) if(*i!=x.second){ err[t]="thread "+std::to_string(t)+": a held scratch field changed"; return; } } });
  tg.join_all(); for(auto&e:err) PBT_REQUIRE(c,e.empty(),"F05:thread-shared",e);
  PBT_REQUIRE(c,SS::Pool<double>::self().active()==a0,"F05:thread-books","after all threads returned their fields "<<(long)(SS::Pool<double>::self().active()-a0)<<" blocks remain in use");
}
#endif
PBT_MAIN
