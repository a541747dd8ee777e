// S07: point boundary conditions write exactly the addressed cells, with the evaluator's current value.
#include "st.h"
#include <spatialops/structured/FVStaggeredBCTools.h>
using namespace so;
namespace {
struct Now { const double* t; double a; double operator()() const { return a+*t; } };
struct P3 { int v[3]; };
template<class F> void run(pbt::Case& c){
  GeoOpts go; go.maxn=6; go.maxg=3; Geo base=gen_dims(c,go); gen_ghosts(c,base,go); int nf=(int)c.range(1,3); vector<Box<F> > fs(nf); bool same_shape=c.boolean();
  for(int i=0;i<nf;++i){ Geo g=base; if(i&&!same_shape) gen_ghosts(c,g,go); if(i&&same_shape){ for(int d=0;d<3;++d){ g.pl[d]=fs[0].g.pl[d]; g.ph[d]=fs[0].g.ph[d]; } } else gen_pads(c,g,35); fs[i].init(g); fs[i].fill(c.seed32(),FULL); if(c.chance(1,3)){ int vm[3],vp[3]; gen_valid(c,fs[i].g,vm,vp,100); fs[i].set_valid(vm,vp); } }
  double t=0; typedef SS::BoundaryCondition<F,Now> BC; typedef SS::BoundaryCondition<F,SS::ConstValEval> CBC;
  struct Cond { std::unique_ptr<BC> b; std::unique_ptr<CBC> k; double a; bool list; vector<P3> pts; int from; }; vector<Cond> cs(c.range(1,3)); std::ostringstream h; h<<Stag<F>::name()<<" fields"; for(auto&f:fs) h<<" ["<<f.g.str()<<"]"; size_t most=0;
  for(auto& q:cs){ q.list=c.boolean(); q.a=cellval(c.seed32(),DYADIC,2); q.from=(int)c.draw(nf); bool konst=c.chance(1,3); Box<F>& f=fs[q.from]; 
    // a single point must exist in every field it is applied to
    Ibox b=f.total(); if(!q.list) for(auto&o:fs) b.meet(o.total()); int n= q.list? (int)c.range(c.chance(1,15)?0:1,c.chance(1,4)?30:5): 1; uint64_t sd=c.seed32(); for(int i=0;i<n;++i){ P3 p; for(int d=0;d<3;++d){ uint64_t r=pbt::hcomb(sd,(uint64_t)(3*i+d)); int s=b.hi[d]-b.lo[d]; p.v[d]=b.lo[d]+ ((r>>20)%3==0? ((r>>30)&1? s-1: 0): (int)(r%(uint64_t)s)); } q.pts.push_back(p); }
    most=std::max(most,q.pts.size()); h<<"; "<<(q.list?"list":"point"); for(size_t i=0;i<q.pts.size()&&i<6;++i) h<<" "<<ijks(q.pts[i].v[0],q.pts[i].v[1],q.pts[i].v[2]);
    if(!q.list){ IntVec p(q.pts[0].v[0],q.pts[0].v[1],q.pts[0].v[2]); if(konst) q.k.reset(new CBC(p,SS::ConstValEval(q.a))); else q.b.reset(new BC(p,Now{&t,q.a})); }
    else { const F& cf=*f.f; int which=(int)c.draw(2); MemoryWindow w= which==0? cf.window_with_ghost(): cf.window_without_ghost(); int o[3]; for(int d=0;d<3;++d) o[d]= which==0? f.valid().lo[d]: 0; if(which==0) for(int d=0;d<3;++d) o[d]= f.g.thin(d)?0: -f.vm[d]; vector<IntVec> v; for(auto&p:q.pts) v.push_back(IntVec(p.v[0]-o[0],p.v[1]-o[1],p.v[2]-o[2])); if(konst) q.k.reset(new CBC(w,v,SS::ConstValEval(q.a))); else q.b.reset(new BC(w,v,Now{&t,q.a})); h<<(which==0?" in the window with ghosts":" in the interior window"); } }
  c.note(h.str()); int steps=(int)c.range(1,6); c.nontrivial(steps>1||most>1); c.label_if(most>3,"many points"); c.label_if(fs[0].g.padded(),"sub-window"); c.label_if(nf>1,"several fields");
  for(int s=0;s<steps;++s){ if(c.boolean()) t=cellval(c.seed32(),SMALLINT,s); Cond& q=cs[c.draw(cs.size())]; int i= q.list? q.from: (int)c.draw(nf); if(q.list&&same_shape&&c.boolean()) i=(int)c.draw(nf); Box<F>& f=fs[i]; if(c.chance(1,3)) f.fill(c.seed32(),FULL); for(auto&x:fs) x.save();
    if(q.k) (*q.k)(*f.f); else (*q.b)(*f.f); double want= q.k? q.a: q.a+t; vector<char> hit(f.mem.size(),0); for(auto&p:q.pts) hit[Box<F>::G+f.g.flat(p.v[0],p.v[1],p.v[2])]=1;
    for(size_t k=0;k<f.mem.size();++k) if(hit[k]){ long fl=(long)k-Box<F>::G; int o[3]; f.g.ijk(fl,o); PBT_REQUIRE(c,bits(f.mem[k],want),"S07:value","cell "<<ijks(o[0],o[1],o[2])<<" of field "<<i<<" is "<<num(f.mem[k])<<", the evaluator gives "<<num(want)<<"; step "<<s<<"; "<<h.str()); } else if(!bits(f.mem[k],f.snap[k])) f.fail_at(c,"S07:outside",h.str().c_str(),k);
    for(int j=0;j<nf;++j) if(j!=i) fs[j].check_untouched(c,"S07:other","another field"); }
}
}
PBT_TARGET("points",1){ int t=(int)c.draw(16); for_type(t,[&](auto* p){ run<typename std::remove_pointer<decltype(p)>::type>(c); }); }
PBT_MAIN
