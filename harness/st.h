// Operands of generated operator expressions (gen_stencil.py) and their model.
#pragma once
#include "env.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/OperatorDatabase.h>
#include <tuple>
namespace so {
typedef std::tuple<SS::SVolField,SS::SSurfXField,SS::SSurfYField,SS::SSurfZField,SS::XVolField,SS::XSurfXField,SS::XSurfYField,SS::XSurfZField,
  SS::YVolField,SS::YSurfXField,SS::YSurfYField,SS::YSurfZField,SS::ZVolField,SS::ZSurfXField,SS::ZSurfYField,SS::ZSurfZField> AllTypes;
template<int T> using FieldT = typename std::tuple_element<T,AllTypes>::type;
/// operand (0..31: two fields per type, 32..47: a mask per type) and the offsets at which it is read; clo/chi: the same with every stencil also counted as reading its own cell
struct Need { int op; int lo[3], hi[3], clo[3], chi[3]; };

struct IBox { virtual ~IBox(){} virtual void init(pbt::Case&,const Geo&,bool vary,const int* nm,const int* np,uint64_t seed,int style,int poison)=0;
  virtual double at(int,int,int) const=0; virtual Ibox valid() const=0; virtual int rplus(int d) const=0; virtual int rminus(int d) const=0; virtual string str() const=0;
  virtual void save()=0; virtual void untouched(pbt::Case&,const string&)=0; bool up; IBox():up(false){} };
/// ghosts of g are at least nm/np (for the field's own valid region)
inline void widen(Geo& g,const int* nm,const int* np){ for(int d=0;d<3;++d){ g.gm[d]=std::max(g.gm[d],nm[d]); g.gp[d]=std::max(g.gp[d],np[d]-((g.bc[d]&&g.sdir==d)?1:0)); } }
inline void gen_valid_min(pbt::Case& c,const Geo& g,const int* nm,const int* np,int* vm,int* vp){
  bool red=c.boolean(); for(int d=0;d<3;++d){ vm[d]=g.gm[d]; vp[d]=g.gp[d]; if(!red) continue;
    int a=std::max(0,nm[d]), b=std::max(0,np[d]-((g.bc[d]&&g.sdir==d)?1:0)); vm[d]=(int)c.range(std::min(a,vm[d]),vm[d]); vp[d]=(int)c.range(std::min(b,vp[d]),vp[d]); } }
inline double poisonval(int p){ return p==0? std::numeric_limits<double>::quiet_NaN(): p==1? 1e300: -7e5; }
template<class F> struct FBox : IBox { Box<F> b;
  void init(pbt::Case& c,const Geo& g0,bool vary,const int* nm,const int* np,uint64_t seed,int style,int poison) override {
    Geo g=Geo::of<F>(g0); if(vary){ if(c.chance(2,3)) { GeoOpts o; o.maxg=2; gen_ghosts(c,g,o); } gen_pads(c,g,20); } widen(g,nm,np);
    b.init(g); int vm[3],vp[3]; for(int d=0;d<3;++d){ vm[d]=b.g.gm[d]; vp[d]=b.g.gp[d]; } if(vary){ gen_valid_min(c,b.g,nm,np,vm,vp); b.set_valid(vm,vp); }
    b.fill(seed,style); b.poison_invalid(poisonval(poison)); up=true; }
  double at(int i,int j,int k) const override { return b.at(i,j,k); }
  Ibox valid() const override { return b.valid(); }
  int rplus(int d) const override { return b.vp[d]+((b.g.bc[d]&&b.g.sdir==d)?1:0); }
  int rminus(int d) const override { return b.vm[d]; }
  string str() const override { return string(Stag<F>::name())+" "+b.g.str()+" valid "+b.valid().str(); }
  void save() override { b.save(); }
  void untouched(pbt::Case& c,const string& key) override { b.check_untouched(c,key,"operand"); } };
template<class F> struct MBox : IBox { MaskBox<F> b;
  void init(pbt::Case& c,const Geo& g0,bool vary,const int* nm,const int* np,uint64_t,int,int) override {
    Geo g=Geo::of<F>(g0); if(vary&&c.boolean()){ GeoOpts o; o.maxg=2; gen_ghosts(c,g,o); } widen(g,nm,np); int vm[3],vp[3]; for(int d=0;d<3;++d){ vm[d]=g.gm[d]; vp[d]=g.gp[d]; } if(vary) gen_valid_min(c,g,nm,np,vm,vp);
    b.init(c,g,vm,vp); up=true; }
  double at(int i,int j,int k) const override { return b.get(i,j,k); }
  Ibox valid() const override { return b.proto.valid(); }
  int rplus(int d) const override { return b.proto.vp[d]+((b.proto.g.bc[d]&&b.proto.g.sdir==d)?1:0); }
  int rminus(int d) const override { return b.proto.vm[d]; }
  string str() const override { string s=b.proto.g.str()+" valid "+b.proto.valid().str(); return "mask "+s; }
  void save() override {} void untouched(pbt::Case&,const string&) override {} };

struct SEnv {
  S::OperatorDatabase db; double h[3], L[3], s1,s2, cw[32]; int N[3];   // spacing, length and cell count the operators were built with; coefficients of user-defined stencils
  Geo base; vector<std::unique_ptr<IBox> > ops; bool lacks_inter;
  template<size_t... I> void make(std::index_sequence<I...>){ ops.resize(48); (void)std::initializer_list<int>{ (ops[2*I].reset(new FBox<FieldT<I> >()),ops[2*I+1].reset(new FBox<FieldT<I> >()),ops[32+I].reset(new MBox<FieldT<I> >()),0)... }; }
  SEnv(){ make(std::make_index_sequence<16>()); }
  template<int N> FieldT<N/2>& f(){ return *static_cast<FBox<FieldT<N/2> >*>(ops[N].get())->b.f; }
  template<int N> MaskBox<FieldT<N-32> >& m(){ return static_cast<MBox<FieldT<N-32> >*>(ops[N].get())->b; }
  double at(int n,int i,int j,int k) const { return ops[n]->at(i,j,k); }
  bool mask(int n,int i,int j,int k) const { return ops[32+n]->at(i,j,k)!=0; }
  /// cells of the destination for which every cell read is valid
  Ibox region(const Need* n,int cnt,bool cons=false) const { Ibox r; for(int d=0;d<3;++d){ r.lo[d]=-1000; r.hi[d]=1000; }
    for(int q=0;q<cnt;++q){ Ibox v=ops[n[q].op]->valid(); for(int d=0;d<3;++d){ if(base.thin(d)){ v.lo[d]=0; v.hi[d]=1; } else { v.lo[d]-=cons?n[q].clo[d]:n[q].lo[d]; v.hi[d]-=cons?n[q].chi[d]:n[q].hi[d]; } } r.meet(v); } return r; }
  /// the expression cannot supply the extra boundary cell a destination of type F needs
  bool lacks_extra(const Geo& t,const Need* n,int cnt,bool cons=false) const { for(int x=0;x<3;++x) if(t.bc[x]&&t.sdir==x) for(int q=0;q<cnt;++q) if(ops[n[q].op]->rplus(x)-(cons?n[q].chi[x]:n[q].hi[x])<1) return true; return false; }
  // intermediates of the step-by-step evaluation
  /// as many ghost layers as any operand could give an intermediate result
  int imed(int d) const { int k=3; for(auto&p:ops) if(p->up&&!base.thin(d)) k=std::max(k,std::max(p->rminus(d),p->rplus(d))); return k+3; }
  template<class F> bool scratch(Box<F>& b,const Need* n,int cnt){ Geo g=base; for(int d=0;d<3;++d){ g.gm[d]=g.gp[d]=imed(d); g.pl[d]=g.ph[d]=0; } b.init(g); b.fill_value(poisonval(0)); if(lacks_extra(b.g,n,cnt)){ lacks_inter=true; return false; } return true; }
  template<class F> void finish(Box<F>& b,const Need* n,int cnt){ Ibox r=region(n,cnt); int vm[3],vp[3]; for(int d=0;d<3;++d){ const int k=imed(d); vm[d]=vp[d]=k; 
      if(!b.g.thin(d)){ vm[d]=std::min(k,-r.lo[d]); vp[d]=std::min(k,r.hi[d]-b.g.n[d]-b.g.e(d)); }
      else for(int q=0;q<cnt;++q){ vm[d]=std::min(vm[d],ops[n[q].op]->rminus(d)+n[q].lo[d]); vp[d]=std::min(vp[d],ops[n[q].op]->rplus(d)-n[q].hi[d]-((b.g.bc[d]&&b.g.sdir==d)?1:0)); } }
    b.set_valid(vm,vp); }
};
struct SEntry { const char* text; int tgt, axes, size, depth; const Need* needs; int nneeds; void(*assign)(void*,SEnv&); bool(*steps)(void*,SEnv&); double(*ref)(const SEnv&,int,int,int,R&); double(*red)(int,SEnv&); };

/// sets up operands and runs fn.operator()<F>(Box<F>& target) for the target's type
struct SetupOpts { bool vary; int maxn; bool poison,coefs; SetupOpts():vary(true),maxn(6),poison(true),coefs(false){} };
inline void setup(pbt::Case& c,SEnv& e,const SEntry& en,const SetupOpts& o=SetupOpts()){
  GeoOpts go; go.maxn=o.maxn; go.maxg=2; go.thin_pct=18; e.base=gen_dims(c,go); for(int d=0;d<3;++d) if((en.axes>>d&1)&&e.base.thin(d)) e.base.n[d]=(int)c.range(2,o.maxn);
  gen_ghosts(c,e.base,go);
  for(int d=0;d<3;++d){ e.L[d]=0.25*(1+c.draw(20)); e.N[d]= c.chance(1,4)? 1+(int)c.draw(40): e.base.n[d]; e.h[d]=e.L[d]/e.N[d]; }   // the field may be a patch of a larger domain
  e.db.empty_database(); SS::build_stencils(e.N[0],e.N[1],e.N[2],e.L[0],e.L[1],e.L[2],e.db); if(o.coefs) for(double&w:e.cw) w=0.25*((int)c.draw(17)-8);
  e.s1=0.25*(1+c.draw(10)); e.s2=0.5*((int)c.draw(11)-5); e.lacks_inter=false;
  int st=gen_style(c), pz=(int)c.draw(3); for(auto&p:e.ops) p->up=false;
  for(int q=0;q<en.nneeds;++q){ int op=en.needs[q].op; if(e.ops[op]->up) continue; int nm[3]={0,0,0},np[3]={0,0,0};
    for(int r=0;r<en.nneeds;++r) if(en.needs[r].op==op) for(int d=0;d<3;++d){ nm[d]=std::max(nm[d],-en.needs[r].clo[d]); np[d]=std::max(np[d],en.needs[r].chi[d]); }
    e.ops[op]->init(c,e.base,o.vary,nm,np,c.seed32(),st,pz); e.ops[op]->save(); } }
template<class F> inline void setup_target(pbt::Case& c,SEnv& e,Box<F>& t,bool vary){ Geo g=Geo::of<F>(e.base); if(vary){ if(c.chance(2,3)){ GeoOpts o; o.maxg=3; gen_ghosts(c,g,o); } gen_pads(c,g,25); } t.init(g); t.fill(c.seed32(),SMALLINT); t.save(); }
/// exactly the cells of exp hold the reference value, everything else is as before
template<class F> void compare(pbt::Case& c,const string& id,SEnv& e,const SEntry& en,Box<F>& t,const Ibox& exp,const char* what,bool region,bool values,const Ibox* may=NULL){
  for(size_t q=0;q<t.mem.size();++q){ long f=(long)q-Box<F>::G; int o[3]; bool in=false; if(f>=0&&f<t.g.npts()){ t.g.ijk(f,o); in=exp.has(o[0],o[1],o[2]); }
    if(!in){ if(region&&!bits(t.mem[q],t.snap[q])){ if(may&&f>=0&&f<t.g.npts()&&may->has(o[0],o[1],o[2])){ R r; double want=en.ref(e,o[0],o[1],o[2],r); if(close(t.mem[q],want,1e-11*r.M)) continue; } std::ostringstream w; w<<what<<" "<<en.text<<", expected "<<exp.str(); t.fail_at(c,id+":outside",w.str().c_str(),q); } continue; }
    if(!values) continue; R r; double want=en.ref(e,o[0],o[1],o[2],r), tol=1e-11*r.M;
    if(!close(t.mem[q],want,tol)){ std::ostringstream w; w<<what<<" "<<en.text<<" ["<<Stag<F>::name()<<" "<<t.g.str()<<"] at "<<ijks(o[0],o[1],o[2])<<" of "<<exp.str()<<": got "<<num(t.mem[q])<<" want "<<num(want)<<" (before: "<<num(t.snap[q])<<")"; c.fail(id+":value",w.str()); } } }
template<class Fn> void for_type(int t,Fn&& fn){
  switch(t){
#define SO_T(n) case n: fn((FieldT<n>*)0); break;
  SO_T(0) SO_T(1) SO_T(2) SO_T(3) SO_T(4) SO_T(5) SO_T(6) SO_T(7) SO_T(8) SO_T(9) SO_T(10) SO_T(11) SO_T(12) SO_T(13) SO_T(14) SO_T(15)
#undef SO_T
  } }
} // namespace so
