// S06: boundary conditions applied through operators (single point, list of points, mask);  S07 is in s07.cpp
#include "st.h"
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
#include <spatialops/NeboStencilBuilder.h>
using namespace so;
namespace {
#define SO_STR2(x) #x
#define SO_STR(x) SO_STR2(x)
struct Now { const double* t; double a; double operator()() const { return a+*t; } };   // re-evaluated at every application
struct Op { int dir, lo, hi; const char* name; };
struct Pt { int g[3], a[3], b[3]; };   // destination point, cell that is set, cell that is read
string show(const vector<Pt>& v){ std::ostringstream o; for(size_t i=0;i<v.size()&&i<8;++i) o<<(i?" ":"")<<ijks(v[i].g[0],v[i].g[1],v[i].g[2]); if(v.size()>8) o<<" .."; return o.str(); }
/// destination points whose cells all lie in box and do not interfere with each other
vector<Pt> gen_points(pbt::Case& c,const Ibox& box,const Op& op,bool minus,bool plane,const Geo& g){
  vector<Pt> r; std::set<vector<int> > set_, read; int oa= minus?op.lo:op.hi, ob= minus?op.hi:op.lo; int want= c.weighted({1,3,3,2}); want= want==0?1: want==1?(int)c.range(1,4): want==2? (int)c.range(4,20): 60; 
  int pl=0; { int l=box.lo[op.dir]-std::min(op.lo,op.hi), h=box.hi[op.dir]-std::max(op.lo,op.hi); pl=(int)c.range(l,h-1); if(c.boolean()) pl= minus? l: h-1; } uint64_t sd=c.seed32();
  for(int t=0;t<want*2&&(int)r.size()<want;++t){ Pt p; for(int d=0;d<3;++d){ int l=box.lo[d], h=box.hi[d]; if(d==op.dir){ l-=std::min(op.lo,op.hi); h-=std::max(op.lo,op.hi); } uint64_t q=pbt::hcomb(sd,(uint64_t)(t*3+d)); p.g[d]= l+(int)(q%(uint64_t)(h-l)); } if(plane) p.g[op.dir]=pl; for(int d=0;d<3;++d) p.a[d]=p.b[d]=p.g[d]; p.a[op.dir]+=oa; p.b[op.dir]+=ob;
    vector<int> A(p.a,p.a+3), B(p.b,p.b+3); if(set_.count(A)||read.count(A)||set_.count(B)) continue; set_.insert(A); read.insert(B); r.push_back(p); } (void)g;
  return r; }

template<class OpT,class SF,class DF> void run(pbt::Case& c,const Op& op,double (*clo)(const double*),double (*chi)(const double*)){
  static SEnv e; GeoOpts go; go.maxn=6; go.thin_pct=18; e.base=gen_dims(c,go); if(e.base.thin(op.dir)) e.base.n[op.dir]=(int)c.range(2,6); gen_ghosts(c,e.base,go);
  for(int d=0;d<3;++d){ e.L[d]=0.25*(1+c.draw(20)); e.N[d]= c.chance(1,4)? 1+(int)c.draw(40): e.base.n[d]; e.h[d]=e.L[d]/e.N[d]; } e.db.empty_database(); SS::build_stencils(e.N[0],e.N[1],e.N[2],e.L[0],e.L[1],e.L[2],e.db);
  const OpT* opp=e.db.retrieve_operator<OpT>(); double cl=clo(e.h), ch=chi(e.h);
  Geo g=Geo::of<SF>(e.base); if(c.boolean()) gen_ghosts(c,g,go); if(c.chance(4,5)){ g.gm[op.dir]=std::max(g.gm[op.dir],-op.lo); g.gp[op.dir]=std::max(g.gp[op.dir],op.hi); } bool reach= g.gm[op.dir]>=-op.lo&&g.gp[op.dir]>=op.hi; gen_pads(c,g,30); Box<SF> f(g); int st=gen_style(c); f.fill(c.seed32(),st); if(f.g.glob(op.dir)<op.hi-op.lo+1){ c.discard(); return; }
  bool list=c.chance(2,3); int side=(int)c.draw(3); SS::BCSide sd= side==0?SS::MINUS_SIDE: side==1? SS::PLUS_SIDE: SS::NO_SIDE; bool minus= side!=1; double ca= minus?cl:ch, cb= minus?ch:cl;
  vector<Pt> pts=gen_points(c,f.total(),op,minus,c.boolean(),f.g); if(!list) pts.resize(1); double t=0; Now ev={&t,cellval(c.seed32(),DYADIC,1)};
  // the window the points refer to
  const SF& cf=*f.f; int which=(int)c.draw(2); MemoryWindow w= which==0? cf.window_without_ghost(): cf.window_with_ghost(); int o0[3]; for(int d=0;d<3;++d) o0[d]= which==0? 0: f.g.lo(d);
  std::ostringstream h; h<<op.name<<(list?" list of ":" ")<<pts.size()<<" point(s) "<<show(pts)<<(side==0?" minus":side==1?" plus":" no")<<" side, on "<<Stag<SF>::name()<<" "<<f.g.str()<<(list? which? ", points relative to the window with ghosts":", points relative to the interior":""); c.note(h.str());
  c.nontrivial(list? pts.size()>1: true); c.label(list?"list":"single"); c.label_if(f.g.padded(),"sub-window"); c.label_if(pts.size()>5,"many points"); c.label(side==0?"minus":side==1?"plus":"no side");
  std::unique_ptr<SS::BoundaryConditionOp<OpT,Now> > bc; if(list){ vector<IntVec> v; for(auto&p:pts) v.push_back(IntVec(p.g[0]-o0[0],p.g[1]-o0[1],p.g[2]-o0[2])); bc.reset(new SS::BoundaryConditionOp<OpT,Now>(w,v,sd,ev,e.db)); } else bc.reset(new SS::BoundaryConditionOp<OpT,Now>(IntVec(pts[0].g[0],pts[0].g[1],pts[0].g[2]),sd,ev,e.db));
  PBT_REQUIRE(c,bc->getGhostCoef()==ca||std::fabs(bc->getGhostCoef()-ca)<1e-13*std::fabs(ca),"S06:coef","ghost coefficient "<<num(bc->getGhostCoef())<<", operator has "<<num(ca)<<"; "<<h.str());
  int reps=(int)c.range(1,3);
  for(int r=0;r<reps;++r){ t=cellval(c.seed32(),SMALLINT,r); if(r&&c.boolean()) f.fill(c.seed32(),st); f.save(); try{ (*bc)(*f.f); }catch(std::exception& x){ c.fail("S06:threw",string("applying the condition failed: ")+x.what()+"; "+h.str()); }
    double want=ev(); vector<char> hit(f.mem.size(),0);
    for(auto&p:pts){ size_t q=Box<SF>::G+f.g.flat(p.a[0],p.a[1],p.a[2]); hit[q]=1; double a=f.at(p.a[0],p.a[1],p.a[2]), b=f.at(p.b[0],p.b[1],p.b[2]); double tol=1e-12*(std::fabs(want)+std::fabs(ca*a)+std::fabs(cb*b)); PBT_REQUIRE(c,std::fabs(ca*a+cb*b-want)<=tol,"S06:value","at "<<ijks(p.g[0],p.g[1],p.g[2])<<" the operator would give "<<num(ca*a+cb*b)<<", imposed "<<num(want)<<" (cell "<<ijks(p.a[0],p.a[1],p.a[2])<<" is "<<num(a)<<", "<<ijks(p.b[0],p.b[1],p.b[2])<<" is "<<num(b)<<"); "<<h.str()); }
    for(size_t i=0;i<f.mem.size();++i) if(!hit[i]&&!bits(f.mem[i],f.snap[i])) f.fail_at(c,"S06:outside",h.str().c_str(),i);
    // through the operator itself
    if(r==reps-1&&reach){ c.label("applied the operator"); Geo dg=Geo::of<DF>(e.base); for(int d=0;d<3;++d){ dg.gm[d]=dg.gp[d]=10; dg.pl[d]=dg.ph[d]=0; dg.bc[d]=false; } Box<DF> dst(dg); dst.fill_value(-9e9); try{ opp->apply_to_field(*f.f,*dst.f); }catch(std::exception& x){ c.fail("S06:apply",string("applying the operator failed: ")+x.what()+"; "+h.str()); }
      for(auto&p:pts){ double a=f.at(p.a[0],p.a[1],p.a[2]), b=f.at(p.b[0],p.b[1],p.b[2]), got=dst.at(p.g[0],p.g[1],p.g[2]); double tol=1e-12*(std::fabs(want)+std::fabs(ca*a)+std::fabs(cb*b)); PBT_REQUIRE(c,std::fabs(got-want)<=tol,"S06:operator","the operator gives "<<num(got)<<" at "<<ijks(p.g[0],p.g[1],p.g[2])<<", imposed "<<num(want)<<"; "<<h.str()); } }
  }
}
// conditions given by a mask of destination points (phi: source of the operator, gamma: destination)
template<class SF,class DF,class A,class B,bool minus> void runmask(pbt::Case& c,const Op& op){
  GeoOpts go; go.maxn=6; go.thin_pct=18; Geo base=gen_dims(c,go); if(base.thin(op.dir)) base.n[op.dir]=(int)c.range(2,6);
  Geo g=Geo::of<SF>(base); for(int d=0;d<3;++d){ g.gm[d]=(int)c.range(1,3); g.gp[d]=(int)c.range(1,3); } Geo gg=Geo::of<DF>(base), gk=gg; for(int d=0;d<3;++d){ gg.gm[d]=g.gm[d]+1+(int)c.draw(2); gg.gp[d]=g.gp[d]+2+(int)c.draw(2); gk.gm[d]=g.gm[d]+1+(int)c.draw(2); gk.gp[d]=g.gp[d]+2+(int)c.draw(2); } gen_pads(c,g,30); gen_pads(c,gg,20);
  Box<SF> phi(g); Box<DF> gam(gg), gam2(gg), proto(gk); int st=gen_style(c); phi.fill(c.seed32(),st); gam.fill(c.seed32(),st); gam2.fill(c.seed32(),SMALLINT); int kind=(int)c.draw(3); double k=cellval(c.seed32(),DYADIC,3);
  vector<Pt> pts=gen_points(c,phi.total(),op,minus,c.boolean(),phi.g); if(c.chance(1,12)) pts.clear(); vector<IntVec> v; for(auto&p:pts) v.push_back(IntVec(p.g[0],p.g[1],p.g[2])); double ca=(c.boolean()?1:-1)*0.25*c.range(1,12), cb= c.chance(1,8)? 0: 0.25*c.range(-12,12);
  std::ostringstream h; h<<"mask of "<<Stag<DF>::name()<<" points "<<show(pts)<<(minus?" minus":" plus")<<" side, condition on "<<Stag<SF>::name()<<" "<<phi.g.str()<<" with coefficients "<<ca<<", "<<cb<<(kind==0?", imposing a number":kind==1?", imposing a field":", imposing an expression"); c.note(h.str()); c.nontrivial(pts.size()>1); c.label("mask"); c.label_if(phi.g.padded(),"sub-window");
  SS::SpatialMask<DF> m(*proto.f,v); S::NeboBoundaryConditionBuilder<A,B,SF,DF> bc(ca,cb); phi.save(); gam.save(); gam2.save();
  try{ using namespace SpatialOps; if(kind==0) bc(m,*phi.f,k,minus); else if(kind==1) bc(m,*phi.f,*gam.f,minus); else bc(m,*phi.f,*gam.f*k+*gam2.f,minus); }catch(std::exception& x){ c.fail("S06:threw",string("applying the condition failed: ")+x.what()+"; "+h.str()); }
  vector<char> hit(phi.mem.size(),0);
  for(auto&p:pts){ hit[Box<SF>::G+phi.g.flat(p.a[0],p.a[1],p.a[2])]=1; double y= kind==0?k: kind==1? gam.at(p.g[0],p.g[1],p.g[2]): gam.at(p.g[0],p.g[1],p.g[2])*k+gam2.at(p.g[0],p.g[1],p.g[2]); double a=phi.at(p.a[0],p.a[1],p.a[2]), b=phi.at(p.b[0],p.b[1],p.b[2]); double tol=1e-12*(std::fabs(y)+std::fabs(ca*a)+std::fabs(cb*b)+ (kind==2? 1000:0));
    PBT_REQUIRE(c,std::fabs(ca*a+cb*b-y)<=tol,"S06:mask-value","at "<<ijks(p.g[0],p.g[1],p.g[2])<<" the two cells combine to "<<num(ca*a+cb*b)<<", imposed "<<num(y)<<"; "<<h.str()); }
  for(size_t i=0;i<phi.mem.size();++i) if(!hit[i]&&!bits(phi.mem[i],phi.snap[i])) phi.fail_at(c,"S06:mask-outside",h.str().c_str(),i);
  gam.check_untouched(c,"S06:operand","imposed field"); gam2.check_untouched(c,"S06:operand","imposed field");
}
template<int D,int V> struct Tri { typedef SS::IndexTriplet<D==0?V:0,D==1?V:0,D==2?V:0> type; };
template<class X> struct Par; template<class X> struct Par<void(X)> { typedef X type; };
#define BCOP(i,T,SRC,DST,D,LO,HI,CLO,CHI,NM,STG) template<> void op<i>(pbt::Case& c){ struct C { static double lo(const double* hh){ struct { const double* h; } e={hh}; (void)e; return CLO; } static double hi(const double* hh){ struct { const double* h; } e={hh}; (void)e; return CHI; } }; typedef SS::SRC##Field SF; typedef SS::DST##Field DF; Op o={D,LO,HI,NM}; \
  if constexpr(STG!=0){ if(c.chance(2,5)){ typedef Tri<D,LO>::type L; typedef Tri<D,HI>::type H; if(c.boolean()) runmask<SF,DF,L,H,true>(c,o); else runmask<SF,DF,H,L,false>(c,o); return; } } typedef Par<void T>::type OpT; run<OpT,SF,DF>(c,o,&C::lo,&C::hi); }
template<int I> void op(pbt::Case&);
#include TUFILE
template<int... I> void dispatch(pbt::Case& c,int n,std::integer_sequence<int,I...>){ void(*f[])(pbt::Case&)={ &op<I>... }; f[n](c); }
PBT_TARGET("bc" SO_STR(TU),1){ dispatch(c,(int)c.draw(NOPS),std::make_integer_sequence<int,NOPS>()); }
}
#if TU==0
PBT_MAIN
#endif
