// S01: values of single operators;  S02 (-DREGION): cells written;  S03 (-DCHAIN): inline vs step by step;  S04 (-DFILTER): box filters;  S08 (-DCUSTOM): user-defined stencils
#include "st.h"
#ifdef THREADS
#include "tune.h"
#endif
using namespace so;
namespace {
#define SO_STR2(x) #x
#define SO_STR(x) SO_STR2(x)
#include TUFILE
#if defined(THREADS)
#define ID "E05"
#elif defined(CHAIN)
#define ID "S03"
#elif defined(CUSTOM)
#define ID "S08"
#elif defined(FILTER)
#define ID "S04"
#elif defined(REGION)
#define ID "S02"
#else
#define ID "S01"
#endif
template<class F> void run(pbt::Case& c,const SEntry& en){
  static SEnv e; SetupOpts o;
#if defined(REGION)
  const bool vary=true;
#else
  const bool vary=c.chance(1,2);
#endif
#if defined(CUSTOM)
  o.coefs=true;
#endif
  o.vary=vary; setup(c,e,en,o);
  Box<F> t; setup_target(c,e,t,vary);
  #if defined(CUSTOM)
  // a stencil none of whose points is on one side may or may not use the source's extra layers on the other side
  Ibox reg=e.region(en.needs,en.nneeds,true), may=t.total(); may.meet(e.region(en.needs,en.nneeds)); bool maylack=e.lacks_extra(t.g,en.needs,en.nneeds,true)&&!e.lacks_extra(t.g,en.needs,en.nneeds); const Ibox* mp=&may;
  c.label_if(reg.lo[0]!=may.lo[0],"one-sided");
#else
  const bool maylack=false; const Ibox* mp=NULL; Ibox reg=e.region(en.needs,en.nneeds);
#endif
  Ibox exp=t.total(); exp.meet(reg); bool lacks=e.lacks_extra(t.g,en.needs,en.nneeds);
  std::ostringstream h; h<<en.text<<" to "<<Stag<F>::name()<<" "<<t.g.str()<<", operands"; for(auto&p:e.ops) if(p->up) h<<" ["<<p->str()<<"]"; c.note(h.str());
  Ibox tot=t.total(); bool cut=false; for(int d=0;d<3;++d) if(reg.lo[d]>tot.lo[d]||reg.hi[d]<tot.hi[d]) cut=true;
#if defined(THREADS)
  c.note(h.str()+"   "+tune(c,*t.f,tot.hi[0]-tot.lo[0],tot.hi[1]-tot.lo[1],tot.hi[2]-tot.lo[2]));
#elif defined(REGION)
  c.nontrivial(cut);
#else
  c.nontrivial(!lacks&&exp.count()>3);
#endif
  c.label_if(cut,"operands do not reach all of the target"); c.label_if(t.g.padded(),"target is a sub-window"); c.label_if(lacks,"rejected"); c.label_if(en.depth>1,"nested operators"); c.label_if(e.base.thin(0)||e.base.thin(1)||e.base.thin(2),"one-cell direction");
  bool threw=false; string why; try{ en.assign(t.f.get(),e); }catch(std::exception& x){ threw=true; why=x.what(); }
  if(maylack&&threw) t.check_untouched(c,ID ":outside","target of a rejected assignment");
  else if(lacks){ PBT_REQUIRE(c,threw,ID ":not-rejected","assignment accepted although the operands cannot supply the boundary-extra cell: "<<h.str()); t.check_untouched(c,ID ":outside","target of a rejected assignment"); }
  else { PBT_REQUIRE(c,!threw,ID ":rejected","assignment rejected: "<<why<<": "<<h.str()); compare(c,ID,e,en,t,exp,"",true,true,mp); }
  for(auto&p:e.ops) if(p->up) p->untouched(c,ID ":operand");
#if !defined(REGION)
  // apply_to_field / one operator at a time
  if(!lacks&&!maylack){ Box<F> u; u.init(t.g); u.mem=t.snap; u.save(); bool ok=true; threw=false; try{ ok=en.steps(u.f.get(),e); }catch(std::exception& x){ threw=true; why=x.what(); }
    if(ok){ c.label("compared with separate evaluation"); PBT_REQUIRE(c,!threw,ID ":steps-rejected","step-by-step evaluation rejected: "<<why<<": "<<h.str()); compare(c,ID,e,en,u,exp,"step by step",true,true,mp); } }
#endif
}
void all(pbt::Case& c){ const SEntry& en=ENTRIES[c.draw(NENTRIES)]; 
#if defined(FILTER)
  for_type(en.tgt,[&](auto* p){ typedef typename std::remove_pointer<decltype(p)>::type F; if constexpr(Stag<F>::dir<3 && (std::is_same<F,SS::SVolField>::value||std::is_same<F,SS::XVolField>::value||std::is_same<F,SS::YVolField>::value||std::is_same<F,SS::ZVolField>::value)) run<F>(c,en); });
#else
  for_type(en.tgt,[&](auto* p){ run<typename std::remove_pointer<decltype(p)>::type>(c,en); });
#endif
}
PBT_TARGET("ops" SO_STR(TU),1){ all(c); }
}
#if TU==0 && defined(CUSTOM)
namespace {
template<int N> struct Coefs { static SpatialOps::NeboStencilCoefCollection<N> make(const double* w){ return Coefs<N-1>::make(w)(w[N-1]); } };
template<> struct Coefs<1> { static SpatialOps::NeboStencilCoefCollection<1> make(const double* w){ return SpatialOps::build_coef_collection(w[0]); } };
template<int N> void coefs(pbt::Case& c,const double* w){
  auto k=Coefs<N>::make(w); auto k2=k; for(int i=0;i<N;++i){ PBT_REQUIRE(c,k.get_coef(i)==w[i]&&k2.get_coef(i)==w[i],"S08:coef","coefficient "<<i<<" of "<<N<<" is "<<num(k.get_coef(i))<<", was given "<<num(w[i])); }
  PBT_REQUIRE(c,k.coef()==w[N-1],"S08:coef","last coefficient of "<<N<<" is "<<num(k.coef()));
  int bad= c.boolean()? -1-(int)c.draw(5): N+(int)c.draw(5); bool threw=false; try{ k.get_coef(bad); }catch(std::exception&){ threw=true; }
  PBT_REQUIRE(c,threw,"S08:no-coef","coefficient "<<bad<<" of a list of "<<N<<" is not refused"); }
}
template<int N> void pickcoefs(pbt::Case& c,int n,const double* w){ if(n>=N) coefs<N>(c,w); else pickcoefs<N-1>(c,n,w); }
template<> void pickcoefs<1>(pbt::Case& c,int,const double* w){ coefs<1>(c,w); }
PBT_TARGET("coefficients",1){ double w[27]; for(double&x:w) x=c.real(); int n=1+(int)c.draw(c.boolean()?8:27); c.note("list of "+std::to_string(n)+" coefficients"); c.nontrivial(n>1); c.label("coefficient list");
  pickcoefs<27>(c,n,w);
  auto t=SpatialOps::build_two_point_coef_collection(w[0],w[1]); auto f=SpatialOps::build_four_point_coef_collection(w[0],w[1],w[2],w[3]); for(int i=0;i<4;++i) PBT_REQUIRE(c,f.get_coef(i)==w[i]&&(i>1||t.get_coef(i)==w[i]),"S08:coef","two- or four-point coefficient list: wrong coefficient "<<i); }
#endif
#if TU==0
PBT_MAIN
#endif
