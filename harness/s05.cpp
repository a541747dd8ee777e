// S05: operators applied to linear functions of the grid coordinates; sums of divergences.
#include "st.h"
#include <spatialops/structured/Grid.h>
using namespace so;
namespace {
#define SO_STR2(x) #x
#define SO_STR(x) SO_STR2(x)
#include TUFILE
template<class F> void coords(const SS::Grid& gr,Box<F>* x){ gr.set_coord<S::XDIR>(*x[0].f); gr.set_coord<S::YDIR>(*x[1].f); gr.set_coord<S::ZDIR>(*x[2].f); }
template<class DF> void run(pbt::Case& c,const SEntry& en){
  static SEnv e; SetupOpts o; o.vary=c.boolean(); setup(c,e,en,o); string text=en.text; bool interp=text.compare(0,6,"Interp")==0, flux=text.compare(0,4,"Dive")==0&&c.boolean(); int dir=0; if(!interp) for(int d=0;d<3;++d) if(en.needs[0].lo[d]!=en.needs[0].hi[d]) dir=d;
  SS::Grid gr(IntVec(e.N[0],e.N[1],e.N[2]),vector<double>(e.L,e.L+3)); double a=cellval(c.seed32(),DYADIC,0), sl[3]; for(int d=0;d<3;++d) sl[d]= c.chance(1,4)? 0: cellval(c.seed32(),FULL,d)*(c.boolean()?1:20);
  int sop=en.needs[0].op; Ibox src; double mag=0;
  for_type(sop/2,[&](auto* p){ typedef typename std::remove_pointer<decltype(p)>::type SF; Box<SF>& b=static_cast<FBox<SF>*>(e.ops[sop].get())->b; src=b.valid(); if(!flux){ Box<SF> x[3]; for(int d=0;d<3;++d) x[d].init(b.g); coords(gr,x); for(int k=src.lo[2];k<src.hi[2];++k)for(int j=src.lo[1];j<src.hi[1];++j)for(int i=src.lo[0];i<src.hi[0];++i){ double v=a; double mg=std::fabs(a); for(int d=0;d<3;++d){ v+=sl[d]*x[d].at(i,j,k); mg+=std::fabs(sl[d]*x[d].at(i,j,k)); } b.at(i,j,k)=v; mag=std::max(mag,mg); } } else for(int k=src.lo[2];k<src.hi[2];++k)for(int j=src.lo[1];j<src.hi[1];++j)for(int i=src.lo[0];i<src.hi[0];++i) mag=std::max(mag,std::fabs(b.at(i,j,k))); });
  Box<DF> t; setup_target(c,e,t,o.vary); Ibox reg=e.region(en.needs,en.nneeds), ex=t.total(); ex.meet(reg); if(e.lacks_extra(t.g,en.needs,en.nneeds)){ c.discard(); return; }
  std::ostringstream h; h<<text<<" to "<<t.g.str()<<", source "<<e.ops[sop]->str()<<", "<<e.N[0]<<"x"<<e.N[1]<<"x"<<e.N[2]<<" cells, lengths "<<e.L[0]<<","<<e.L[1]<<","<<e.L[2]; if(!flux) h<<", function "<<a<<" + "<<sl[0]<<" x + "<<sl[1]<<" y + "<<sl[2]<<" z"; c.note(h.str()); c.nontrivial(ex.count()>3); c.label(flux?"flux sum":interp?"interpolation":"slope"); c.label_if(e.h[0]!=e.h[1],"unequal spacing");
  bool which=c.boolean(), threw=false; string why; try{ if(which) en.assign(t.f.get(),e); else en.steps(t.f.get(),e); }catch(std::exception& x){ threw=true; why=x.what(); } PBT_REQUIRE(c,!threw,"S05:rejected","operator rejected: "<<why<<"; "<<h.str());
  double hh=e.L[dir]/e.N[dir], tol= 2e-13*mag*(interp?1:1/hh);
  if(flux){ int d=dir, u=(d+1)%3, w=(d+2)%3; for(int q=ex.lo[w];q<ex.hi[w];++q)for(int p=ex.lo[u];p<ex.hi[u];++p){ long double s=0; int pos[3]; pos[u]=p; pos[w]=q; for(int i=ex.lo[d];i<ex.hi[d];++i){ pos[d]=i; s+=t.at(pos[0],pos[1],pos[2]); } int l[3]={pos[0],pos[1],pos[2]}, r[3]={pos[0],pos[1],pos[2]}; l[d]=ex.lo[d]+en.needs[0].lo[d]; r[d]=ex.hi[d]-1+en.needs[0].hi[d]; long double want=((long double)e.at(sop,r[0],r[1],r[2])-e.at(sop,l[0],l[1],l[2]))/hh; PBT_REQUIRE(c,std::fabs((double)(s-want))<=tol*(ex.hi[d]-ex.lo[d]+1),"S05:flux","the divergences of the row through "<<ijks(pos[0],pos[1],pos[2])<<" sum to "<<num((double)s)<<", the end fluxes give "<<num((double)want)<<"; "<<h.str()); } return; }
  Geo tg=t.g; Box<DF> x[3]; for(int d=0;d<3;++d) x[d].init(tg); coords(gr,x);
  for(int k=ex.lo[2];k<ex.hi[2];++k)for(int j=ex.lo[1];j<ex.hi[1];++j)for(int i=ex.lo[0];i<ex.hi[0];++i){ double want=sl[dir]; if(interp){ want=a; for(int d=0;d<3;++d) want+=sl[d]*x[d].at(i,j,k); } double got=t.at(i,j,k); PBT_REQUIRE(c,std::fabs(got-want)<=tol+2e-13*std::fabs(want),"S05:linear","at "<<ijks(i,j,k)<<" (coordinates "<<num(x[0].at(i,j,k))<<","<<num(x[1].at(i,j,k))<<","<<num(x[2].at(i,j,k))<<") the operator gives "<<num(got)<<", the exact "<<(interp?"value":"slope")<<" is "<<num(want)<<"; "<<h.str()); }
}
}
PBT_TARGET("ops" SO_STR(TU),1){ const SEntry& en=ENTRIES[c.draw(NENTRIES)]; for_type(en.tgt,[&](auto* p){ run<typename std::remove_pointer<decltype(p)>::type>(c,en); }); }
#if TU==0
PBT_MAIN
#endif
