// C02: grid coordinates.
#include "so.h"
#include <spatialops/structured/Grid.h>
using namespace so;
namespace {
// location of a field type relative to the cell centre, in half cells (-1: on the minus face)
template<class F> struct At; 
#define AT(T,a,b,d) template<> struct At<SS::T>{ static int o(int i){ static const int v[3]={a,b,d}; return v[i]; } };
AT(SVolField,0,0,0) AT(SSurfXField,-1,0,0) AT(SSurfYField,0,-1,0) AT(SSurfZField,0,0,-1)
AT(XVolField,-1,0,0) AT(XSurfXField,0,0,0) AT(XSurfYField,-1,-1,0) AT(XSurfZField,-1,0,-1)
AT(YVolField,0,-1,0) AT(YSurfXField,-1,-1,0) AT(YSurfYField,0,0,0) AT(YSurfZField,0,-1,-1)
AT(ZVolField,0,0,-1) AT(ZSurfXField,-1,0,-1) AT(ZSurfYField,0,-1,-1) AT(ZSurfZField,0,0,0)
template<class F> void set(const SS::Grid& gr,int d,F& f){ if(d==0) gr.set_coord<S::XDIR>(f); else if(d==1) gr.set_coord<S::YDIR>(f); else gr.set_coord<S::ZDIR>(f); }
template<class F> void run(pbt::Case& c){
  GeoOpts o; o.maxn=c.chance(1,20)?60:8; if(o.maxn>8) o.maxg=1; Geo g=gen_geo(c,o); if(o.maxn>8){ int d=(int)c.draw(3); for(int q=0;q<3;++q) if(q!=d) g.n[q]=1+(int)c.draw(3); }
  gen_pads(c,g,30); Box<F> b(g); b.fill(c.seed32(),SMALLINT); if(c.chance(1,3)){ int vm[3],vp[3]; gen_valid(c,b.g,vm,vp,100); b.set_valid(vm,vp); c.label("reduced valid region"); }
  IntVec n(1,1,1); vector<double> L(3); for(int d=0;d<3;++d){ n[d]= c.chance(1,4)? 1+(int)c.draw(1000): b.g.n[d]; L[d]= c.chance(1,3)? std::ldexp(1+c.unit(),(int)c.range(-20,20))*(c.boolean()?1:0.7): (c.boolean()?0.125:0.1)*(1+c.draw(80)); }
  SS::Grid gr(n,L); b.save(); int dir=(int)c.draw(3); const double h=L[dir]/n[dir]; set(gr,dir,*b.f);
  std::ostringstream w; w<<Stag<F>::name()<<" "<<b.g.str()<<" valid "<<b.valid().str()<<", "<<n[0]<<"x"<<n[1]<<"x"<<n[2]<<" cells of "<<L[0]<<","<<L[1]<<","<<L[2]<<", direction "<<"xyz"[dir]; c.note(w.str()); c.nontrivial(b.valid().count()>1); c.label_if(b.g.padded(),"sub-window"); c.label_if(At<F>::o(dir)!=0,"staggered direction");
  double sp[3]={gr.spacing<S::XDIR>(),gr.spacing<S::YDIR>(),gr.spacing<S::ZDIR>()}; for(int d=0;d<3;++d){ PBT_REQUIRE(c,close(sp[d],L[d]/n[d],1e-14*L[d]/n[d]),"C02:spacing","spacing "<<num(sp[d])<<" in direction "<<d<<"; "<<w.str()); PBT_REQUIRE(c,gr.extent(d)==n[d]&&gr.extent()[d]==n[d]&&gr.length(d)==L[d]&&gr.length()[d]==L[d],"C02:extent","grid reports another extent or length; "<<w.str()); }
  Ibox v=b.valid();
  for(size_t q=0;q<b.mem.size();++q){ long f=(long)q-Box<F>::G; int x[3]; bool in=false; if(f>=0&&f<b.g.npts()){ b.g.ijk(f,x); in=v.has(x[0],x[1],x[2]); }
    if(!in){ if(!bits(b.mem[q],b.snap[q])) b.fail_at(c,"C02:outside","coordinate field",q); continue; }
    double want=h*(x[dir]+0.5*(1+At<F>::o(dir))), tol=1e-13*h*(std::abs(x[dir])+2);
    PBT_REQUIRE(c,close(b.mem[q],want,tol),"C02:value","coordinate at "<<ijks(x[0],x[1],x[2])<<" is "<<num(b.mem[q])<<", expected "<<num(want)<<"; "<<w.str()); } }
}
#define R1(T) PBT_TARGET(#T,1){ run<SS::T##Field>(c); }
R1(SVol)
R1(SSurfX)
R1(SSurfY)
R1(SSurfZ)
R1(XVol)
R1(XSurfX)
R1(XSurfY)
R1(XSurfZ)
R1(YVol)
R1(YSurfX)
R1(YSurfY)
R1(YSurfZ)
R1(ZVol)
R1(ZSurfX)
R1(ZSurfY)
R1(ZSurfZ)
PBT_MAIN
