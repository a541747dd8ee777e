// C04: analytic initialisers: value, first and second derivative against the formulas and against numerical differentiation
// of the formula in long double.
#include "env.h"
#include <spatialops/FieldFunctions.h>
using namespace so;
namespace {
typedef long double ld;
struct P { double p[5]; };
ld f0(int k,const P& q,ld x){ const double*p=q.p; switch(k){ case 0: return x*p[0]+p[1]; case 1: return p[0]*sinl(x*p[1])+p[2]; case 2: return p[0]*expl(-(x-p[2])*(x-p[2])/(2.0L*p[1]*p[1]))+p[3];
  default: return (ld)p[0]/2*(1+tanhl((x-p[2])/p[1]))*(1-0.5L*(1+tanhl((x-p[3])/p[1]))); } }
ld f1(int k,const P& q,ld x){ const double*p=q.p; switch(k){ case 0: return p[0]; case 1: return (ld)p[0]*p[1]*cosl(x*p[1]); default: { ld s2=(ld)p[1]*p[1]; return -(x-p[2])/s2*p[0]*expl(-(x-p[2])*(x-p[2])/(2*s2)); } } }
ld f2(int k,const P& q,ld x){ const double*p=q.p; switch(k){ case 0: return 0; case 1: return -(ld)p[0]*p[1]*p[1]*sinl(x*p[1]); default: { ld s2=(ld)p[1]*p[1]; return ((x-p[2])*(x-p[2])/(s2*s2)-1/s2)*p[0]*expl(-(x-p[2])*(x-p[2])/(2*s2)); } } }
template<class F> void run(pbt::Case& c){
  GeoOpts o; o.maxn=5; o.maxg=2; Geo g=gen_geo(c,o); Box<F> x(g); Geo tg=g; gen_pads(c,tg,20); Box<F> t; t.init(tg); 
  double sc=c.oneof({1.0,0.1,10.0}), of=c.chance(1,3)?(double)c.range(-5,5):0; uint64_t sd=c.seed32(); for(long i=0;i<x.g.npts();++i) x.data()[i]= of+sc*(2*u01(pbt::hcomb(sd,i))-1); if(c.chance(1,4)) x.data()[c.draw(x.g.npts())]=of;
  int k=(int)c.draw(4); P q; for(int i=0;i<5;++i) q.p[i]= (c.boolean()?1:-1)*(0.125+4*c.unit()); if(k>=2) q.p[1]=std::fabs(q.p[1]); if(k==2||k==3) q.p[2]=of+sc*(2*c.unit()-1); bool dfl= (k==1||k==2)&&c.chance(1,4); if(dfl) q.p[k==1?2:3]=0;
  std::unique_ptr<S::FieldFunction1D<F> > fn; const double*p=q.p; const F& X=*x.f;
  switch(k){ case 0: fn.reset(new S::LinearFunction1D<F>(X,p[0],p[1])); break; case 1: fn.reset(dfl? new S::SinFunction<F>(X,p[0],p[1]): new S::SinFunction<F>(X,p[0],p[1],p[2])); break;
    case 2: fn.reset(dfl? new S::GaussianFunction<F>(X,p[0],p[1],p[2]): new S::GaussianFunction<F>(X,p[0],p[1],p[2],p[3])); break; default: fn.reset(new S::HyperTanFunction<F>(X,p[0],p[1],p[2],p[3])); }
  const char* nm[4]={"linear","sine","gaussian","hyperbolic tangent"}; int der=k==3?0:(int)c.draw(3); std::ostringstream w; w<<nm[k]<<" derivative "<<der<<" parameters "<<p[0]<<" "<<p[1]<<" "<<p[2]<<" "<<p[3]<<" "<<Stag<F>::name()<<" "<<t.g.str(); c.note(w.str()); c.nontrivial(x.g.npts()>1&&k>0); c.label(nm[k]); c.label_if(der==1,"first derivative"); c.label_if(der==2,"second derivative");
  t.fill(c.seed32(),SMALLINT); t.save(); x.save(); int reps=1+c.chance(1,5); while(reps--){ if(der==0) fn->evaluate(*t.f); else if(der==1) fn->dx(*t.f); else fn->d2x(*t.f); }
  PBT_REQUIRE(c,&fn->get_x()==&X,"C04:coordinate","get_x() is not the coordinate field"); x.check_untouched(c,"C04:coordinate","coordinate field");
  Ibox v=t.total();
  for(size_t i=0;i<t.mem.size();++i){ long f=(long)i-Box<F>::G; int y[3]; bool in=false; if(f>=0&&f<t.g.npts()){ t.g.ijk(f,y); in=v.has(y[0],y[1],y[2]); } if(!in){ if(!bits(t.mem[i],t.snap[i])) t.fail_at(c,"C04:outside",nm[k],i); continue; }
    double xv=x.at(y[0],y[1],y[2]); ld want= der==0?f0(k,q,xv): der==1? f1(k,q,xv): f2(k,q,xv); ld mag=std::fabs((double)want);
    ld s= k==0? std::fabs(p[0]*xv)+std::fabs(p[1])+std::fabs(p[0]): k==1? std::fabs(p[0])*(der==0?1: der==1? std::fabs(p[1]): p[1]*p[1])*(1+std::fabs(xv*p[1]))+std::fabs(p[2]): std::fabs(p[0])*(1+std::fabs((xv-p[2])/p[1]))*(der==0?1:der==1?1/p[1]:1/(p[1]*p[1]))*4+std::fabs(p[3]); if(k==2){ ld z=(xv-p[2])/p[1]; s*=(1+z*z)*(1+z*z); } if(k==3) s*=1+std::fabs(xv-p[2])/p[1]+std::fabs(xv-p[3])/p[1];
    PBT_REQUIRE(c,std::fabs((double)(t.mem[i]-want))<=1e-12*(double)(mag+s),"C04:value","at coordinate "<<num(xv)<<" got "<<num(t.mem[i])<<" want "<<num((double)want)<<"; "<<w.str());
    if(der>0&&k>0){ // the oracle's own derivative agrees with differences of the formula
      ld e= 1e-4L*(k==1? 1/std::fabs((ld)p[1]): (ld)p[1]), nd= der==1? (f0(k,q,xv+e)-f0(k,q,xv-e))/(2*e): (f0(k,q,xv+e)-2*f0(k,q,xv)+f0(k,q,xv-e))/(e*e); PBT_REQUIRE(c,std::fabs((double)(nd-want))<1e-4*(double)(mag+s),"C04:oracle","oracle inconsistent "<<num((double)nd)<<" "<<num((double)want)); } } }
}
PBT_TARGET("svol",3){ run<SS::SVolField>(c); }
PBT_TARGET("xsurfx",2){ run<SS::SSurfXField>(c); }
PBT_TARGET("yvol",2){ run<SS::YVolField>(c); }
PBT_MAIN
