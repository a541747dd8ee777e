// P03: Lagrange coefficients against long-double products, and exactness on random polynomials.
#include "../engine/pbt.h"
#include <spatialops/structured/onedim/LagrangePoly.h>
#include <memory>
#include <sstream>
#include <iomanip>
#include <cmath>
using std::vector; using std::string; typedef long double ld;
namespace {
string num(double v){ std::ostringstream o; o<<std::setprecision(17)<<v; return o.str(); }
vector<double> points(pbt::Case& c, int n){ vector<double> x(n); int kind=(int)c.draw(4); double h=std::ldexp(1.0,c.chance(1,4)? (int)c.range(-60,60): (int)c.range(-6,6)); double o= c.boolean()? 0: (c.unit()*2-1)*20*h;
  for(int i=0;i<n;++i){ if(kind==0) x[i]=o+i*h; else if(kind==1) x[i]=(i? x[i-1]: o)+h*(0.05+c.unit()); else if(kind==2) x[i]=(i? x[i-1]: o)+h*std::ldexp(1.0,(int)c.range(-6,3)); else x[i]=(double)(c.range(-3,0)+ (i? (long)x[i-1]+4: -2)); } return x; }
double where(pbt::Case& c, const vector<double>& x, string& what){ int n=(int)x.size(); size_t k=c.draw(n);
  switch(c.weighted({5,2,1,1,1})){ case 1: what="a node"; return x[k]; case 2: { what="a midpoint"; size_t j=std::min<size_t>(k+1,n-1); return 0.5*(x[k]+x[j]); } case 3: { what="just above a node"; return k+1<(size_t)n? std::nextafter(x[k],x[k+1]): x[k]; } case 4: { what="just below a node"; return k>0? std::nextafter(x[k],x[k-1]): x[k]; } }
  what="inside"; double v=x[0]+(x[n-1]-x[0])*c.unit(); return std::min(std::max(v,x[0]),x[n-1]); }
const double EPS=2.3e-16;
struct Ref { vector<ld> c, mag; };
Ref reference(const vector<double>& x, const vector<int>& id, double at, bool der){ Ref r; int m=(int)id.size(); for(int k=0;k<m;++k){ ld den=1; for(int i=0;i<m;++i) if(i!=k) den*=(ld)x[id[k]]-(ld)x[id[i]]; ld s=0,mg=0; if(!der){ s=1; for(int i=0;i<m;++i) if(i!=k) s*=(ld)at-(ld)x[id[i]]; mg=std::fabs((double)s); } else for(int j=0;j<m;++j){ if(j==k) continue; ld t=1; for(int i=0;i<m;++i) if(i!=k&&i!=j) t*=(ld)at-(ld)x[id[i]]; s+=t; mg+=t<0?-t:t; } r.c.push_back(s/den); r.mag.push_back(mg/(den<0?-den:den)); } return r; }
void check(pbt::Case& c, const vector<double>& x, double at, int order, bool der, const vector<double>& co, const vector<int>& id, const string& h){
  int n=(int)x.size(); const char* w= der?"derivative":"interpolation";
  PBT_REQUIRE(c,co.size()==id.size()&&(int)co.size()==order+1,"P03:size",w<<" of order "<<order<<" returned "<<co.size()<<" coefficients and "<<id.size()<<" indices; "<<h);
  for(size_t i=0;i<id.size();++i) PBT_REQUIRE(c,id[i]>=0&&id[i]<n&&(i==0||id[i]==id[i-1]+1),"P03:index",w<<" index "<<id[i]<<" at position "<<i<<" of "<<n<<" points; "<<h);
  // near: balanced about the interval that holds the point, unless an end of the data is reached
  int lo=id[0], hi=id.back(), below=0, above=0; for(int i=lo;i<=hi;++i){ if(x[i]<at) ++below; if(x[i]>at) ++above; }
  int on=order+1-below-above; if(hi<n-1) PBT_REQUIRE(c,below<=above+on+1,"P03:near",w<<" uses points "<<lo<<".."<<hi<<", "<<below<<" below and "<<above<<" above; "<<h); if(lo>0) PBT_REQUIRE(c,above<=below+on+1,"P03:near",w<<" uses points "<<lo<<".."<<hi<<", "<<below<<" below and "<<above<<" above; "<<h);
  if((order+1)%2){ int best=0; ld bd=1e300L, second=1e300L; for(int i=0;i<n;++i){ ld d=(ld)x[i]-at; if(d<0) d=-d; if(d<bd){ second=bd; bd=d; best=i; } else if(d<second) second=d; } if(n==1||second-bd>1e-12L*(second+bd)){ int hf=order/2, mid=std::min(std::max(best,hf),n-1-hf); PBT_REQUIRE(c,lo+hf==mid,"P03:near",w<<" uses points "<<lo<<".."<<hi<<" although the nearest point is "<<best<<"; "<<h); } }
  Ref r=reference(x,id,at,der); ld sum=0, mag=0; for(size_t k=0;k<co.size();++k){ sum+=co[k]; mag+=r.mag[k]; PBT_REQUIRE(c,std::fabs((double)(co[k]-r.c[k]))<=8*(order+2)*EPS*(double)r.mag[k]+1e-300,"P03:coef",w<<" coefficient of point "<<id[k]<<" is "<<num(co[k])<<", should be "<<num((double)r.c[k])<<"; "<<h); }
  PBT_REQUIRE(c,std::fabs((double)(sum-(der?0:1)))<=16*(order+2)*EPS*(double)mag,"P03:sum",w<<" coefficients sum to "<<num((double)sum)<<"; "<<h);
}
}
PBT_TARGET("exact",1){
  int order= c.weighted({4,1}) ? (int)c.range(0,9): (int)c.range(0,4); int n=order+1+(int)c.draw(c.boolean()?3:12); vector<double> x=points(c,n); std::ostringstream hs; hs<<"points"; for(double v:x) hs<<" "<<num(v);
  // a polynomial in (t-x0)/span, of degree up to the order
  int deg=(int)c.range(0,order); vector<double> a(deg+1); for(double& v:a) v= c.boolean()? (double)c.range(-5,5): c.unit()*4-2; double x0= x[0], span= n>1? x[n-1]-x[0]: 1; 
  auto p=[&](double t)->ld{ ld s=((ld)t-x0)/span, v=0; for(int k=deg;k>=0;--k) v=v*s+a[k]; return v; }; auto dp=[&](double t)->ld{ ld s=((ld)t-x0)/span, v=0; for(int k=deg;k>=1;--k) v=v*s+(ld)k*a[k]; return v/span; };
  vector<double> y(n); double ym=0; for(int i=0;i<n;++i){ y[i]=(double)p(x[i]); ym=std::max(ym,std::fabs(y[i])); } double am=0; for(double v:a) am+=std::fabs(v);
  bool dflt=c.boolean(); int ord0= dflt? order: (int)c.range(0,3); LagrangeInterpolant li(x,y,ord0); LagrangeDerivative ldv(x,y,ord0); std::unique_ptr<LagrangeCoefficients> lc(c.boolean()? new LagrangeCoefficients(x): new LagrangeCoefficients(&x[0],&x[0]+n)); PBT_REQUIRE(c,lc->get_x()==x,"P03:points","get_x differs from the given points"); vector<double> co; vector<int> id;
  c.nontrivial(order>=2&&n>order+1); int reps=1+(int)c.draw(3);
  for(int r=0;r<reps;++r){ string what; double at=where(c,x,what); int o= (dflt||c.boolean())? order: ord0; if(o+1>n) o=order; bool useDefault= o==ord0&&c.boolean(); std::ostringstream hh; hh<<"order "<<o<<" at "<<num(at)<<" ("<<what<<"), "<<hs.str(); string h=hh.str(); if(r==0){ c.note(h); c.label(what); }
    lc->get_interp_coefs_indices(at,o,co,id); check(c,x,at,o,false,co,id,h); vector<double> ci=co; vector<int> ii=id; lc->get_derivative_coefs_indices(at,o,co,id); check(c,x,at,o,true,co,id,h); vector<double> cd=co; vector<int> di=id;
    li.get_coefs_indices(at,o,co,id); PBT_REQUIRE(c,co==ci&&id==ii,"P03:same","the interpolant's coefficients differ from those of LagrangeCoefficients; "<<h); ldv.get_coefs_indices(at,o,co,id); PBT_REQUIRE(c,co==cd&&id==di,"P03:same","the derivative's coefficients differ from those of LagrangeCoefficients; "<<h);
    double vi= useDefault? li.value(at): li.value(at,o), vd= useDefault? ldv.value(at): ldv.value(at,o); ld wi=0,wd=0,mi=0,md=0; for(size_t k=0;k<ci.size();++k){ wi+=(ld)ci[k]*y[ii[k]]; wd+=(ld)cd[k]*y[di[k]]; mi+=std::fabs(ci[k]*y[ii[k]]); } Ref rd=reference(x,di,at,true); ld cm=0; Ref ri=reference(x,ii,at,false); ld cmi=0; for(auto v:ri.mag) cmi+=v; for(size_t k=0;k<cd.size();++k){ md+=rd.mag[k]*std::fabs(y[di[k]]); cm+=rd.mag[k]; }
    PBT_REQUIRE(c,std::fabs((double)(vi-wi))<=8*(o+2)*EPS*(double)mi+1e-300,"P03:value","interpolated value "<<num(vi)<<" is not the weighted sum "<<num((double)wi)<<"; "<<h); PBT_REQUIRE(c,std::fabs((double)(vd-wd))<=8*(o+2)*EPS*(double)md+1e-300,"P03:value","derivative value "<<num(vd)<<" is not the weighted sum "<<num((double)wd)<<"; "<<h);
    if(deg<=o){ PBT_REQUIRE(c,std::fabs((double)(vi-p(at)))<=40*(o+2)*EPS*(double)cmi*(ym+am),"P03:poly","a polynomial of degree "<<deg<<" interpolates to "<<num(vi)<<", its value is "<<num((double)p(at))<<"; "<<h); PBT_REQUIRE(c,std::fabs((double)(vd-dp(at)))<=40*(o+2)*EPS*(double)cm*(ym+am),"P03:poly","a polynomial of degree "<<deg<<" has derivative "<<num(vd)<<", should be "<<num((double)dp(at))<<"; "<<h); }
    if(what=="a node"&&deg<=o){ for(int i=0;i<n;++i) if(x[i]==at) PBT_REQUIRE(c,vi==y[i],"P03:node","value at node "<<i<<" is "<<num(vi)<<", the datum is "<<num(y[i])<<"; "<<h); }
  }
}
PBT_MAIN
