// C01: field comparisons.  Every cell of the compared region is placed clearly inside, clearly outside or (with exactly
// representable numbers) exactly on the stated bound; the oracle evaluates the documented bound in long double.
#include "env.h"
#include <spatialops/structured/FieldComparisons.h>
using namespace so;
namespace {
long long ord(double v){ long long i; std::memcpy(&i,&v,8); return i<0? (long long)(0x8000000000000000ull-(unsigned long long)i): i; }
double unord(long long o){ unsigned long long u= o<0? 0x8000000000000000ull-(unsigned long long)o: (unsigned long long)o; double v; std::memcpy(&v,&u,8); return v; }
double value(pbt::Case& c,uint64_t h,int style){
  switch(style){ case 0: return cellval(h,SMALLINT,1); case 1: return cellval(h,DYADIC,1); case 2: return cellval(h,FULL,1);
    case 3: { double v=std::ldexp(1.0+u01(h),(int)(pbt::hcomb(h,3)%80)-40); return h&1?v:-v; }
    default: { int k=(int)(h%7); double s[7]={0.0,-0.0,5e-324,-5e-324,2.2250738585072014e-308,-1.0,1.0}; return s[k]; } } }
template<class F> void run(pbt::Case& c){
  GeoOpts o; o.maxn=5; o.maxg=2; Geo g=gen_geo(c,o); gen_pads(c,g,25); Box<F> a,b; a.init(g); b.init(g); if(c.chance(1,3)){ int vm[3],vp[3]; gen_valid(c,a.g,vm,vp,100); a.set_valid(vm,vp); b.set_valid(vm,vp); c.label("reduced valid region"); }
  int style=(int)c.draw(5); uint64_t seed=c.seed32(); for(long i=0;i<a.g.npts();++i){ a.data()[i]=value(c,pbt::hcomb(seed,i),style); b.data()[i]=a.data()[i]; }
  Ibox v=a.valid(); vector<long> cells; for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i) cells.push_back(a.g.flat(i,j,k));
  // cells outside the compared region differ wildly
  for(long q=0;q<a.g.npts();++q){ int x[3]; a.g.ijk(q,x); if(!v.has(x[0],x[1],x[2])){ a.data()[q]=1e200; b.data()[q]=-3e100; } }
  int kind=c.weighted({3,3,3}); bool scalar=c.chance(1,4); double d=0; if(scalar){ d=value(c,c.seed32(),style==4?1:style); for(long q: cells){ a.data()[q]=d; b.data()[q]=d; } }
  // error and bound
  double err=0,eabs=0; bool given=false; unsigned ulps=0; int exact=c.chance(1,6);
  if(kind==2) ulps= exact?0:(unsigned)c.oneof({1,2,3,5,16,1000,1000000}); else { if(!exact) err=c.oneof({0.25,0.5,0.01,1e-3,1e-8,1e-12,2.0,0.0625}); given= kind==0 && c.boolean(); if(given) eabs=c.oneof({0.0,0.0,1e-12,0.5,1e-3,4.0}); }
  // deviations
  int how=c.weighted({2,4,4,2}); // none / inside everywhere / one outside / on the bound
  long double n2=0; auto norm=[&]{ n2=0; for(long q: cells) n2+=(long double)(scalar?b.data()[q]:a.data()[q])*(scalar?b.data()[q]:a.data()[q]); return std::sqrt((double)n2); };
  double ea= kind==0&&!given&&err!=0? norm()*err*1e-6: eabs;
  auto bound=[&](double x)->double{ return kind==0? err*(std::fabs(x)+ea): err; };
  long hot=cells[c.chance(1,3)? (c.boolean()?0:cells.size()-1): c.draw(cells.size())]; int nd=0;
  for(long q: cells){ bool sel= how!=0 && ((how==1 && c.boolean()) || (q==hot)); if(q!=hot && nd>40) sel=false; if(!sel){ continue; } ++nd; bool out= how==2 && q==hot; double x=a.data()[q], y=x;
    if(kind==2){ long long s=ulps; long long dlt= out? s+1+(long long)c.draw(3): how==3? s: (long long)(s? c.range(0,s):0); bool neg=c.boolean(), far=out&&c.chance(1,2); if(far){ // far away: a power of two of steps, another value, the same magnitude or the other sign
        typedef __int128 W; W top=ord(std::numeric_limits<double>::max()), p=(1LL<<c.range(18,62))+(long long)c.draw(5)-2, t= c.chance(3,4)? (W)ord(x)+(neg?-p:p): c.boolean()? (W)ord(-x): (W)ord(value(c,c.seed32(),3)), df=t-(W)ord(x); far= t<=top&&t>=-top&&(df<0?-df:df)>(W)s+1; if(far){ y=unord((long long)t); c.label("far apart"); } }
      if(!far) y=unord(ord(x)+(neg?-dlt:dlt)); }
    else { double bd=bound(x); double f= out? (double)c.oneof({1.001,1.01,2.0,1000.0}): how==3? 1.0: 0.999*c.unit(); double dl=f*bd; if(out&&dl==0) dl=c.oneof({5e-324,1e-3,1.0}); if(c.boolean()) dl=-dl; y=x+dl; if(out&&c.chance(1,5)&&std::fabs(2*x)>1.001*bd) { y=-x; c.label("other sign"); } }
    if(c.chance(1,30) && out && kind!=2 && !exact && !(scalar&&kind==0&&!given)) y= std::numeric_limits<double>::infinity();
    b.data()[q]=y; }
  // special values at one cell: a NaN never satisfies a bound, identical infinities always do
  bool isnan_=false; if(kind!=2 && c.chance(1,10)){ const double qn=std::numeric_limits<double>::quiet_NaN(), inf=std::numeric_limits<double>::infinity(); long q=cells[c.draw(cells.size())]; int w=(int)c.draw(4);
    if(w==3 && !scalar && !(kind==0&&!given&&err!=0)){ double v=c.boolean()?inf:-inf; a.data()[q]=b.data()[q]=v; c.label("identical infinities"); }
    else { if(scalar && w==0){ d=qn; } else if(scalar) b.data()[q]=qn; else { if(w!=1) a.data()[q]=qn; if(w!=0) b.data()[q]=qn; } isnan_=true; hot=q; c.label("NaN"); } }
  // oracle
  bool want=true, unclear=false, anydiff=false; if(kind==0&&!given&&err!=0) ea=norm()*err*1e-6; long bad=0;
  for(long q: cells){ double x= scalar? d: a.data()[q], y=b.data()[q]; if(x!=y) anydiff=true; bool ok;
    if(x==y && kind!=2) continue; if(isnan_ && (std::isnan(x)||std::isnan(y))){ anydiff=true; want=false; ++bad; continue; }
    if(kind==2){ long double dist=std::fabs((long double)ord(x)-(long double)ord(y)); ok= dist<=(long double)ulps; if(!std::isfinite(y)||!std::isfinite(x)) unclear=true; }
    else if(err==0) ok= x==y;
    else if(std::isinf(y)) ok=false;
    else { long double den= kind==0? std::fabs((long double)x)+(long double)ea: 1.0L, diff=std::fabs((long double)x-(long double)y), lim=(long double)err*den; ok= diff<=lim;
      if(std::fabs((double)(diff-lim))<1e-9*(double)lim || lim<1e-290L){ // too close to call unless every number involved is short
        bool shortn= x==std::ldexp(std::round(std::ldexp(x,10)),-10) && y==std::ldexp(std::round(std::ldexp(y,10)),-10) && (err==0.25||err==0.5||err==2.0||err==0.0625) && (kind==1||(given&&(eabs==0||eabs==0.5||eabs==4.0))) && std::fabs(x)<4096;
        if(kind==0&&shortn){ double dn=std::fabs(x)+eabs; int e; if(dn!=0 && std::frexp(dn,&e)!=0.5) shortn= diff!=lim; /* quotient exact only for powers of two */ if(diff==0) shortn=true; }
        if(!shortn && diff!=0) unclear=true; if(kind==0&&den==0&&diff!=0) { unclear=false; } } }
    if(!ok){ want=false; ++bad; } }
  if(unclear && !isnan_){ c.label("too close to the bound"); c.discard(); }
  if(kind==0&&!given&&err!=0&&!isnan_&&norm()==0) c.discard();  // documented as undefined
  a.save(); b.save(); const F &A=*a.f,&B=*b.f; bool g1,g2;
  double serr= given&&c.boolean()? -err: err; const char* nm= kind==0?"relative":kind==1?"absolute":"representable-distance";
  if(scalar){ if(kind==0){ g1= given? SS::field_equal(d,B,serr,eabs): err==0&&c.boolean()? SS::field_equal(d,B): SS::field_equal(d,B,err); g2= given? SS::field_not_equal(d,B,serr,eabs): err==0? SS::field_not_equal(d,B): SS::field_not_equal(d,B,err); }
    else if(kind==1){ g1=SS::field_equal_abs(d,B,err); g2=SS::field_not_equal_abs(d,B,err); } else { g1=SS::field_equal_ulp(d,B,ulps); g2=SS::field_not_equal_ulp(d,B,ulps); } }
  else { if(kind==0){ g1= given? SS::field_equal(A,B,serr,eabs): err==0&&c.boolean()? SS::field_equal(A,B): SS::field_equal(A,B,err); g2= given? SS::field_not_equal(A,B,serr,eabs): err==0? SS::field_not_equal(A,B): SS::field_not_equal(A,B,err); }
    else if(kind==1){ g1=SS::field_equal_abs(A,B,err); g2=SS::field_not_equal_abs(A,B,err); } else { g1=SS::field_equal_ulp(A,B,ulps); g2=SS::field_not_equal_ulp(A,B,ulps); } }
  std::ostringstream h; h<<nm<<(scalar?" field with scalar ":" ")<<(kind==2?(double)ulps:serr)<<(given?" abs ":"")<<(given?num(eabs):"")<<", "<<cells.size()<<" cells, "<<bad<<" beyond the bound, cell "<<hot<<": "<<num(scalar?d:a.data()[hot])<<" vs "<<num(b.data()[hot])<<" "<<a.g.str()<<" valid "<<v.str();
  c.note(h.str()); c.nontrivial(anydiff && bad<=1); c.label_if(bad==1,"one cell decides"); c.label_if(how==3&&!unclear&&nd>0,"on the bound"); c.label_if(anydiff&&want,"different values, within the bound"); c.label(nm);
  PBT_REQUIRE(c,g1==want,"C01:result","reported "<<(g1?"equal":"different")<<": "<<h.str());
  PBT_REQUIRE(c,g2==!want,"C01:negated","negated form reported "<<g2<<" where the comparison holds="<<want<<": "<<h.str());
  if(!scalar&&(kind!=0||err==0)){ bool s= kind==0? SS::field_equal(B,A): kind==1? SS::field_equal_abs(B,A,err): SS::field_equal_ulp(B,A,ulps); PBT_REQUIRE(c,s==want,"C01:symmetry","swapped operands give "<<s<<": "<<h.str()); }
  a.check_untouched(c,"C01:modified","first operand"); b.check_untouched(c,"C01:modified","second operand"); }
template<class F> void unequal(pbt::Case& c){
  GeoOpts o; o.maxn=5; o.maxg=2; Geo g=gen_geo(c,o), h=g; int d=(int)c.draw(3); h.n[d]= g.n[d]==1? 2+(int)c.draw(3): g.n[d]+1+(int)c.draw(3); if(c.boolean()) std::swap(g,h); Box<F> a(g),b(h); a.fill_value(1); b.fill_value(1); int kind=(int)c.draw(3); bool neg=c.boolean(); const F&A=*a.f,&B=*b.f; c.nontrivial(); c.note(g.str()+" vs "+h.str());
  bool threw=false; try{ if(kind==0) neg? SS::field_not_equal(A,B,0.1): SS::field_equal(A,B,0.1); else if(kind==1) neg? SS::field_not_equal_abs(A,B,0.1): SS::field_equal_abs(A,B,0.1); else neg? SS::field_not_equal_ulp(A,B,3): SS::field_equal_ulp(A,B,3); }catch(std::runtime_error&){ threw=true; }
  PBT_REQUIRE(c,threw,"C01:sizes","fields of unequal size compared without an error: "<<g.str()<<" vs "<<h.str()); }
}
PBT_TARGET("compare",8){ switch(c.draw(3)){ case 0: run<SS::SVolField>(c); break; case 1: run<SS::XVolField>(c); break; default: run<SS::YSurfZField>(c); } }
PBT_TARGET("unequal",1){ unequal<SS::SVolField>(c); }
PBT_MAIN
