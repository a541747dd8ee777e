// E01: generated expressions against cell-by-cell evaluation
#include "env.h"
using namespace so;
namespace {
#define SO_STR2(x) #x
#define SO_STR(x) SO_STR2(x)
#include TUFILE
#ifdef COND
#define ID "E04"
#else
#define ID "E01"
#endif
void values(pbt::Case& c){
  const Entry<FT>& en=ENTRIES[c.draw(NENTRIES)];
  GeoOpts o; o.maxn=6; Geo g=gen_geo(c,o); int st=gen_style(c);
#ifdef COND
  if(c.boolean()) st=TIES;
#endif
  Env<FT> e; e.init(c,g,false,en.uses,st);
  e.t.save();
  Ibox exp=e.t.total(); exp.meet(e.operands(en.uses));
  c.note(string(en.text)+"   over "+Stag<FT>::name()+" "+e.t.g.str());
  if(en.size>=3 && exp.count()>1) c.nontrivial();
  for(const char* t: {"table","single","scalar","mask","cond1","cond2","t","pow","min","max","neg"}) if(has_tag(en.tags,t)) c.label(t);
  en.assign(*e.t.f,e);
  compare(c,ID,e,en,exp,"",false,true);
}
PBT_TARGET("expr" SO_STR(TU),4){ values(c); }
}
#if TU==0 && defined(COND)
PBT_MAIN
#elif TU==0
// assignment to single-value fields
#include <spatialops/FieldFunctions.h>
PBT_TARGET("single",1){
  using namespace SpatialOps; typedef Env<FT>::SVF SVF; typedef Env<FT>::V V;
  GeoOpts o; Env<FT> e; Geo g; e.init(c,g,false,0,FULL); SVF &v1=*e.v1,&v2=*e.v2; const double s1=e.s1,s2=e.s2, a=e.v1v,b=e.v2v;
  SVF w(MemoryWindow(IntVec(1,1,1)),BoundaryCellInfo::build<SVF>(false,false,false),GhostData(0),NULL,SS::InternalStorage); w[0]=-77; double want=0; const double eps= sizeof(V)<8? 5e-6: 1e-11;
  int k=(int)c.draw(24); bool self=c.boolean(); SVF& t= self? v1: w; double M=1e3;
  switch(k){
    case 0: t<<=s1; want=s1; break; case 1: t<<=v2; want=b; break; case 2: t<<=v1+v2; want=a+b; break; case 3: t<<=s1-v2; want=s1-b; break;
    case 4: t<<=v1*s2; want=a*s2; break; case 5: t<<=(v1*v2)/(v1+s1); want=(a*b)/(a+s1); break; case 6: t<<=pow(v1,v2); want=std::pow(a,b); break;
    case 7: t<<=pow(v1+s1,2.0); want=(a+s1)*(a+s1); break; case 8: t<<=min(v1,v2); want=rmin(a,b); break; case 9: t<<=max(s2,v2+0.0); want=rmax(s2,b); break;
    case 10: t<<=-v2; want=-b; break; case 11: t<<=sin(v1)+cos(v2); want=std::sin(a)+std::cos(b); break; case 12: t<<=exp(v2); want=std::exp(b); break;
    case 13: t<<=sqrt(v1)*log(v1); want=std::sqrt(a)*std::log(a); break; case 14: t<<=abs(v2)-tanh(v1); want=std::fabs(b)-std::tanh(a); break;
    case 15: t<<=v2/v1; want=b/a; break; case 16: t<<=s1/(v1+v1); want=s1/(a+a); break; case 17: t<<=max(v1,min(v2,s1)); want=rmax(a,rmin(b,s1)); break;
    case 18: t<<=log10(v1)*erf(v2); want=std::log10(a)*std::erf(b); break; case 19: t<<=(v1-v2)*(v1-v2); want=(a-b)*(a-b); break; case 20: t<<=pow(s1,v2); want=std::pow(s1,b); break;
    case 21: t<<=v1; want=a; break; case 22: t<<=(s1+v1)-(v2*s2); want=(s1+a)-(b*s2); break; default: t<<=tan(v1*0.1)+erfc(v2); want=std::tan(a*0.1)+std::erfc(b); }
  c.nontrivial(); c.note("single-value case "+std::to_string(k));
  PBT_REQUIRE(c,close(t[0],want,eps*M),"E01:single","single-value expression "<<k<<(self?" (self)":"")<<" with v1="<<a<<" v2="<<b<<" s1="<<s1<<" s2="<<s2<<": got "<<num(t[0])<<" want "<<num(want));
  PBT_REQUIRE(c,(self||v1[0]==a)&&v2[0]==b,"E01:single-operand","single-value operand modified by case "<<k);
}
PBT_MAIN
#endif
