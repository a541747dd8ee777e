// F01: window index conversions.  Oracle: the row-major formula and its inverse, computed here in 64 bits.
#include "pbt.h"
#include <spatialops/structured/MemoryWindow.h>
using namespace SpatialOps::structured;
struct W { long g[3],o[3],e[3]; };
static W gen(pbt::Case& c,bool big){
  W w; for(int d=0;d<3;++d){
    long lim = big? (d==0?1500:900) : 9;
    w.g[d]= c.chance(1,4)?1:c.range(1,lim);
    w.e[d]=c.range(1,w.g[d]); w.o[d]=c.range(0,w.g[d]-w.e[d]); if(c.chance(1,3)){ w.e[d]=w.g[d]; w.o[d]=0; } }
  return w; }
static MemoryWindow mk(const W& w,int how){
  int g[3],o[3],e[3]; bool full=true; for(int d=0;d<3;++d){ g[d]=w.g[d]; o[d]=w.o[d]; e[d]=w.e[d]; full=full&&w.g[d]==w.e[d]; }
  if(full && how==1) return MemoryWindow(g);
  if(full && how==2) return MemoryWindow(IntVec(g[0],g[1],g[2]));
  if(how==3) return MemoryWindow(g,o,e);
  if(how==4){ MemoryWindow a(IntVec(1,1,1)); a=MemoryWindow(g,o,e); return a; }
  return MemoryWindow(IntVec(g[0],g[1],g[2]),IntVec(o[0],o[1],o[2]),IntVec(e[0],e[1],e[2])); }
static std::string str(const W& w){ std::ostringstream s; s<<"glob "<<w.g[0]<<"x"<<w.g[1]<<"x"<<w.g[2]<<" offset "<<w.o[0]<<","<<w.o[1]<<","<<w.o[2]<<" extent "<<w.e[0]<<"x"<<w.e[1]<<"x"<<w.e[2]; return s.str(); }
static void sizes(pbt::Case& c,const MemoryWindow& m,const W& w){
  bool ok = m.glob_npts()==(size_t)(w.g[0]*w.g[1]*w.g[2]) && m.local_npts()==(size_t)(w.e[0]*w.e[1]*w.e[2]);
  for(int d=0;d<3;++d) ok = ok && (long)m.glob_dim(d)==w.g[d] && (long)m.offset(d)==w.o[d] && (long)m.extent(d)==w.e[d] && m.glob_dim()[d]==w.g[d] && m.offset()[d]==w.o[d] && m.extent()[d]==w.e[d];
  PBT_REQUIRE(c,ok,"F01:size","window "<<str(w)<<" reports npts "<<m.glob_npts()<<"/"<<m.local_npts()<<" "<<m.print());
  PBT_REQUIRE(c,m.sanity_check(),"F01:sanity","valid window reported insane: "<<str(w)); }
static void point(pbt::Case& c,const MemoryWindow& m,const W& w,const long* l){
  long g[3]; for(int d=0;d<3;++d) g[d]=l[d]+w.o[d];
  long want=g[0]+w.g[0]*(g[1]+w.g[1]*g[2]);
  int f=m.flat_index(IntVec(l[0],l[1],l[2]));
  PBT_REQUIRE(c,f==want,"F01:flat",str(w)<<": flat_index("<<l[0]<<","<<l[1]<<","<<l[2]<<")="<<f<<", expected "<<want);
  IntVec b=m.ijk_index_from_global(f);
  PBT_REQUIRE(c,b[0]==g[0]&&b[1]==g[1]&&b[2]==g[2],"F01:global",str(w)<<": ijk_index_from_global("<<f<<") = "<<b<<", expected ("<<g[0]<<","<<g[1]<<","<<g[2]<<")");
  long loc=l[0]+w.e[0]*(l[1]+w.e[1]*l[2]); IntVec q=m.ijk_index_from_local((int)loc);
  PBT_REQUIRE(c,q[0]==l[0]&&q[1]==l[1]&&q[2]==l[2],"F01:local",str(w)<<": ijk_index_from_local("<<loc<<") = "<<q<<", expected ("<<l[0]<<","<<l[1]<<","<<l[2]<<")"); }
PBT_TARGET("every-point",3){
  W w=gen(c,false); MemoryWindow m=mk(w,(int)c.draw(5)); sizes(c,m,w);
  c.nontrivial((w.o[0]||w.o[1]||w.o[2]) && w.e[0]*w.e[1]*w.e[2]>1); c.note(str(w));
  for(int d=0;d<3;++d) c.label_if(w.g[d]==1,"one cell wide");
  c.label_if(w.o[0]||w.o[1]||w.o[2],"offset window");
  std::vector<char> seen(w.g[0]*w.g[1]*w.g[2],0);
  for(long k=0;k<w.e[2];++k) for(long j=0;j<w.e[1];++j) for(long i=0;i<w.e[0];++i){ long l[3]={i,j,k}; point(c,m,w,l);
    int f=m.flat_index(IntVec(i,j,k)); PBT_REQUIRE(c,f>=0&&f<(long)seen.size()&&!seen[f],"F01:distinct",str(w)<<": flat position "<<f<<" repeated or out of the allocation"); seen[f]=1; }
  // the whole allocation converts back too
  for(long f=0;f<(long)seen.size();++f){ IntVec b=m.ijk_index_from_global((int)f); bool in=true; for(int d=0;d<3;++d) in=in&&b[d]>=0&&b[d]<w.g[d];
    PBT_REQUIRE(c,in && b[0]+w.g[0]*(b[1]+w.g[1]*(long)b[2])==f,"F01:global",str(w)<<": ijk_index_from_global("<<f<<") = "<<b); }
}
PBT_TARGET("large-windows",2){
  W w=gen(c,true); while(w.g[0]*w.g[1]*w.g[2]>=2000000000L) { int d=w.g[0]>=w.g[1]?(w.g[0]>=w.g[2]?0:2):(w.g[1]>=w.g[2]?1:2); w.g[d]=(w.g[d]+1)/2; w.e[d]=std::min(w.e[d],w.g[d]); w.o[d]=std::min(w.o[d],w.g[d]-w.e[d]); }
  MemoryWindow m=mk(w,(int)c.draw(5)); sizes(c,m,w); c.nontrivial(w.g[0]*w.g[1]*w.g[2]>1000000); c.note(str(w));
  for(int q=0;q<12;++q){ long l[3]; for(int d=0;d<3;++d) l[d]= c.chance(1,4)?w.e[d]-1:c.range(0,w.e[d]-1); point(c,m,w,l); }
}
PBT_TARGET("equality",1){
  W a=gen(c,false), b=a; MemoryWindow x=mk(a,(int)c.draw(5));
  int ch=(int)c.draw(4); int d=(int)c.draw(3); bool diff=false;
  if(ch==1 && a.o[d]+a.e[d]<a.g[d]){ b.o[d]++; diff=true; } else if(ch==2 && a.e[d]>1){ b.e[d]--; diff=true; } else if(ch==3){ b.g[d]++; diff=true; }
  MemoryWindow y=mk(b,(int)c.draw(5)); c.nontrivial(diff); c.note(str(a)).note(" vs ").note(str(b));
  PBT_REQUIRE(c,(x==y)==!diff && (x!=y)==diff && (y==x)==!diff,"F01:equality",str(a)<<" vs "<<str(b)<<": == "<<(x==y)<<", != "<<(x!=y));
  MemoryWindow z(y); z=x; PBT_REQUIRE(c,z==x && !(z!=x),"F01:copy","copy of "<<str(a)<<" differs");
}
PBT_MAIN
