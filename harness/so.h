// Shared test-side model of SpatialOps fields.  Interior coordinates: the
// interior cells of direction d are 0..n[d]-1, a boundary-extra face cell (if
// any) is n[d], ghosts lie below 0 and above.  A direction with n==1 has one
// cell, no ghosts and no extra cell.
#pragma once
#include "pbt.h"
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/MemoryWindow.h>
#include <spatialops/structured/SpatialField.h>
#include <array>
#include <functional>
#include <limits>
#include <memory>

namespace so {
namespace S = SpatialOps;
namespace SS = SpatialOps::structured;
using SS::IntVec; using SS::MemoryWindow; using SS::GhostData; using SS::BoundaryCellInfo;
using std::string; using std::vector;

/// direction in which a field type is staggered (own table, from the field-type documentation), -1 if none
template<class F> struct Stag;
#define SO_STAG(T,d,nm) template<> struct Stag<S::structured::T>{ enum{ dir=d }; static const char* name(){ return nm; } }
SO_STAG(SVolField,-1,"SVol"); SO_STAG(SSurfXField,0,"SSurfX"); SO_STAG(SSurfYField,1,"SSurfY"); SO_STAG(SSurfZField,2,"SSurfZ");
SO_STAG(XVolField,0,"XVol"); SO_STAG(XSurfXField,-1,"XSurfX"); SO_STAG(XSurfYField,1,"XSurfY"); SO_STAG(XSurfZField,2,"XSurfZ");
SO_STAG(YVolField,1,"YVol"); SO_STAG(YSurfXField,0,"YSurfX"); SO_STAG(YSurfYField,-1,"YSurfY"); SO_STAG(YSurfZField,2,"YSurfZ");
template<> struct Stag<SS::SpatialField<SS::SVol,float> >{ enum{ dir=-1 }; static const char* name(){ return "SVol(float)"; } };
template<> struct Stag<SS::SpatialField<SS::XVol,float> >{ enum{ dir=0 }; static const char* name(){ return "XVol(float)"; } };
template<> struct Stag<SS::SpatialField<SS::YSurfZ,float> >{ enum{ dir=2 }; static const char* name(){ return "YSurfZ(float)"; } };
SO_STAG(ZVolField,2,"ZVol"); SO_STAG(ZSurfXField,0,"ZSurfX"); SO_STAG(ZSurfYField,1,"ZSurfY"); SO_STAG(ZSurfZField,-1,"ZSurfZ");

struct Geo {
  int n[3]; int gm[3], gp[3]; bool bc[3]; int sdir;
  int pl[3], ph[3];   // cells of the allocation before/after the field's window
  Geo(){ for(int d=0;d<3;++d){ n[d]=1; gm[d]=gp[d]=0; bc[d]=false; pl[d]=ph[d]=0; } sdir=-1; }
  bool thin(int d) const { return n[d]==1; }
  int m(int d) const { return thin(d)?0:gm[d]; }
  int p(int d) const { return thin(d)?0:gp[d]; }
  int e(int d) const { return (!thin(d) && bc[d] && sdir==d)?1:0; }
  int glob(int d) const { return thin(d)?1:n[d]+e(d)+m(d)+p(d); }
  int lo(int d) const { return -m(d); }
  int hi(int d) const { return n[d]+e(d)+p(d); }   // one past
  int alloc(int d) const { return glob(d)+pl[d]+ph[d]; }
  bool padded() const { return pl[0]+ph[0]+pl[1]+ph[1]+pl[2]+ph[2]>0; }
  long npts() const { return (long)alloc(0)*alloc(1)*alloc(2); }
  long flat(int i,int j,int k) const { return (i+m(0)+pl[0]) + (long)alloc(0)*((j+m(1)+pl[1]) + (long)alloc(1)*(k+m(2)+pl[2])); }
  void ijk(long f,int* o) const { o[0]=(int)(f%alloc(0))-m(0)-pl[0]; o[1]=(int)((f/alloc(0))%alloc(1))-m(1)-pl[1]; o[2]=(int)(f/((long)alloc(0)*alloc(1)))-m(2)-pl[2]; }
  MemoryWindow window() const { if(!padded()) return MemoryWindow(IntVec(glob(0),glob(1),glob(2)));
    return MemoryWindow(IntVec(alloc(0),alloc(1),alloc(2)),IntVec(pl[0],pl[1],pl[2]),IntVec(glob(0),glob(1),glob(2))); }
  GhostData ghost() const { return GhostData(gm[0],gp[0],gm[1],gp[1],gm[2],gp[2]); }
  template<class F> static Geo of(const Geo& g){ Geo r=g; r.sdir=Stag<F>::dir; return r; }
  template<class F> BoundaryCellInfo bcinfo() const { return BoundaryCellInfo::build<F>(bc[0],bc[1],bc[2]); }
  string str() const { std::ostringstream o; if(padded()) o<<"windowed(-"<<pl[0]<<pl[1]<<pl[2]<<"+"<<ph[0]<<ph[1]<<ph[2]<<") "; o<<n[0]<<"x"<<n[1]<<"x"<<n[2]<<" ghosts("<<gm[0]<<","<<gp[0]<<" "<<gm[1]<<","<<gp[1]<<" "<<gm[2]<<","<<gp[2]<<") bc("<<bc[0]<<bc[1]<<bc[2]<<")"; return o.str(); }
};

struct Ibox { int lo[3], hi[3];
  bool has(int i,int j,int k) const { return i>=lo[0]&&i<hi[0]&&j>=lo[1]&&j<hi[1]&&k>=lo[2]&&k<hi[2]; }
  bool empty() const { return lo[0]>=hi[0]||lo[1]>=hi[1]||lo[2]>=hi[2]; }
  long count() const { return empty()?0:(long)(hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]); }
  void meet(const Ibox& o){ for(int d=0;d<3;++d){ lo[d]=std::max(lo[d],o.lo[d]); hi[d]=std::min(hi[d],o.hi[d]); } }
  string str() const { std::ostringstream s; s<<"["<<lo[0]<<","<<hi[0]<<")x["<<lo[1]<<","<<hi[1]<<")x["<<lo[2]<<","<<hi[2]<<")"; return s.str(); }
};

struct GeoOpts { int maxn=7; int maxg=3; bool bc=true; int thin_pct=22; int minn=2; bool equal_ghosts_sometimes=true; bool stretch=true; };
/// interior sizes, boundary flags
inline Geo gen_dims(pbt::Case& c,const GeoOpts& o=GeoOpts()){
  Geo g; for(int d=0;d<3;++d){ bool thin=c.chance(o.thin_pct,100); g.n[d]=(int)c.range(o.minn,o.maxn); if(thin) g.n[d]=1; g.bc[d]= o.bc && c.boolean(); }
  if(o.stretch&&c.chance(1,60)){ int l=(int)c.draw(3); for(int d=0;d<3;++d) if(d!=l) g.n[d]=std::min(g.n[d],3); g.n[l]=(int)c.range(8,140); }       // long in one direction
  else if(o.stretch&&c.chance(1,150)){ int l=(int)c.draw(3); for(int d=0;d<3;++d) g.n[d]= d==l? std::min(g.n[d],2): (int)c.range(9,36); }   // wide in two
  return g; }
inline void gen_ghosts(pbt::Case& c,Geo& g,const GeoOpts& o=GeoOpts()){
  if(c.chance(1,3)){ int k=(int)c.range(0,o.maxg); for(int d=0;d<3;++d) g.gm[d]=g.gp[d]=k; }
  else for(int d=0;d<3;++d){ g.gm[d]=(int)c.range(0,o.maxg); g.gp[d]=(int)c.range(0,o.maxg); }
  if(o.stretch&&c.chance(1,80)){ int d=(int)c.draw(3); if(g.n[d]<9) (c.boolean()? g.gm: g.gp)[d]=(int)c.range(o.maxg,9); }
}
/// sometimes make the field a window into a larger allocation
inline void gen_pads(pbt::Case& c,Geo& g,int pct){ if(!c.chance(pct,100)) return; for(int d=0;d<3;++d) if(!g.thin(d)){ g.pl[d]=(int)c.draw(3); g.ph[d]=(int)c.draw(3); } }
inline Geo gen_geo(pbt::Case& c,const GeoOpts& o=GeoOpts()){ Geo g=gen_dims(c,o); gen_ghosts(c,g,o); return g; }
/// valid ghost counts not above the total ones
inline void gen_valid(pbt::Case& c,const Geo& g,int* vm,int* vp,int pct=50){
  bool red=c.chance(pct,100);
  for(int d=0;d<3;++d){ vm[d]=g.gm[d]; vp[d]=g.gp[d]; if(red){ vm[d]-=(int)c.draw(g.gm[d]+1); vp[d]-=(int)c.draw(g.gp[d]+1); } } }

// ---- data: value of a cell is a function of (seed, style, index)
enum Style { TIES, SMALLINT, DYADIC, FULL, POSFULL, UNIT };
inline double u01(uint64_t h){ return (double)(h>>11)*(1.0/9007199254740992.0); }
inline double cellval(uint64_t seed,int style,long idx){
  uint64_t h=pbt::hcomb(seed,(uint64_t)idx);
  switch(style){
    case TIES: return (double)((long)(h%3)-1);
    case SMALLINT: return (double)((long)(h%41)-20);
    case DYADIC: return ((long)(h%8193)-4096)/64.0;
    case FULL: { double u=2*u01(h)-1; int e=(int)((h>>3)&7)-3; return std::ldexp(u==0?0.5:u,e); }
    case POSFULL: return 0.125+3.0*u01(h);
    default: return 0.05+0.9*u01(h);
  } }
inline int gen_style(pbt::Case& c){ return c.weighted({3,2,2,4}); }

inline double guardval(long i){ return -1.0e30 - (double)i; }
inline bool same(double a,double b){ return std::memcmp(&a,&b,sizeof a)==0 || (a==0&&b==0) || (a!=a&&b!=b); }
inline bool bits(double a,double b){ return std::memcmp(&a,&b,sizeof a)==0; }

/// A field over test-owned memory with guard cells on both sides
template<class F> struct Box {
  enum { G=64 }; typedef typename F::value_type V;
  Geo g; int vm[3],vp[3]; vector<V> mem, snap; std::unique_ptr<F> f;
  Box(){}
  Box(const Geo& gg){ init(gg); }
  void init(const Geo& gg){
    g=Geo::of<F>(gg); mem.assign(g.npts()+2*G,0.0);
    for(int i=0;i<G;++i){ mem[i]=guardval(i); mem[mem.size()-1-i]=guardval(1000+i); }
    f.reset(new F(g.window(), g.template bcinfo<F>(), g.ghost(), &mem[G], S::structured::ExternalStorage));
    for(int d=0;d<3;++d){ vm[d]=g.gm[d]; vp[d]=g.gp[d]; } }
  void set_valid(const int* a,const int* b){ f->reset_valid_ghosts(GhostData(a[0],b[0],a[1],b[1],a[2],b[2])); for(int d=0;d<3;++d){ vm[d]=a[d]; vp[d]=b[d]; } }
  V* data(){ return &mem[G]; }
  const V* data() const { return &mem[G]; }
  V& at(int i,int j,int k){ return mem[G+g.flat(i,j,k)]; }
  V at(int i,int j,int k) const { return mem[G+g.flat(i,j,k)]; }
  void fill(uint64_t seed,int style){ for(long i=0;i<g.npts();++i) mem[G+i]=cellval(seed,style,i); }
  void fill_value(double v){ for(long i=0;i<g.npts();++i) mem[G+i]=v; }
  Ibox total() const { Ibox b; for(int d=0;d<3;++d){ b.lo[d]=g.lo(d); b.hi[d]=g.hi(d);} return b; }
  Ibox valid() const { Ibox b; for(int d=0;d<3;++d){ b.lo[d]= g.thin(d)?0:-vm[d]; b.hi[d]= g.thin(d)?1:g.n[d]+g.e(d)+vp[d]; } return b; }
  Ibox interior() const { Ibox b; for(int d=0;d<3;++d){ b.lo[d]=0; b.hi[d]=g.n[d]+g.e(d);} return b; }
  /// overwrite cells outside the valid region with a value that would be noticed
  void poison_invalid(double v){ Ibox b=valid(); for(long q=0;q<g.npts();++q){ int o[3]; g.ijk(q,o); if(!b.has(o[0],o[1],o[2])) mem[G+q]=v; } }
  void save(){ snap=mem; }
  void check_untouched(pbt::Case& c,const string& key,const char* who){
    for(size_t i=0;i<mem.size();++i) if(!bits(mem[i],snap[i])){ fail_at(c,key,who,i); } }
  void fail_at(pbt::Case& c,const string& key,const char* who,size_t i){
    std::ostringstream o; o<<who<<" ("<<Stag<F>::name()<<" "<<g.str()<<"): ";
    long q=(long)i-G; if(q<0||q>=g.npts()) o<<"memory outside the field (position "<<q<<" of "<<g.npts()<<")"; else { int v[3]; g.ijk(q,v); o<<"cell ("<<v[0]<<","<<v[1]<<","<<v[2]<<")"; }
    o<<" changed from "<<snap[i]<<" to "<<mem[i]; c.fail(key,o.str()); }
};

inline string num(double v){ char b[64]; snprintf(b,64,"%.17g",v); return b; }
inline string ijks(int i,int j,int k){ std::ostringstream o; o<<"("<<i<<","<<j<<","<<k<<")"; return o.str(); }
inline bool close(double a,double b,double tol){ if(same(a,b)) return true; if(!(std::isfinite(a)&&std::isfinite(b))) return false; return std::fabs(a-b)<=tol; }
} // namespace so
