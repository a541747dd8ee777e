// Operands of generated Nebo expressions and their model.
#pragma once
#include "so.h"
#include <spatialops/Nebo.h>
#include <spatialops/structured/SpatialMask.h>
namespace so {
/// calls a function that builds an expression and returns it; whatever the expression refers to that lived in that function is gone and overwritten
inline __attribute__((noinline)) void overwrite_stack(){ volatile unsigned char b[8192]; for(size_t i=0;i<sizeof b;++i) b[i]=0x5a; }
template<class L> __attribute__((noinline)) auto build_in(const L& l){ return l(); }
template<class L> inline auto keep(const L& l){ struct At { ~At(){ overwrite_stack(); } } at; return build_in(l); }
typedef SS::SpatialField<SS::SingleValue,double> SVF;
inline double rmin(double a,double b){ return b<a?b:a; }
inline double rmax(double a,double b){ return a<b?b:a; }
/// records the largest intermediate magnitude of a reference evaluation
template<class V> struct RT { double M; RT():M(0){} V operator()(double x){ V v=(V)x; double w=std::fabs((double)v); if(!(w<=M)) M=w; return v; } };
template<class V> struct CellT { V a,b,c,d,p,t,v1,v2,s1,s2; bool q1,q2,m1,m2; };
typedef RT<double> R; typedef CellT<double> Cell;

/// a mask and the set of points it was built from
template<class F> struct MaskBox {
  Box<F> proto; std::unique_ptr<SS::SpatialMask<F> > m; vector<char> in;   // by flat position of proto
  vector<IntVec> pts;
  void init(pbt::Case& c,const Geo& g,const int* vm,const int* vp,bool dup=false){
    proto.init(g); proto.set_valid(vm,vp); in.assign(proto.g.npts(),0); pts.clear();
    uint64_t sd=c.seed32(); int dens=(int)c.range(0,4);        // 0: none .. 4: all
    Ibox v=proto.valid();
    for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i){
      long q=proto.g.flat(i,j,k);
      if((int)(pbt::hcomb(sd,(uint64_t)q)%4)<dens){ in[q]=1; pts.push_back(IntVec(i,j,k)); } }
    if(dup&&!pts.empty()) pts.push_back(pts[0]);
    if(c.boolean()) for(size_t i=pts.size();i>1;--i) std::swap(pts[i-1],pts[pbt::hcomb(sd^77,i)%i]);
    m.reset(new SS::SpatialMask<F>(*proto.f,pts)); }
  bool get(int i,int j,int k) const { return in[proto.g.flat(i,j,k)]!=0; }
};

template<class FT> struct Env {
  typedef typename FT::value_type V; typedef SS::SpatialField<SS::SingleValue,V> SVF; typedef CellT<V> Cell;
  Geo base; Box<FT> a,b,c,d,p,t; MaskBox<FT> M1,M2; SS::SpatialMask<FT> *m1,*m2; std::unique_ptr<SVF> v1,v2; double v1v,v2v,s1,s2; bool q1,q2;
  Box<FT>* op(int i){ Box<FT>* o[6]={&a,&b,&c,&d,&p,&t}; return o[i]; }
  /// vary: operands get their own ghost counts, valid regions and windows
  void init(pbt::Case& cs,const Geo& g0,bool vary,unsigned uses,int style,bool bcvary=false){
    base=Geo::of<FT>(g0);
    for(int i=0;i<6;++i){
      Geo g=base; if(vary && (uses>>i&1 || i==5)){ if(cs.chance(2,3)) gen_ghosts(cs,g); gen_pads(cs,g,25); }
      if(bcvary && i!=5 && (uses>>i&1) && cs.chance(1,3)) for(int x=0;x<3;++x) if(!g.thin(x)) g.bc[x]=cs.boolean();
      Box<FT>* B=op(i); B->init(g); if(vary && i!=5 && (uses>>i&1)){ int vm[3],vp[3]; gen_valid(cs,B->g,vm,vp); B->set_valid(vm,vp); }
      if(vary && i==5 && (uses>>5&1) && cs.chance(1,3)){ int vm[3],vp[3]; gen_valid(cs,B->g,vm,vp); B->set_valid(vm,vp); }
      B->fill(cs.seed32(), i==4?POSFULL:style); }
    for(int i=0;i<2;++i){ MaskBox<FT>& M=i?M2:M1; if(!(uses>>(6+i)&1)) { if(!M.m){ Geo g; int z[3]={0,0,0}; M.init(cs,g,z,z); } continue; }
      Geo g=base; int vm[3],vp[3]; if(vary && cs.boolean()) gen_ghosts(cs,g); for(int x=0;x<3;++x){ vm[x]=g.gm[x]; vp[x]=g.gp[x]; } if(vary) gen_valid(cs,g,vm,vp); M.init(cs,g,vm,vp); }
    m1=M1.m.get(); m2=M2.m.get();
    v1v=0.25*(1+cs.draw(12)); v2v=0.5*((int)cs.draw(9)-4);
    v1.reset(new SVF(MemoryWindow(IntVec(1,1,1)),BoundaryCellInfo::build<SVF>(false,false,false),GhostData(0),NULL,SS::InternalStorage));
    v2.reset(new SVF(MemoryWindow(IntVec(1,1,1)),BoundaryCellInfo::build<SVF>(false,false,false),GhostData(0),NULL,SS::InternalStorage));
    (*v1)[0]=v1v; (*v2)[0]=v2v;
    s1=(cs.boolean()?0.25:0.3)*(1+cs.draw(10)); s2=(cs.boolean()?0.5:0.7)*((int)cs.draw(11)-5); q1=cs.boolean(); q2=cs.boolean(); }
  Cell cell(int i,int j,int k,unsigned uses) const {
    Cell x; std::memset(&x,0,sizeof x);
    if(uses&1) x.a=a.at(i,j,k); if(uses&2) x.b=b.at(i,j,k); if(uses&4) x.c=c.at(i,j,k); if(uses&8) x.d=d.at(i,j,k);
    if(uses&16) x.p=p.at(i,j,k); if(uses&32) x.t=t.at(i,j,k); if(uses&64) x.m1=M1.get(i,j,k); if(uses&128) x.m2=M2.get(i,j,k);
    x.v1=v1v; x.v2=v2v; x.s1=s1; x.s2=s2; x.q1=q1; x.q2=q2; return x; }
  /// cells every used operand has valid
  Ibox operands(unsigned uses){ Ibox b; for(int d2=0;d2<3;++d2){ b.lo[d2]=-1000; b.hi[d2]=1000; }
    for(int i=0;i<6;++i) if(uses>>i&1) b.meet(op(i)->valid());
    if(uses&64) b.meet(M1.proto.valid()); if(uses&128) b.meet(M2.proto.valid()); return b; }
  /// the operands lack a boundary-extra cell the target requires
  bool lacks_extra(unsigned uses){
    for(int x=0;x<3;++x) if(t.g.bc[x] && t.g.sdir==x){
      for(int i=0;i<6;++i) if(uses>>i&1){ Box<FT>* B=op(i); if(B->vp[x]+((B->g.bc[x]&&B->g.sdir==x)?1:0)<1) return true; }
      for(int i=0;i<2;++i) if(uses>>(6+i)&1){ Box<FT>* B=&(i?M2:M1).proto; if(B->vp[x]+((B->g.bc[x]&&B->g.sdir==x)?1:0)<1) return true; } }
    return false; }
  void save_all(){ for(int i=0;i<6;++i) op(i)->save(); }
  void operands_untouched(pbt::Case& cs,const string& key){ for(int i=0;i<5;++i){ char nm[2]={"abcdp"[i],0}; op(i)->check_untouched(cs,key,(string("operand ")+nm).c_str()); }
    if((*v1)[0]!=v1v||(*v2)[0]!=v2v) cs.fail(key,"single-value operand changed"); }
};
template<class FT> struct Entry { const char* text; unsigned uses; int size; const char* tags;
  void(*assign)(FT&,Env<FT>&); void(*iassign)(FT&,Env<FT>&); double(*red)(int,Env<FT>&); double(*ref)(const CellT<typename FT::value_type>&,RT<typename FT::value_type>&); };

inline bool has_tag(const char* tags,const char* t){ const char* p=tags; size_t n=strlen(t); while((p=strstr(p,t))){ if((p==tags||p[-1]==' ')&&(p[n]==0||p[n]==' ')) return true; p+=n; } return false; }

/// compare the target with the reference over exp (exactly those cells changed), everything else untouched
template<class FT> void compare(pbt::Case& c,const string& id,Env<FT>& e,const Entry<FT>& en,const Ibox& exp,const char* what,bool region,bool values){
  // e.t holds the result; e.t.snap the old contents
  vector<typename FT::value_type> now; now.swap(e.t.mem); e.t.mem=e.t.snap;   // reference reads old target values
  for(size_t q=0;q<now.size();++q){
    long f=(long)q-Box<FT>::G; int o[3]; bool in=false; if(f>=0&&f<e.t.g.npts()){ e.t.g.ijk(f,o); in=exp.has(o[0],o[1],o[2]); }
    if(!in){ if(region&&!bits(now[q],e.t.snap[q])){ e.t.mem=now; std::ostringstream w; w<<what<<" "<<en.text; e.t.fail_at(c,id+":outside",w.str().c_str(),q); } continue; }
    if(!values) continue;
    RT<typename FT::value_type> r; double want=en.ref(e.cell(o[0],o[1],o[2],en.uses),r); double tol=(sizeof(typename FT::value_type)<8?5e-6:1e-11)*r.M;
    if(!close(now[q],want,tol)){ std::ostringstream w; w<<what<<" t <<= "<<en.text<<" ["<<Stag<FT>::name()<<" "<<e.t.g.str()<<"] at "<<ijks(o[0],o[1],o[2])<<" of "<<exp.str()<<": got "<<num(now[q])<<" want "<<num(want)<<" (before: "<<num(e.t.snap[q])<<")"; e.t.mem=now; c.fail(id+":value",w.str()); }
  }
  e.t.mem.swap(now);
}
} // namespace so
