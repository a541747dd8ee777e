// E06: reductions of fields and generated expressions (-DOPS: expressions that apply operators)
#ifdef OPS
#include "st.h"
#else
#include "env.h"
#endif
using namespace so;
namespace {
#define SO_STR2(x) #x
#define SO_STR(x) SO_STR2(x)
#include TUFILE
const char* RN[]={"nebo_min","nebo_max","nebo_sum","nebo_norm","nebo_min_interior","nebo_max_interior","nebo_sum_interior","nebo_norm_interior"};
struct Ref { double mn,mx,sum,sq,abs,M; long n; };
void acc(Ref& r,double v,double M){ if(r.n==0){ r.mn=r.mx=v; r.sum=r.sq=r.abs=0; r.M=0; } else { r.mn=rmin(r.mn,v); r.mx=rmax(r.mx,v); } r.sum+=v; r.sq+=v*v; r.abs+=std::fabs(v); r.M=std::max(r.M,M); ++r.n; }
double want(const Ref& r,int w){ switch(w%4){ case 0: return r.mn; case 1: return r.mx; case 2: return r.sum; default: return std::sqrt(r.sq); } }
#ifdef OPS
const double REPS=1e-11;
#else
typedef FT::value_type V; const double REPS= sizeof(V)<8? 5e-6: 1e-11;
#endif
double tol(const Ref& r,int w){ const double EPS=REPS+(REPS>1e-10? 6e-8*r.n: 0);   // a single-precision sum may lose half an ulp per cell
  switch(w%4){ case 0: case 1: return EPS*r.M; case 2: return EPS*(r.abs+r.M*r.n); default: return EPS*(std::sqrt(r.sq)+r.M*r.n)+(REPS>1e-10? 1e-21*r.n: 0); } }
#ifdef OPS
template<class F> void reduce_op(pbt::Case& c,const SEntry& en){
  static SEnv e; setup(c,e,en,SetupOpts());
  int w=(int)c.draw(8); Geo g=Geo::of<F>(e.base); Ibox bare,box=e.region(en.needs,en.nneeds); for(int d=0;d<3;++d){ bare.lo[d]=0; bare.hi[d]=g.n[d]; }
  Ibox in=bare; for(int d=0;d<3;++d) in.hi[d]+=g.e(d);
  if(w>=4) box.meet(in);
  Ref r,rb; r.n=rb.n=0; r.sq=rb.sq=r.abs=rb.abs=0;
  for(int k=box.lo[2];k<box.hi[2];++k)for(int j=box.lo[1];j<box.hi[1];++j)for(int i=box.lo[0];i<box.hi[0];++i){ R t; double v=en.ref(e,i,j,k,t); acc(r,v,t.M); if(bare.has(i,j,k)) acc(rb,v,t.M); }
  std::ostringstream h; h<<RN[w]<<"("<<en.text<<") over "<<box.str()<<", operands"; for(auto&p:e.ops) if(p->up) h<<" ["<<p->str()<<"]"; c.note(h.str());
  c.nontrivial(box.count()>1); c.label(RN[w]); c.label_if(en.depth>1,"nested operators"); c.label_if(e.base.thin(0)||e.base.thin(1)||e.base.thin(2),"one-cell direction"); c.label_if(w<4&&!(box.lo[0]==bare.lo[0]&&box.lo[1]==bare.lo[1]&&box.lo[2]==bare.lo[2]),"ghost cells included");
  double got=0; bool threw=false; string why; try{ got=en.red(w,e); }catch(std::exception& x){ threw=true; why=x.what(); }
  PBT_REQUIRE(c,!threw,"E06:rejected","reduction rejected: "<<why<<": "<<h.str());
  if(!close(got,want(r,w),tol(r,w))){ bool omits= w>=4 && r.n!=rb.n && close(got,want(rb,w),tol(rb,w));
    c.fail(omits?"E06:interior-omits-boundary-extra":string("E06:")+RN[w],h.str()+": got "+num(got)+" want "+num(want(r,w))); }
  for(auto&p:e.ops) if(p->up) p->untouched(c,"E06:operand");
}
PBT_TARGET("operators" SO_STR(TU),4){ const SEntry& en=ENTRIES[c.draw(NENTRIES)]; for_type(en.tgt,[&](auto* p){ reduce_op<typename std::remove_pointer<decltype(p)>::type>(c,en); }); }
#else
void reduce(pbt::Case& c){
  const Entry<FT>& en=ENTRIES[c.draw(NENTRIES)];
  GeoOpts o; o.maxn=6; Geo g=gen_geo(c,o); int st=gen_style(c);
  static Env<FT> e; e.init(c,g,true,en.uses,st);
  int pz=(int)c.draw(4); double poison= pz==0? std::numeric_limits<double>::quiet_NaN(): pz==1? 1e200: pz==2? -1e200: 1e5;
  for(int i=0;i<6;++i) if(en.uses>>i&1) e.op(i)->poison_invalid(poison);
  e.save_all();
  int w=(int)c.draw(8);
  Ibox all=e.operands(en.uses), in=e.a.interior(), bare; for(int d=0;d<3;++d){ bare.lo[d]=0; bare.hi[d]=e.base.n[d]; }
  const Ibox& box= w<4? all: in;
  Ref r,rb; r.n=rb.n=0; r.sq=rb.sq=r.abs=rb.abs=0;
  for(int k=box.lo[2];k<box.hi[2];++k)for(int j=box.lo[1];j<box.hi[1];++j)for(int i=box.lo[0];i<box.hi[0];++i){ R t; const double v=en.ref(e.cell(i,j,k,en.uses),t); acc(r,v,t.M); if(bare.has(i,j,k)) acc(rb,v,t.M); }
  if(sizeof(V)<8&&!((w%4==3? r.sq+rb.sq: r.abs+rb.abs)<3e38)) c.discard();   // beyond single precision
  double got=en.red(w,e);
  c.note(string(RN[w])+"("+en.text+")   base "+Stag<FT>::name()+" "+e.base.str()+" over "+box.str());
  if(box.count()>1) c.nontrivial();
  c.label(RN[w]); c.label_if((en.uses>>6)!=0,"mask"); c.label_if(en.size==1,"plain field");
  if(!close(got,want(r,w),tol(r,w))){
    bool omits = w>=4 && r.n!=rb.n && close(got,want(rb,w),tol(rb,w));
    std::ostringstream m; m<<RN[w]<<"("<<en.text<<") over "<<Stag<FT>::name()<<" "<<e.base.str()<<", cells "<<box.str()<<": got "<<num(got)<<" want "<<num(want(r,w));
    c.fail(omits? "E06:interior-omits-boundary-extra": string("E06:")+RN[w],m.str()); }
  e.operands_untouched(c,"E06:operand");
}
PBT_TARGET("reduce" SO_STR(TU),4){ reduce(c); }
#if TU==0
const V& maxp(const V& a,const V& b){ return a<b?b:a; }
V comb(const V& a,const V& b){ return V(0.5*a+b); }     // order sensitive
PBT_TARGET("fold",4){
  GeoOpts o; o.maxn=6; Geo g=gen_geo(c,o); gen_pads(c,g,25); Box<FT> a(g); a.fill(c.seed32(),gen_style(c)); int vm[3],vp[3]; gen_valid(c,a.g,vm,vp); a.set_valid(vm,vp); a.poison_invalid(1e100);
  int w=(int)c.draw(6); Ibox box= w<3? a.valid(): a.interior(); Ibox bare=box; for(int d=0;d<3;++d){ bare.hi[d]=std::min(bare.hi[d],a.g.n[d]); }
  V init=V((int)c.draw(40)-20); V got=0,ref=0,refb=0;
  for(int pass=0;pass<2;++pass){ const Ibox& b=pass?bare:box; V r=init; bool first=true;
    for(int k=b.lo[2];k<b.hi[2];++k)for(int j=b.lo[1];j<b.hi[1];++j)for(int i=b.lo[0];i<b.hi[0];++i){ V v=a.at(i,j,k); switch(w%3){ case 0: r=maxp(r,v); break; case 1: r= first?v:maxp(r,v); break; default: r= first?v:comb(r,v); } first=false; }
    (pass?refb:ref)=r; }
  switch(w){ case 0: got=S::nebo_fold<V,FT>(&maxp,init,*a.f); break; case 1: got=S::nebo_reduce(&maxp,*a.f); break; case 2: got=S::nebo_reduce(&comb,*a.f); break;
    case 3: got=S::nebo_fold_interior<V,FT>(&maxp,init,*a.f); break; case 4: got=S::nebo_reduce_interior(&maxp,*a.f); break; default: got=S::nebo_reduce_interior(&comb,*a.f); }
  if(box.count()>1) c.nontrivial();
  const char* nm[]={"nebo_fold(max)","nebo_reduce(max)","nebo_reduce(order-sensitive)","nebo_fold_interior(max)","nebo_reduce_interior(max)","nebo_reduce_interior(order-sensitive)"};
  c.note(string(nm[w])+" over "+Stag<FT>::name()+" "+a.g.str()+" "+box.str());
  if(!close(got,ref,100*REPS)){ bool om=w>=3&&close(got,refb,100*REPS)&&bare.count()!=box.count();
    c.fail(om?"E06:interior-omits-boundary-extra":"E06:fold",string(nm[w])+" over "+Stag<FT>::name()+" "+a.g.str()+" "+box.str()+": got "+num(got)+" want "+num(ref)); }
}
#endif
#endif
}
#if TU==0
PBT_MAIN
#endif
