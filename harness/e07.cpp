// E07: a mask against the set of points it was built from.
#include "env.h"
#include <spatialops/NeboStencilBuilder.h>
#include <list>
using namespace so;
namespace {
typedef std::tuple<SS::SVolField,SS::SSurfXField,SS::XVolField,SS::XSurfYField,SS::YVolField,SS::YSurfZField,SS::ZVolField,SS::ZSurfZField> Types;
enum { NT=std::tuple_size<Types>::value };
struct Set { Geo g; Ibox valid; vector<char> in; long n;   // points by cell of the field's allocation
  bool has(int i,int j,int k) const { return in[g.flat(i,j,k)]!=0; } };
struct Held { virtual ~Held(){} virtual void check(pbt::Case&,const string&)=0; virtual string str() const=0; };
template<class F> struct Mask : Held {
  Set s; Box<F> proto; std::unique_ptr<SS::SpatialMask<F> > m; vector<std::unique_ptr<SS::SpatialMask<F> > > copies; struct Sub { std::unique_ptr<SS::SpatialMask<F> > m; Ibox b; }; vector<Sub> subs; int npts;
  string str() const override { std::ostringstream o; o<<"mask of "<<Stag<F>::name()<<" "<<s.g.str()<<" valid "<<s.valid.str()<<" with "<<npts<<" points listed ("<<s.n<<" distinct)"; return o.str(); }
  Mask(pbt::Case& c,int maxn){ GeoOpts o; o.maxn=maxn; o.maxg=3; Geo g=gen_geo(c,o); gen_pads(c,g,35); proto.init(g); int vm[3],vp[3]; gen_valid(c,proto.g,vm,vp); proto.set_valid(vm,vp); s.g=proto.g; s.valid=proto.valid(); s.in.assign(s.g.npts(),0); s.n=0;
    vector<IntVec> pts; auto add=[&](int i,int j,int k){ pts.push_back(IntVec(i,j,k)); char& b=s.in[s.g.flat(i,j,k)]; if(!b){ b=1; ++s.n; } }; const Ibox& v=s.valid; uint64_t sd=c.seed32();
    switch(c.weighted({1,4,3,2,2,2})){ case 0: break; case 1: { int n=(int)c.range(1,12); for(int q=0;q<n;++q){ int p[3]; for(int d=0;d<3;++d) p[d]=v.lo[d]+(int)(pbt::hcomb(sd,(uint64_t)(3*q+d))%(uint64_t)(v.hi[d]-v.lo[d])); add(p[0],p[1],p[2]); if(c.chance(1,4)) add(p[0],p[1],p[2]); } break; }
      case 2: { int dens=(int)c.range(1,9); for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i) if((int)(pbt::hcomb(sd,(uint64_t)s.g.flat(i,j,k))%10)<dens) add(i,j,k); break; }
      case 3: for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i) add(i,j,k); break;
      case 4: for(int q=0;q<8;++q) if(sd>>q&1) add(q&1?v.hi[0]-1:v.lo[0],q&2?v.hi[1]-1:v.lo[1],q&4?v.hi[2]-1:v.lo[2]); break;
      default: { int d=(int)(sd%3), at= sd>>8&1? v.lo[d]: v.hi[d]-1; for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i){ int p[3]={i,j,k}; if(p[d]==at) add(i,j,k); } } }
    if(c.boolean()) for(size_t i=pts.size();i>1;--i) std::swap(pts[i-1],pts[pbt::hcomb(sd^77,i)%i]); npts=(int)pts.size(); proto.fill(c.seed32(),FULL); proto.save(); m.reset(new SS::SpatialMask<F>(*proto.f,pts)); }
  void iterate(pbt::Case& c,const string& h,const SS::ConstMaskIterator& b,const SS::ConstMaskIterator& e,const Ibox& r,const char* w){ SS::ConstMaskIterator it=b; long cnt=0; PBT_REQUIRE(c,e-b==r.count(),"E07:extent",w<<" spans "<<(e-b)<<" points, expected "<<r.count()<<"; "<<h); for(int k=r.lo[2];k<r.hi[2];++k)for(int j=r.lo[1];j<r.hi[1];++j)for(int i=r.lo[0];i<r.hi[0];++i,++it,++cnt){ PBT_REQUIRE(c,it!=e,"E07:extent",w<<" ends early; "<<h); PBT_REQUIRE(c,*it==s.has(i,j,k),"E07:iterate",w<<" gives "<<*it<<" at "<<ijks(i,j,k)<<" (position "<<cnt<<"); "<<str()<<"; "<<h); } PBT_REQUIRE(c,it==e,"E07:extent",w<<" does not end; "<<h);
    long n=r.count(); int ex=r.hi[0]-r.lo[0], ey=r.hi[1]-r.lo[1]; for(int q=0;q<3&&n>1;++q){ uint64_t z=pbt::hcomb((uint64_t)npts+n,(uint64_t)q); long p=(long)(z%n), t=(long)((z>>24)%n); it=b+(int)p; if(z>>60&1) it+=(int)(t-p); else it-=(int)(p-t); int i=r.lo[0]+(int)(t%ex), j=r.lo[1]+(int)(t/ex%ey), k=r.lo[2]+(int)(t/ex/ey); PBT_REQUIRE(c,*it==s.has(i,j,k)&&it-b==t,"E07:iterate",w<<" gives "<<*it<<" at "<<ijks(i,j,k)<<" after a jump from position "<<p<<" to "<<t<<"; "<<str()<<"; "<<h); } }
  void one(pbt::Case& c,const string& h,const SS::SpatialMask<F>& q,const char* w){ const Ibox& v=s.valid; for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i){ bool a=q(IntVec(i,j,k)); PBT_REQUIRE(c,a==s.has(i,j,k),"E07:value",w<<" is "<<a<<" at "<<ijks(i,j,k)<<"; "<<str()<<"; "<<h); if(q(i,j,k)!=a) c.fail("E07:value",string(w)+": the two ways of asking disagree; "+h); }
    iterate(c,h,q.begin(),q.end(),v,w); Ibox in=proto.interior(); iterate(c,h,q.interior_begin(),q.interior_end(),in,"interior iteration");
    PBT_REQUIRE(c,q.window_with_ghost()==proto.f->window_with_ghost()&&q.window_without_ghost()==proto.f->window_without_ghost()&&q.get_ghost_data()==proto.f->get_ghost_data()&&q.get_valid_ghost_data()==proto.f->get_valid_ghost_data(),"E07:meta",w<<" has other windows or ghosts than its prototype; "<<str()<<"; "<<h); }
  void check(pbt::Case& c,const string& h) override { one(c,h,*m,"mask"); for(auto&p:copies) one(c,h,*p,"copy of the mask"); for(auto&p:subs) iterate(c,h,p.m->begin(),p.m->end(),p.b,"reshaped mask"); proto.check_untouched(c,"E07:prototype","prototype field"); }
  void step(pbt::Case& c,std::ostringstream& h){ switch(c.draw(5)){
    case 0: h<<" copy"; copies.push_back(std::unique_ptr<SS::SpatialMask<F> >(new SS::SpatialMask<F>(copies.empty()||c.boolean()? *m: *copies.back()))); break;
    case 1: if(!copies.empty()){ h<<" drop-copy"; copies.pop_back(); } break;
    case 2: { int sh[3],dm[3]; Sub q; for(int d=0;d<3;++d){ int n=s.valid.hi[d]-s.valid.lo[d]; sh[d]=(int)c.draw(n); dm[d]=-sh[d]-(int)c.draw(n-sh[d]); q.b.lo[d]=s.valid.lo[d]+sh[d]; q.b.hi[d]=q.b.lo[d]+n+dm[d]; } h<<" reshape"; q.m.reset(new SS::SpatialMask<F>(m->reshape(IntVec(dm[0],dm[1],dm[2]),IntVec(sh[0],sh[1],sh[2])))); subs.push_back(std::move(q)); break; }
    default: { // as a condition
      using namespace SpatialOps; const SS::SpatialMask<F>& q= copies.empty()||c.boolean()? *m: *copies.back(); Geo g=s.g; if(c.boolean()) gen_ghosts(c,g); for(int d=0;d<3;++d) g.pl[d]=g.ph[d]=0; gen_pads(c,g,25); Box<F> t(g),a(g); t.fill(c.seed32(),SMALLINT); a.fill(c.seed32(),FULL); t.save(); Ibox ex=t.total(); ex.meet(s.valid); bool lacks=false; for(int d=0;d<3;++d) if(t.g.e(d)==0&&t.g.bc[d]&&t.g.sdir==d){} // thin: handled below
      for(int d=0;d<3;++d) if(t.g.bc[d]&&t.g.sdir==d&&proto.vp[d]+1<1) lacks=true; if(lacks) break; int kind=(int)c.draw(3); h<<" condition"<<kind; string why; bool threw=false; 
      try{ if(kind==0) *t.f <<= cond(q,1.25)(-3.5); else if(kind==1) *t.f <<= cond(q,*a.f)(*a.f+2.0); else *t.f <<= cond(!q || *a.f<*a.f,7.0)(q && *a.f==*a.f,9.0)(11.0); }catch(std::exception& e){ threw=true; why=e.what(); } PBT_REQUIRE(c,!threw,"E07:condition","assignment failed: "<<why<<"; "<<str());
      for(size_t p=0;p<t.mem.size();++p){ long f=(long)p-Box<F>::G; int o[3]; bool in=false; if(f>=0&&f<t.g.npts()){ t.g.ijk(f,o); in=ex.has(o[0],o[1],o[2]); } if(!in){ if(!bits(t.mem[p],t.snap[p])) t.fail_at(c,"E07:condition-outside",str().c_str(),p); continue; } bool b=s.has(o[0],o[1],o[2]); double av=a.at(o[0],o[1],o[2]), w= kind==0? (b?1.25:-3.5): kind==1? (b?av:av+2.0): (b?9.0:7.0); PBT_REQUIRE(c,bits(t.mem[p],w),"E07:condition","assignment with the mask as condition gives "<<num(t.mem[p])<<" at "<<ijks(o[0],o[1],o[2])<<", expected "<<num(w)<<"; "<<str()<<"; target "<<t.g.str()); } } } }
};
template<int I> void make(pbt::Case& c,std::list<std::unique_ptr<Held> >& l,int which,int maxn,std::function<void(std::function<void(pbt::Case&,std::ostringstream&)>)> put){ if constexpr(I<NT){ if(which==I){ typedef typename std::tuple_element<I,Types>::type F; Mask<F>* m=new Mask<F>(c,maxn); l.push_back(std::unique_ptr<Held>(m)); put([m](pbt::Case& cc,std::ostringstream& h){ m->step(cc,h); }); } else make<I+1>(c,l,which,maxn,put); } }
}
PBT_TARGET("masks",9){
  std::list<std::unique_ptr<Held> > l; vector<std::function<void(pbt::Case&,std::ostringstream&)> > st; std::ostringstream h; int n=(int)c.range(1,4), maxn= c.chance(1,5)? 16: 6; size_t distinct=0; vector<std::list<std::unique_ptr<Held> >::iterator> its; int steps=(int)c.range(1,10);
  auto add=[&](){ make<0>(c,l,(int)c.draw(NT),maxn,[&](std::function<void(pbt::Case&,std::ostringstream&)> f){ st.push_back(f); }); its.push_back(std::prev(l.end())); h<<" build("<<l.back()->str()<<")"; l.back()->check(c,h.str()); ++distinct; };
  for(int i=0;i<n;++i) add();
  for(int s=0;s<steps;++s){ size_t k=c.draw(st.size()); switch(c.weighted({6,1,1})){ case 0: st[k](c,h); break; case 1: if(st.size()>1){ h<<" destroy"; l.erase(its[k]); its.erase(its.begin()+k); st.erase(st.begin()+k); } break; case 2: if(st.size()<5) add(); break; } for(auto&p:l) p->check(c,h.str()); }
  c.note(h.str()); c.nontrivial(distinct>1||steps>3); c.label_if(maxn==16,"large"); c.label_if(distinct>1,"several masks"); }
PBT_MAIN
