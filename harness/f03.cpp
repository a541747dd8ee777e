// F03: iterators.  Model: the list of cell addresses (x fastest) of the region; a position is an index into it.
#include "so.h"
#include <spatialops/structured/SpatialMask.h>
#include <numeric>
#include <boost/shared_ptr.hpp>
using namespace so;
typedef SS::SVolField F;
struct Region { vector<long> flat; vector<IntVec> loc; };
static Region region(const MemoryWindow& w){ Region r; for(int k=0;k<w.extent()[2];++k) for(int j=0;j<w.extent()[1];++j) for(int i=0;i<w.extent()[0];++i){ r.flat.push_back((w.offset()[0]+i)+(long)w.glob_dim()[0]*((w.offset()[1]+j)+(long)w.glob_dim()[1]*(w.offset()[2]+k))); r.loc.push_back(IntVec(i,j,k)); } return r; }

template<class It> bool is_at(const It& it,const double* base,const Region& r,long pos){ return &*it==base+r.flat[pos]; }
template<class It,class Deref,class Loc>
static void walk(pbt::Case& c,It begin,It end,long n,Deref deref,Loc loc,const char* kind){
  long pos=0; It it=begin; int ops=0; string hist;
  PBT_REQUIRE(c,end-begin==n && begin-end==-n,"F03:size",kind<<": end-begin="<<(end-begin)<<", cells "<<n);
  { It q=begin; for(long i=0;i<n;++i,++q){ PBT_REQUIRE(c,deref(q,i),"F03:forward",kind<<": forward position "<<i<<" is the wrong cell"); PBT_REQUIRE(c,q!=end && q<end && !(q==end) && !(q>=end),"F03:compare",kind<<": position "<<i<<" compares equal to or beyond the end"); }
    PBT_REQUIRE(c,q==end && !(q!=end) && q<=end && q>=end,"F03:end",kind<<": stepping through all cells does not reach the end");
    for(long i=n-1;i>=0;--i){ --q; PBT_REQUIRE(c,deref(q,i),"F03:backward",kind<<": backward position "<<i<<" is the wrong cell"); }
    PBT_REQUIRE(c,q==begin,"F03:backward",kind<<": stepping back from the end does not reach the beginning"); }
  int jumps=0;
  while(c.more(ops,14,40)){
    int o=(int)c.draw(9); long t=c.range(0,n); // target position
    switch(o){
      case 0: if(pos<n){ It& x=++it; (void)x; ++pos; hist+="++ "; } break;
      case 1: if(pos>0){ --it; --pos; hist+="-- "; } break;
      case 2: if(pos<n){ It old=it++; PBT_REQUIRE(c,pos==n||deref(old,pos),"F03:postfix",kind<<": it++ returned the wrong position after "<<hist); ++pos; hist+="p++ "; } break;
      case 3: if(pos>0){ It old=it--; if(pos<n) PBT_REQUIRE(c,deref(old,pos),"F03:postfix",kind<<": it-- returned the wrong position after "<<hist); --pos; hist+="p-- "; } break;
      case 4: it+=(int)(t-pos); hist+="+="+std::to_string(t-pos)+" "; if(t!=pos) ++jumps; pos=t; break;
      case 5: it-=(int)(pos-t); hist+="-="+std::to_string(pos-t)+" "; if(t!=pos) ++jumps; pos=t; break;
      case 6: { It q=it+(int)(t-pos); if(t<n) PBT_REQUIRE(c,deref(q,t),"F03:plus",kind<<": it+"<<(t-pos)<<" from "<<pos<<" is the wrong cell; "<<hist); it=q; pos=t; ++jumps; hist+="+"+std::to_string(t)+" "; break; }
      case 7: { It q=it-(int)(pos-t); if(t<n) PBT_REQUIRE(c,deref(q,t),"F03:minus",kind<<": it-"<<(pos-t)<<" from "<<pos<<" is the wrong cell; "<<hist); it=q; pos=t; ++jumps; hist+="-"+std::to_string(t)+" "; break; }
      case 8: { It q=begin; q+=(int)t; PBT_REQUIRE(c,(it-q)==pos-t && (q-it)==t-pos,"F03:difference",kind<<": difference of positions "<<pos<<" and "<<t<<" is "<<(it-q)<<"; "<<hist);
        PBT_REQUIRE(c,(it==q)==(pos==t)&&(it!=q)==(pos!=t)&&(it<q)==(pos<t)&&(it>q)==(pos>t)&&(it<=q)==(pos<=t)&&(it>=q)==(pos>=t),"F03:compare",kind<<": comparison of positions "<<pos<<" and "<<t<<" is wrong; "<<hist); break; }
    }
    if(pos<n){ PBT_REQUIRE(c,deref(it,pos),"F03:walk",kind<<": position "<<pos<<" is the wrong cell after "<<hist);
      PBT_REQUIRE(c,loc(it,pos),"F03:location",kind<<": location() is wrong at position "<<pos<<" after "<<hist); }
    else PBT_REQUIRE(c,it==end,"F03:end",kind<<": not at the end after "<<hist);
    PBT_REQUIRE(c,it-begin==pos && end-it==n-pos,"F03:difference",kind<<": offset from begin is "<<(it-begin)<<", expected "<<pos<<" after "<<hist);
  }
  if(jumps>1 && n>1) c.nontrivial(); c.note(" ").note(kind).note(": ").note(hist);
}
// a const iterator can be indexed too; a library in which that expression is ill-formed is reported, not failed to build
template<class It,class=void> struct Idx { static const double* at(const It&,int){ return nullptr; } };
template<class It> struct Idx<It,typename std::enable_if<std::is_convertible<decltype(std::declval<const It&>()[1]),const double&>::value>::type> { static const double* at(const It& i,int k){ return &i[k]; } };
// reading at a position outside the region is rejected (library built with assertions on)
template<class It> static bool rejects(const It& it){ try{ (void)(double)*it; }catch(std::runtime_error&){ return true; } return false; }
template<class It> static void ends(pbt::Case& c,It begin,It end,const MemoryWindow& w,const char* kind){
  PBT_REQUIRE(c,rejects<It>(end),"F03:end-read",kind<<": the end position can be read");
  It b=begin; --b; PBT_REQUIRE(c,rejects<It>(b),"F03:end-read",kind<<": the position before the first cell can be read"); ++b; PBT_REQUIRE(c,b==begin&&!rejects<It>(b),"F03:backward",kind<<": stepping before the first cell and forward again is not the first cell");
  long n=end-begin; It q=begin; q+=(int)n; PBT_REQUIRE(c,q==end&&rejects<It>(q),"F03:end-read",kind<<": jumping to the end gives a readable position"); int d=(int)c.range(1,n); q-=d; PBT_REQUIRE(c,!rejects<It>(q)&&q-begin==n-d,"F03:minus",kind<<": jumping back by "<<d<<" from the end"); }
struct Setup { Box<F> b; std::unique_ptr<F> sub; F* f; MemoryWindow w, wi; Setup():f(0),w(IntVec(1,1,1)),wi(IntVec(1,1,1)){} };
static void setup(pbt::Case& c,Setup& s,bool windowed){
  GeoOpts o; o.maxn=5; o.maxg=2; o.bc=false; Geo g=gen_geo(c,o); s.b.init(g); for(long i=0;i<s.b.g.npts();++i) s.b.data()[i]=(double)i;
  if(c.chance(1,3)){ int vm[3],vp[3]; gen_valid(c,s.b.g,vm,vp,100); s.b.set_valid(vm,vp); c.label("reduced valid ghosts"); }
  s.f=s.b.f.get(); const Geo& G=s.b.g; 
  Ibox v=s.b.valid(); s.w=MemoryWindow(IntVec(G.glob(0),G.glob(1),G.glob(2)),IntVec(v.lo[0]+G.m(0),v.lo[1]+G.m(1),v.lo[2]+G.m(2)),IntVec(v.hi[0]-v.lo[0],v.hi[1]-v.lo[1],v.hi[2]-v.lo[2]));
  s.wi=MemoryWindow(IntVec(G.glob(0),G.glob(1),G.glob(2)),IntVec(G.m(0),G.m(1),G.m(2)),IntVec(G.n[0],G.n[1],G.n[2]));
  c.note(G.str());
  if(windowed){ int of[3],ex[3]; for(int d=0;d<3;++d){ ex[d]=(int)c.range(1,G.glob(d)); of[d]=(int)c.range(0,G.glob(d)-ex[d]); } s.w=MemoryWindow(IntVec(G.glob(0),G.glob(1),G.glob(2)),IntVec(of[0],of[1],of[2]),IntVec(ex[0],ex[1],ex[2]));
    s.sub.reset(new F(s.w,*s.f)); s.f=s.sub.get(); std::ostringstream t; t<<" sub-window "<<s.w; c.note(t.str()); c.label("sub-window"); }
}
PBT_TARGET("iterator",4){
  Setup s; setup(c,s,c.chance(1,3)); Region r=region(s.w); const double* base=s.b.data();
  auto de=[&](F::iterator i,long p){ return &*i==base+r.flat[p]; }; auto lo=[&](const F::iterator& i,long p){ return i.location()==r.loc[p]; };
  walk(c,s.f->begin(),s.f->end(),(long)r.flat.size(),de,lo,"iterator");
  F::iterator it=s.f->begin(); long p=c.range(0,r.flat.size()-1), q=c.range(0,r.flat.size()-1); it+=(int)p; PBT_REQUIRE(c,&it[(int)(q-p)]==base+r.flat[q],"F03:subscript","it["<<(q-p)<<"] from position "<<p<<" is the wrong cell");
  { const F::iterator cit(it); PBT_REQUIRE(c,&*cit==base+r.flat[p]&&&*const_cast<F::iterator&>(cit)==base+r.flat[p],"F03:forward","reading through a const iterator object gives another cell"); F::iterator de0; de0=it; PBT_REQUIRE(c,&*de0==base+r.flat[p]&&de0-it==0,"F03:copy","an assigned iterator is elsewhere"); }
  if(c.boolean()) ends<F::iterator>(c,s.f->begin(),s.f->end(),s.w,"iterator"); else { struct CI { }; const F::iterator e=s.f->end(); bool th=false; try{ (void)(double)*e; }catch(std::runtime_error&){ th=true; } PBT_REQUIRE(c,th,"F03:end-read","the end position can be read through a const iterator object"); }
}
PBT_TARGET("const-iterator",3){
  Setup s; setup(c,s,c.chance(1,3)); Region r=region(s.w); const double* base=s.b.data(); const F& f=*s.f;
  auto de=[&](const F::const_iterator& i,long p){ return &*i==base+r.flat[p]; }; auto lo=[&](const F::const_iterator& i,long p){ return i.location()==r.loc[p]; };
  walk(c,f.begin(),f.end(),(long)r.flat.size(),de,lo,"const_iterator");
  // conversion keeps the position
  F::iterator it=s.f->begin(); long p=c.range(0,r.flat.size()-1); it+=(int)p; F::const_iterator ci(it); PBT_REQUIRE(c,&*ci==base+r.flat[p] && ci-f.begin()==p,"F03:convert","converted iterator is at another position");
  long t=c.range(0,r.flat.size()-1); ci+=(int)(t-p); PBT_REQUIRE(c,&*ci==base+r.flat[t],"F03:convert","converted iterator walks differently");
  const double* ix=Idx<F::const_iterator>::at(ci,(int)(p-t)); PBT_REQUIRE(c,ix,"F03:subscript","const iterators cannot be indexed"); PBT_REQUIRE(c,ix==base+r.flat[p],"F03:subscript","const it["<<(p-t)<<"] from position "<<t<<" is the wrong cell");
  ends<F::const_iterator>(c,f.begin(),f.end(),s.w,"const_iterator"); F::const_iterator d0; d0=ci; PBT_REQUIRE(c,&*d0==base+r.flat[t]&&d0-ci==0,"F03:copy","an assigned iterator is elsewhere");
}
PBT_TARGET("interior",3){
  Setup s; setup(c,s,false); Region r=region(s.wi); const double* base=s.b.data();
  if(c.boolean()){ auto de=[&](F::interior_iterator i,long p){ return &*i==base+r.flat[p]; }; auto lo=[&](const F::interior_iterator& i,long p){ return i.location()==r.loc[p]; };
    walk(c,s.f->interior_begin(),s.f->interior_end(),(long)r.flat.size(),de,lo,"interior_iterator"); }
  else { const F& f=*s.f; auto de=[&](const F::const_interior_iterator& i,long p){ return &*i==base+r.flat[p]; }; auto lo=[&](const F::const_interior_iterator& i,long p){ return i.location()==r.loc[p]; };
    walk(c,f.interior_begin(),f.interior_end(),(long)r.flat.size(),de,lo,"const_interior_iterator"); }
}
PBT_TARGET("mask-iterator",3){
  Setup s; setup(c,s,false); const Geo& g=s.b.g; uint64_t seed=c.seed32(); vector<IntVec> pts; std::set<long> set; Ibox v=s.b.valid();
  for(long q=0;q<g.npts();++q){ int o[3]; g.ijk(q,o); if(v.has(o[0],o[1],o[2]) && pbt::hcomb(seed,q)%2){ pts.push_back(IntVec(o[0],o[1],o[2])); set.insert(q); } }
  SS::SpatialMask<F> m(*s.f,pts); bool in=c.boolean(); Region r=region(in?s.wi:s.w);
  auto de=[&](const SS::ConstMaskIterator& i,long p){ return *i==(set.count(r.flat[p])>0); }; auto lo=[&](const SS::ConstMaskIterator&,long){ return true; };
  { long n=r.flat.size(), p=c.range(0,n-1), q=c.range(0,n-1); SS::ConstMaskIterator i=in?m.interior_begin():m.begin(); i+=(int)p; PBT_REQUIRE(c,i[(int)(q-p)]==(set.count(r.flat[q])>0),"F03:subscript","mask it["<<(q-p)<<"] from position "<<p<<" is the wrong cell"); 
    SS::ConstMaskIterator e=in?m.interior_end():m.end(); bool th=false; try{ (void)(bool)*e; }catch(std::runtime_error&){ th=true; } PBT_REQUIRE(c,th,"F03:end-read","the end position of a mask can be read"); }
  if(in) walk(c,m.interior_begin(),m.interior_end(),(long)r.flat.size(),de,lo,"mask interior iterator"); else walk(c,m.begin(),m.end(),(long)r.flat.size(),de,lo,"mask iterator");
}
PBT_TARGET("algorithms",2){
  Setup s; setup(c,s,c.chance(1,3)); Region r=region(s.w); double* base=s.b.data(); uint64_t seed=c.seed32(); for(long i=0;i<s.b.g.npts();++i) base[i]=cellval(seed,SMALLINT,i);
  s.b.save(); vector<double> v; for(long q: r.flat) v.push_back(base[q]); int op=(int)c.draw(5); c.nontrivial(v.size()>3); F& f=*s.f;
  switch(op){ case 0: std::sort(v.begin(),v.end()); std::sort(f.begin(),f.end()); break;
    case 1: std::reverse(v.begin(),v.end()); std::reverse(f.begin(),f.end()); break;
    case 2: { long k=c.range(0,v.size()); std::rotate(v.begin(),v.begin()+k,v.end()); std::rotate(f.begin(),f.begin()+(int)k,f.end()); break; }
    case 3: { vector<double> w(v.rbegin(),v.rend()); std::copy(w.begin(),w.end(),f.begin()); v=w; break; }
    default: { vector<double> w(s.f->begin(),s.f->end()); PBT_REQUIRE(c,w==v,"F03:algorithm","copying out of a field through iterators gives other values"); std::partial_sum(v.begin(),v.end(),v.begin()); double a=0; for(F::iterator i=f.begin();i<f.end();++i){ a+=*i; *i=a; } } }
  for(size_t i=0;i<v.size();++i) PBT_REQUIRE(c,same(base[r.flat[i]],v[i]),"F03:algorithm","algorithm "<<op<<" through field iterators gives "<<base[r.flat[i]]<<" at position "<<i<<", expected "<<v[i]);
  std::set<long> in(r.flat.begin(),r.flat.end()); for(size_t i=0;i<s.b.mem.size();++i) if(!in.count((long)i-Box<F>::G) && !bits(s.b.mem[i],s.b.snap[i])) s.b.fail_at(c,"F03:algorithm-outside","iterated field",i);
}
PBT_MAIN
