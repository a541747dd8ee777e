// F04: construction, aliasing and assignment of fields.  Model: every allocation is a vector of
// cell values (with "unknown" for cells nobody has written), every field a view (allocation, window).
#include "so.h"
#include <spatialops/structured/MemoryPool.h>
using namespace so;
typedef SS::SpatialField<SS::SVol,float> FloatField;
template<class F> struct World {
  typedef typename F::value_type T; enum{ G=32 };
  struct Alloc { bool ext; vector<T> buf, guard; T* base; vector<T> val; vector<char> known; };
  struct View { std::unique_ptr<F> f; int a; MemoryWindow w; bool owner, whole; Geo g; bool resized, cuts; View(): a(-1), w(IntVec(1,1,1)), owner(false), whole(false), resized(false), cuts(false) {} };
  pbt::Case& c; vector<std::unique_ptr<Alloc> > al; vector<std::unique_ptr<View> > vs; size_t active0; long internals; string hist; uint64_t stamp;
  World(pbt::Case& cc): c(cc), internals(0), stamp(0) { active0=SS::Pool<T>::self().active(); }
  T fresh(){ ++stamp; return (T)(long)(stamp%1000000+1); }
  static long flat(const MemoryWindow& w,long i,long j,long k){ return (w.offset()[0]+i)+w.glob_dim()[0]*((w.offset()[1]+j)+(long)w.glob_dim()[1]*(w.offset()[2]+k)); }
  static vector<long> cells(const MemoryWindow& w){ vector<long> r; for(int k=0;k<w.extent()[2];++k) for(int j=0;j<w.extent()[1];++j) for(int i=0;i<w.extent()[0];++i) r.push_back(flat(w,i,j,k)); return r; }
  void construct(){
    GeoOpts o; o.maxn=4; o.maxg=2; o.bc=false; Geo g=Geo::of<SS::SVolField>(gen_geo(c,o)); if(!vs.empty()&&c.boolean()) g=vs[c.draw(vs.size())]->g;
    MemoryWindow w=g.window(); bool whole=true;
    int how=(int)c.draw(3); bool big=c.chance(1,3); // window in a larger allocation
    if(big){ IntVec gl(w.glob_dim()),of(0,0,0); for(int d=0;d<3;++d){ int a=(int)c.range(0,2),b=(int)c.range(0,2); gl[d]+=a+b; of[d]=a; } if(!(gl==w.glob_dim())) whole=false; w=MemoryWindow(gl,of,w.extent()); }
    std::unique_ptr<View> v(new View); v->w=w; v->g=g; v->whole=whole; std::unique_ptr<Alloc> a(new Alloc); long n=w.glob_npts(); a->val.assign(n,T(0)); a->known.assign(n,0);
    vector<long> cs=cells(w); BoundaryCellInfo bc=BoundaryCellInfo::build<SS::SVolField>(); std::ostringstream h; 
    if(how==0){ a->ext=true; a->buf.resize(n+2*G); for(size_t i=0;i<a->buf.size();++i) a->buf[i]=fresh(); a->guard=a->buf; a->base=&a->buf[G]; for(long i=0;i<n;++i){ a->val[i]=a->base[i]; a->known[i]=1; }
      v->f.reset(new F(w,bc,g.ghost(),a->base,S::structured::ExternalStorage)); v->owner=false; h<<"external "<<w; PBT_REQUIRE(c,v->f->field_values()==a->base,"F04:external","field over caller memory does not use it"); }
    else { vector<T> init; if(how==2){ init.resize(cs.size()); for(size_t i=0;i<cs.size();++i) init[i]=fresh(); }
      vector<T> keep=init; v->f.reset(new F(w,bc,g.ghost(),how==2?init.data():NULL,S::structured::InternalStorage)); PBT_REQUIRE(c,init==keep,"F04:init-changed","constructing a field changed the caller's initial values");
      if(how==2) std::fill(init.begin(),init.end(),T(-5)); a->ext=false; a->base=v->f->field_values(); v->owner=true; ++internals; for(size_t i=0;i<cs.size();++i){ a->val[cs[i]]= how==2?keep[i]:T(0); a->known[cs[i]]=1; } h<<(how==2?"internal+values ":"internal ")<<w; 
      for(auto& o2: al) if(o2){ T* lo=o2->base; T* hi=lo+o2->val.size(); PBT_REQUIRE(c,a->base+n<=lo||a->base>=hi,"F04:shared","internal storage overlaps another live allocation"); } }
    PBT_REQUIRE(c,v->f->window_with_ghost()==w,"F04:window","constructed field reports window "<<v->f->window_with_ghost()<<" instead of "<<w);
    v->a=(int)al.size(); al.push_back(std::move(a)); hist+="["+std::to_string(vs.size())+"]="+h.str()+"; "; vs.push_back(std::move(v)); }
  int pickv(){ return (int)c.draw(vs.size()); }
  void alias(){ int s=pickv(); View& p=*vs[s]; std::unique_ptr<View> v(new View); v->a=p.a; v->g=p.g; int how=(int)c.draw(3); std::ostringstream h;
    if(how==0){ v->f.reset(new F(*p.f)); v->w=p.w; v->whole=p.whole; v->resized=p.resized; v->cuts=p.cuts; h<<"copy of ["<<s<<"]"; }
    else { IntVec gl=p.w.glob_dim(),of,ex; 
      if(how==1){ for(int d=0;d<3;++d){ ex[d]=(int)c.range(1,gl[d]); of[d]=(int)c.range(0,gl[d]-ex[d]); } v->w=MemoryWindow(gl,of,ex); v->f.reset(new F(v->w,*p.f)); h<<"window "<<v->w<<" of ["<<s<<"]"; }
      else { IntVec em,sh; for(int d=0;d<3;++d){ int o2=(int)c.range(0,p.w.extent()[d]-1), e2=(int)c.range(1,p.w.extent()[d]-o2); if(c.chance(1,4)){ o2=-(int)c.range(0,p.w.offset()[d]); e2=(int)c.range(1,gl[d]-(p.w.offset()[d]+o2)); } sh[d]=o2; em[d]=e2-p.w.extent()[d]; }
        v->w=MemoryWindow(gl,p.w.offset()+sh,p.w.extent()+em); v->f.reset(new F(p.f->reshape(em,sh))); h<<"reshape of ["<<s<<"] to "<<v->w; }
      v->whole = v->w.extent()==gl; v->resized=true; }
    // a view that cuts into its parent's interior cannot be iterated as interior
    if(v->resized && how!=0 && p.whole && !p.resized){ bool cuts=false; for(int d=0;d<3;++d){ int lo=v->g.m(d), hi=lo+v->g.n[d]; if(v->w.offset()[d]>lo||v->w.offset()[d]+v->w.extent()[d]<hi) cuts=true; } 
      if(cuts){ bool th=false; try{ v->f->interior_begin(); }catch(std::runtime_error&){ th=true; } bool th2=false; try{ v->f->interior_end(); }catch(std::runtime_error&){ th2=true; } PBT_REQUIRE(c,th&&th2,"F04:interior","interior iterators are available on a view that cuts into the interior: "<<h.str()); c.label("view cutting the interior"); } }
    PBT_REQUIRE(c,v->f->window_with_ghost()==v->w,"F04:window","alias reports window "<<v->f->window_with_ghost()<<" instead of "<<v->w);
    PBT_REQUIRE(c,v->f->field_values()==al[v->a]->base,"F04:alias","alias does not share its parent's memory: "<<h.str());
    hist+="["+std::to_string(vs.size())+"]="+h.str()+"; "; vs.push_back(std::move(v)); }
  void write(){ int s=pickv(); View& v=*vs[s]; Alloc& a=*al[v.a]; vector<long> cs=cells(v.w); T x=fresh(); int how=(int)c.draw(5); std::ostringstream h; h<<"write["<<s<<"]";
    long q=c.range(0,cs.size()-1);
    if(how==0){ typename F::iterator it=v.f->begin(); it+=(int)q; *it=x; a.val[cs[q]]=x; a.known[cs[q]]=1; h<<" iterator "<<q; }
    else if(how==1){ (*v.f)[cs[q]]=x; a.val[cs[q]]=x; a.known[cs[q]]=1; h<<" flat "<<cs[q]; PBT_REQUIRE(c,(*(const F*)v.f.get())[cs[q]]==x,"F04:element","reading back element "<<cs[q]); }
    else if(how==2){ IntVec e3=v.w.extent(), l((int)(q%e3[0]),(int)(q/e3[0]%e3[1]),(int)(q/e3[0]/e3[1])); c.label_if(!v.whole,"indexing a view by triple"); if(c.boolean()) (*v.f)(l)=x; else (*v.f)(l[0],l[1],l[2])=x; a.val[cs[q]]=x; a.known[cs[q]]=1; const F& cf=*v.f; PBT_REQUIRE(c,cf(l)==x&&cf(l[0],l[1],l[2])==x,"F04:element","reading back element "<<l); h<<" ijk "<<l; }
    else if(how==3){ for(typename F::iterator it=v.f->begin();it!=v.f->end();++it,x=fresh()) { *it=x; size_t k=it-v.f->begin(); a.val[cs[k]]=x; a.known[cs[k]]=1; } h<<" all"; }
    else { T* p=v.f->field_values(); p[cs[q]]=x; a.val[cs[q]]=x; a.known[cs[q]]=1; h<<" raw "<<cs[q]; }
    hist+=h.str()+"; "; }
  void assign(){ int d=pickv(), s=pickv(); if(vs.size()>1&&c.boolean()) for(size_t k=0;k<vs.size();++k){ size_t q=(s+k)%vs.size(); if(vs[q]->w==vs[d]->w && (int)q!=d){ s=(int)q; break; } }
    View &D=*vs[d],&Sv=*vs[s]; bool eq=D.w==Sv.w; std::ostringstream h; h<<"["<<d<<"]:=["<<s<<"]"; bool th=false; hist+=h.str()+"; ";
    try{ F& r=(*D.f=*Sv.f); PBT_REQUIRE(c,&r==D.f.get(),"F04:assign","assignment returns another field"); }catch(std::runtime_error&){ th=true; }
    PBT_REQUIRE(c,th==!eq,"F04:unequal-assign",(eq?"assignment between equal windows was rejected: ":"assignment between unequal windows was accepted: ")<<D.w<<" := "<<Sv.w<<" after "<<hist);
    if(eq){ c.label("equal-window assignment"); c.label_if(!D.whole,"assignment of a windowed field"); vector<long> cs=cells(D.w); for(long q: cs){ al[D.a]->val[q]=al[Sv.a]->val[q]; al[D.a]->known[q]=al[Sv.a]->known[q]; } } else c.label("unequal-window assignment"); }
  void destroy(){ int s=pickv(); int a=vs[s]->a; if(vs[s]->owner){ for(size_t i=vs.size();i-- >0;) if(vs[i]->a==a && (int)i!=s){ vs.erase(vs.begin()+i); if((int)i<s) --s; } vs.erase(vs.begin()+s); --internals; hist+="destroy owner; "; al[a].reset(); }
    else { vs.erase(vs.begin()+s); hist+="destroy ["+std::to_string(s)+"]; "; bool used=false; for(auto&v:vs) used=used||v->a==a; if(!used&&al[a]->ext){ check_alloc(a); al[a].reset(); } } }
  void check_alloc(int ai){ Alloc& a=*al[ai]; if(!a.ext) return; for(size_t i=0;i<a.val.size();++i) PBT_REQUIRE(c,a.base[i]==a.val[i],"F04:external-cell","caller memory cell "<<i<<" holds "<<a.base[i]<<", expected "<<a.val[i]<<" after "<<hist);
    for(int i=0;i<G;++i) PBT_REQUIRE(c,a.buf[i]==a.guard[i]&&a.buf[a.buf.size()-1-i]==a.guard[a.buf.size()-1-i],"F04:guard","memory next to the caller's buffer changed after "<<hist); }
  void check(){
    for(size_t i=0;i<al.size();++i) if(al[i]) check_alloc((int)i);
    for(size_t k=0;k<vs.size();++k){ View& v=*vs[k]; Alloc& a=*al[v.a]; const F& f=*v.f; vector<long> cs=cells(v.w); size_t i=0; for(typename F::const_iterator it=f.begin();it!=f.end();++it,++i){ PBT_REQUIRE(c,i<cs.size()&&&*it==a.base+cs[i],"F04:position","field ["<<k<<"] position "<<i<<" is another cell after "<<hist); if(a.known[cs[i]]) PBT_REQUIRE(c,*it==a.val[cs[i]],"F04:cell","field ["<<k<<"] position "<<i<<" holds "<<*it<<", expected "<<a.val[cs[i]]<<" after "<<hist); }
      PBT_REQUIRE(c,i==cs.size(),"F04:position","field ["<<k<<"] iterates "<<i<<" of "<<cs.size()<<" cells"); 
      // cells of internal storage outside every view's window are only checked if known
      if(!a.ext) for(size_t q=0;q<a.val.size();++q) if(a.known[q]) PBT_REQUIRE(c,a.base[q]==a.val[q],"F04:cell","internal storage cell "<<q<<" holds "<<a.base[q]<<", expected "<<a.val[q]<<" after "<<hist); }
    size_t act=SS::Pool<T>::self().active(); PBT_REQUIRE(c,act==active0+internals,"F04:ownership","pool reports "<<act-active0<<" blocks in use for "<<internals<<" owning fields after "<<hist); }
  void run(){ construct(); check(); int n=0; int aliases=0,asg=0; while(c.more(n,12,40)){ int o=c.weighted({4,5,3,4,2}); if(vs.empty()) o=2; switch(o){ case 0: write(); break; case 1: alias(); ++aliases; break; case 2: if(vs.size()<9) construct(); break; case 3: assign(); ++asg; break; default: destroy(); } check(); }
    c.nontrivial(aliases>=1&&asg>=1); c.note(hist); while(!vs.empty()){ destroy(); check(); } }
};
PBT_TARGET("fields-double",4){ World<SS::SVolField> w(c); w.run(); }
PBT_TARGET("fields-float",2){ World<FloatField> w(c); w.run(); }
PBT_MAIN
