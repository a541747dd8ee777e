// F07: integer triplets, ghost data, boundary info and windows with ghosts, against component-wise arithmetic.
#include "so.h"
#include <spatialops/structured/IndexTriplet.h>
#include <spatialops/structured/Numeric3Vec.h>
using namespace so;
struct A3 { long v[3]; };
static A3 gen3(pbt::Case& c,long lo,long hi,long z=0){ A3 a; for(int d=0;d<3;++d) a.v[d]=c.around(lo,hi,z); return a; }
static IntVec iv(const A3& a){ return IntVec((int)a.v[0],(int)a.v[1],(int)a.v[2]); }
static bool eq(const IntVec& a,long x,long y,long z){ return a[0]==x&&a[1]==y&&a[2]==z; }
static string s3(const A3& a){ std::ostringstream o; o<<"("<<a.v[0]<<","<<a.v[1]<<","<<a.v[2]<<")"; return o.str(); }
#define CHK(e,X,Y,Z,key,what) do{ IntVec r_=(e); PBT_REQUIRE(c,eq(r_,X,Y,Z),key,what<<" gives "<<r_<<" for "<<s3(a)<<" and "<<s3(b)<<" (scalar "<<s<<")"); }while(0)
PBT_TARGET("triplets",3){
  long lim=c.chance(1,3)?30000:9; A3 a=gen3(c,-lim,lim), b=c.chance(1,4)?a:gen3(c,-lim,lim); if(c.chance(1,4)){ int d=(int)c.draw(3); b=a; b.v[d]+=1; }
  int s=(int)c.around(-9,9,1); IntVec x=iv(a),y=iv(b); c.nontrivial(a.v[0]!=a.v[1]&&a.v[1]!=a.v[2]); c.note(s3(a)).note(" ").note(s3(b));
  const long*p=a.v,*q=b.v;
  CHK(x+y,p[0]+q[0],p[1]+q[1],p[2]+q[2],"F07:intvec","+"); CHK(x-y,p[0]-q[0],p[1]-q[1],p[2]-q[2],"F07:intvec","-"); CHK(x*y,p[0]*q[0],p[1]*q[1],p[2]*q[2],"F07:intvec","*");
  if(q[0]&&q[1]&&q[2]) CHK(x/y,p[0]/q[0],p[1]/q[1],p[2]/q[2],"F07:intvec","/");
  CHK(x+s,p[0]+s,p[1]+s,p[2]+s,"F07:intvec","+scalar"); CHK(x*s,p[0]*s,p[1]*s,p[2]*s,"F07:intvec","*scalar"); if(s) CHK(x/s,p[0]/s,p[1]/s,p[2]/s,"F07:intvec","/scalar");
  { IntVec z(x); IntVec& r=(z+=y); CHK(z,p[0]+q[0],p[1]+q[1],p[2]+q[2],"F07:intvec","+="); PBT_REQUIRE(c,&r==&z,"F07:intvec","+= does not return its target"); z-=y; CHK(z,p[0],p[1],p[2],"F07:intvec","+= then -="); z-=y; CHK(z,p[0]-q[0],p[1]-q[1],p[2]-q[2],"F07:intvec","-="); }
  CHK(min(x,y),std::min(p[0],q[0]),std::min(p[1],q[1]),std::min(p[2],q[2]),"F07:intvec","min");
  bool same=p[0]==q[0]&&p[1]==q[1]&&p[2]==q[2];
  PBT_REQUIRE(c,(x==y)==same && (x!=y)==!same,"F07:intvec-eq","equality of "<<s3(a)<<" and "<<s3(b)<<" is "<<(x==y)<<"/"<<(x!=y)); PBT_REQUIRE(c,x.sum()==p[0]+p[1]+p[2],"F07:intvec","sum of "<<s3(a)<<" is "<<x.sum());
  { int raw[3]={(int)p[0],(int)p[1],(int)p[2]}; vector<int> vv(raw,raw+3); SS::Numeric3Vec<double> dv(x); IntVec back(dv); IntVec z; z=x; PBT_REQUIRE(c,IntVec(raw)==x&&IntVec(vv)==x&&back==x&&z==x&&eq(IntVec(),0,0,0),"F07:intvec","construction of "<<s3(a)); }
}
struct G6 { long m[3],p[3]; };
static G6 gen6(pbt::Case& c,long lim){ G6 g; for(int d=0;d<3;++d){ g.m[d]=c.range(0,lim); g.p[d]=c.range(0,lim); } return g; }
static GhostData gd(const G6& g,int how){ if(how==1) return GhostData(IntVec(g.m[0],g.m[1],g.m[2]),IntVec(g.p[0],g.p[1],g.p[2])); if(how==2){ GhostData r(0); r.set_minus(IntVec(g.m[0],g.m[1],g.m[2])); r.set_plus(IntVec(g.p[0],g.p[1],g.p[2])); return r; } return GhostData(g.m[0],g.p[0],g.m[1],g.p[1],g.m[2],g.p[2]); }
static bool is(const GhostData& g,const G6& r){ for(int d=0;d<3;++d) if(g.get_minus(d)!=r.m[d]||g.get_plus(d)!=r.p[d]||g.get_minus()[d]!=r.m[d]||g.get_plus()[d]!=r.p[d]) return false; return true; }
template<class O> static G6 zip(const G6& a,const G6& b,O o){ G6 r; for(int d=0;d<3;++d){ r.m[d]=o(a.m[d],b.m[d]); r.p[d]=o(a.p[d],b.p[d]); } return r; }
PBT_TARGET("ghosts",3){
  long lim=c.chance(1,4)?3000:6; G6 a=gen6(c,lim), b=gen6(c,lim); int how=(int)c.draw(3); if(c.chance(1,4)){ b=a; if(c.boolean()) (c.boolean()?b.m:b.p)[c.draw(3)]++; }
  GhostData x=gd(a,how), y=gd(b,(int)c.draw(3)); std::ostringstream ds; ds<<x<<" "<<y; string S=ds.str(); c.note(S); bool sameab=true; for(int d=0;d<3;++d) sameab=sameab&&a.m[d]==b.m[d]&&a.p[d]==b.p[d]; c.nontrivial(!sameab);
  PBT_REQUIRE(c,is(x,a)&&is(y,b),"F07:ghost-build","construction "<<S);
  auto mn=[](long u,long v){return std::min(u,v);}; auto pl=[](long u,long v){return u+v;}; 
  G6 sum=zip(a,b,pl), mi=zip(a,b,mn);
  PBT_REQUIRE(c,is(x+y,sum)&&is(y+x,sum),"F07:ghost-add",S<<": sum "<<(x+y)); PBT_REQUIRE(c,is(min(x,y),mi)&&is(min(y,x),mi),"F07:ghost-min",S<<": min "<<min(x,y));
  GhostData z(x); z+=y; PBT_REQUIRE(c,is(z,sum),"F07:ghost-add",S<<": += "<<z); PBT_REQUIRE(c,is(z-y,a),"F07:ghost-sub",S<<": (a+b)-b = "<<(z-y)); z-=x; PBT_REQUIRE(c,is(z,b),"F07:ghost-sub",S<<": (a+b)-=a gives "<<z);
  PBT_REQUIRE(c,(x==y)==sameab && x==x,"F07:ghost-eq",S<<": == gives "<<(x==y)); GhostData w(0); w=x; PBT_REQUIRE(c,is(w,a)&&w==x,"F07:ghost-copy",S);
  int k=(int)c.range(0,5); GhostData u(k); G6 ku; for(int d=0;d<3;++d) ku.m[d]=ku.p[d]=k; PBT_REQUIRE(c,is(u,ku),"F07:ghost-build","GhostData("<<k<<") = "<<u);
  // scalars are represented by unlimited ghosts: absorbing for +, neutral for min, not subtractable
  GhostData inf(GHOST_MAX); G6 gi; for(int d=0;d<3;++d) gi.m[d]=gi.p[d]=GHOST_MAX;
  PBT_REQUIRE(c,is(x+inf,gi)&&is(inf+x,gi),"F07:ghost-inf",S<<" + unlimited = "<<(x+inf)<<" / "<<(inf+x)); PBT_REQUIRE(c,is(min(x,inf),a)&&is(min(inf,x),a),"F07:ghost-inf",S<<": min with unlimited = "<<min(x,inf));
  bool th=false; try{ GhostData t=x-inf; (void)t; }catch(std::runtime_error&){ th=true; } PBT_REQUIRE(c,th,"F07:ghost-inf","subtracting unlimited ghosts is not rejected");
  { GhostData mm=min(x,inf); PBT_REQUIRE(c,is((mm+y)-y,a),"F07:ghost-inf",S<<": ghosts limited by a field still behave as unlimited"); }
}
// histories: ghost records changed side by side, with sides that become unlimited and limited again; a record is unlimited exactly when both of its sides currently are
static bool unlim(const G6& g){ for(int d=0;d<3;++d) if(g.m[d]<GHOST_MAX||g.p[d]<GHOST_MAX) return false; return true; }
PBT_TARGET("ghost-history",2){
  vector<GhostData> r; vector<G6> m; for(int i=0;i<3;++i){ G6 g=gen6(c,5); r.push_back(gd(g,(int)c.draw(3))); m.push_back(g); }
  std::ostringstream log; int infs=0; int k=0; while(c.more(k,7,25)){ int i=(int)c.draw(3), j=(int)c.draw(3); 
    switch(c.weighted({3,3,3,2,2,1,1})){
     case 0: case 1: { bool plus=c.boolean(); long v[3]; if(c.chance(2,5)){ for(int d=0;d<3;++d) v[d]=GHOST_MAX; } else for(int d=0;d<3;++d) v[d]=c.range(0,5); IntVec x(v[0],v[1],v[2]); if(plus) r[i].set_plus(x); else r[i].set_minus(x); for(int d=0;d<3;++d) (plus?m[i].p:m[i].m)[d]=v[d]; log<<i<<(plus?".plus=":".minus=")<<x<<"; "; break; }
     case 2: { G6 s; bool iu=unlim(m[i]), ju=unlim(m[j]); if(iu) s=m[i]; else if(ju) s=m[j]; else { s=zip(m[i],m[j],[](long u,long v){return u+v;}); if(unlim(s)) break; } if(s.m[0]>100000||s.p[0]>100000) break; infs+=iu!=ju; if(c.boolean()) r[i]+=r[j]; else r[i]=r[i]+r[j]; m[i]=s; log<<i<<"+="<<j<<"; "; break; }
     case 3: { if(unlim(m[i])) break; if(unlim(m[j])){ bool th=false; try{ r[i]-=r[j]; }catch(std::runtime_error&){ th=true; } log<<i<<"-="<<j<<" (unlimited); "; PBT_REQUIRE(c,th,"F07:ghost-inf",log.str()<<"subtracting unlimited ghosts is not rejected"); ++infs; break; }
       bool ok=true; for(int d=0;d<3;++d) ok=ok&&m[i].m[d]>=m[j].m[d]&&m[i].p[d]>=m[j].p[d]; if(!ok) break; r[i]-=r[j]; m[i]=zip(m[i],m[j],[](long u,long v){return u-v;}); log<<i<<"-="<<j<<"; "; break; }
     case 4: r[i]=r[j]; m[i]=m[j]; log<<i<<"="<<j<<"; "; break;
     case 5: r[i]=min(r[i],r[j]); m[i]=zip(m[i],m[j],[](long u,long v){return std::min(u,v);}); log<<i<<"=min("<<i<<","<<j<<"); "; break;
     default: { GhostData t(r[j]); r[i]=t; m[i]=m[j]; log<<i<<"=copy "<<j<<"; "; } }
    for(int q=0;q<3;++q) PBT_REQUIRE(c,is(r[q],m[q]),"F07:ghost-history",log.str()<<"record "<<q<<" is "<<r[q]);
    PBT_REQUIRE(c,(r[i]==r[j])==(std::equal(m[i].m,m[i].m+3,m[j].m)&&std::equal(m[i].p,m[i].p+3,m[j].p)),"F07:ghost-history",log.str()<<"equality of "<<r[i]<<" and "<<r[j]); }
  c.note(log.str()); c.nontrivial(infs>0); c.label_if(infs>1,"several unlimited operands");
}
PBT_TARGET("point-to-ghost",1){
  A3 a=gen3(c,-5,5); c.nontrivial(a.v[0]&&a.v[1]); c.note(s3(a)); GhostData g=SS::point_to_ghost(iv(a)); G6 r; for(int d=0;d<3;++d){ r.m[d]=a.v[d]<0?-a.v[d]:0; r.p[d]=a.v[d]>0?a.v[d]:0; }
  PBT_REQUIRE(c,is(g,r),"F07:point-to-ghost","point "<<s3(a)<<" needs ghosts "<<g); }
template<class F> static void bcw(pbt::Case& c){
  Geo g=Geo::of<F>(gen_geo(c)); c.note(Stag<F>::name()).note(" ").note(g.str()); bool any=g.bc[0]||g.bc[1]||g.bc[2]; c.nontrivial(any); 
  BoundaryCellInfo b=g.template bcinfo<F>(); if(c.boolean()) b=BoundaryCellInfo::build<F>(IntVec(g.bc[0],g.bc[1],g.bc[2])); if(c.boolean()){ BoundaryCellInfo t(b); BoundaryCellInfo u=BoundaryCellInfo::build<F>(); for(int d=0;d<3;++d) PBT_REQUIRE(c,!u.has_bc(d)&&!u.has_extra(d),"F07:bc",Stag<F>::name()<<": no boundary, but boundary information reported"); u=t; b=u; }
  MemoryWindow w=SS::get_window_with_ghost(IntVec(g.n[0],g.n[1],g.n[2]),g.ghost(),b);
  for(int d=0;d<3;++d){ int ex=(g.bc[d]&&Stag<F>::dir==d)?1:0; c.label_if(ex,"boundary-extra cell");
    PBT_REQUIRE(c,(bool)b.has_bc(d)==g.bc[d]&&(b.has_bc()[d]!=0)==g.bc[d],"F07:bc",Stag<F>::name()<<" "<<g.str()<<": has_bc("<<d<<") = "<<b.has_bc(d));
    PBT_REQUIRE(c,b.has_extra(d)==ex&&b.has_extra()[d]==ex&&(!g.bc[d]||(b.num_extra(d)==ex&&b.num_extra()[d]==ex)),"F07:extra",Stag<F>::name()<<" "<<g.str()<<": has_extra("<<d<<") = "<<b.has_extra(d)<<", expected "<<ex);
    PBT_REQUIRE(c,w.extent()[d]==g.glob(d)&&w.glob_dim()[d]==g.glob(d)&&w.offset()[d]==0,"F07:window",Stag<F>::name()<<" "<<g.str()<<": window "<<w<<", expected extent "<<g.glob(d)<<" in direction "<<d); 
    PBT_REQUIRE(c,SS::get_dim_with_ghost(g.n[d],g.gm[d],g.gp[d],ex)==g.glob(d),"F07:dim",Stag<F>::name()<<" "<<g.str()<<": direction "<<d); }
  // a field over that window reports the interior inside it
  vector<double> mem(g.npts()); F f(w,b,g.ghost(),mem.data(),S::structured::ExternalStorage); const MemoryWindow& i=f.window_without_ghost();
  for(int d=0;d<3;++d) PBT_REQUIRE(c,i.offset()[d]==g.m(d)&&i.extent()[d]==g.n[d]+g.e(d)&&f.window_with_ghost().extent()[d]==g.glob(d),"F07:interior",Stag<F>::name()<<" "<<g.str()<<": interior window "<<i);
  PBT_REQUIRE(c,f.get_ghost_data()==g.ghost()&&f.get_valid_ghost_data()==g.ghost(),"F07:field-ghost",Stag<F>::name()<<" "<<g.str()<<": field reports ghosts "<<f.get_ghost_data());
  // narrowing the valid ghosts narrows the window by the same amount on each face
  int vm[3],vp[3]; gen_valid(c,g,vm,vp,100); f.reset_valid_ghosts(GhostData(vm[0],vp[0],vm[1],vp[1],vm[2],vp[2])); const MemoryWindow& v=f.window_with_ghost();
  for(int d=0;d<3;++d) PBT_REQUIRE(c,v.offset()[d]==(g.thin(d)?0:g.gm[d]-vm[d])&&v.extent()[d]==(g.thin(d)?1:g.n[d]+g.e(d)+vm[d]+vp[d])&&i.offset()[d]==g.m(d)&&v.glob_dim()[d]==g.glob(d),"F07:reset-ghosts",Stag<F>::name()<<" "<<g.str()<<": window "<<v<<" after reducing the valid ghosts to "<<f.get_valid_ghost_data());
}
PBT_TARGET("boundary-and-window",4){
  using namespace SS;
  switch(c.draw(16)){ 
   case 0: bcw<SVolField>(c); break; case 1: bcw<SSurfXField>(c); break; case 2: bcw<SSurfYField>(c); break; case 3: bcw<SSurfZField>(c); break;
   case 4: bcw<XVolField>(c); break; case 5: bcw<XSurfXField>(c); break; case 6: bcw<XSurfYField>(c); break; case 7: bcw<XSurfZField>(c); break;
   case 8: bcw<YVolField>(c); break; case 9: bcw<YSurfXField>(c); break; case 10: bcw<YSurfYField>(c); break; case 11: bcw<YSurfZField>(c); break;
   case 12: bcw<ZVolField>(c); break; case 13: bcw<ZSurfXField>(c); break; case 14: bcw<ZSurfYField>(c); break; default: bcw<ZSurfZField>(c); }
}
// compile-time triplet arithmetic, evaluated for a fixed spread of triplets
template<class A,class B> static void ct(pbt::Case& c,const char* n){
  IntVec a=A::int_vec(), b=B::int_vec(); IntVec s=SS::Add<A,B>::result::int_vec(), d=SS::Subtract<A,B>::result::int_vec(), ng=A::Negate::int_vec(), ab=A::Abs::int_vec(), pz=A::PositiveOrZero::int_vec();
  for(int k=0;k<3;++k) PBT_REQUIRE(c,s[k]==a[k]+b[k]&&d[k]==a[k]-b[k]&&ng[k]==-a[k]&&ab[k]==std::abs(a[k])&&pz[k]==std::max(0,a[k]),"F07:static-triplet",n<<": component "<<k);
}
PBT_TARGET("static-triplets",1){
  using SS::IndexTriplet; c.nontrivial();
  switch(c.draw(6)){ case 0: ct<IndexTriplet<1,-2,3>,IndexTriplet<-1,4,0> >(c,"a"); break; case 1: ct<IndexTriplet<0,0,-1>,IndexTriplet<5,-7,2> >(c,"b"); break; case 2: ct<IndexTriplet<-3,2,1>,IndexTriplet<2,2,-2> >(c,"c"); break;
    case 3: ct<IndexTriplet<7,0,-5>,IndexTriplet<0,1,0> >(c,"d"); break; case 4: ct<IndexTriplet<-1,-1,-1>,IndexTriplet<1,0,2> >(c,"e"); break; default: ct<IndexTriplet<2,-1,0>,IndexTriplet<-4,3,-6> >(c,"f"); }
  PBT_REQUIRE(c,(SS::UnitTriplet<S::XDIR>::type::int_vec()==IntVec(1,0,0))&&(SS::UnitTriplet<S::YDIR>::type::int_vec()==IntVec(0,1,0))&&(SS::UnitTriplet<S::ZDIR>::type::int_vec()==IntVec(0,0,1)),"F07:static-triplet","unit triplets");
}
PBT_MAIN
