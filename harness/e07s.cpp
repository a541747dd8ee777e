// E07: masks carried to a neighbouring field type by the mask-shift operators, in assignments, interior assignments and reductions;  E05 (-DTHREADS): the same, threaded;  S02 (-DS02): the same, for its regions
#include "env.h"
#include <spatialops/NeboStencilBuilder.h>
#ifdef THREADS
#include "tune.h"
#define ID "E05"
#elif defined(S02)
#define ID "S02"
#else
#define ID "E07"
#endif
using namespace so;
namespace {
template<class A,class B> void shift(pbt::Case& c,const int* oa,const int* ob){
  GeoOpts o; o.maxn=6; Geo base=gen_dims(c,o); int off[2][3], mo[3], Mo[3]; // offsets of the mask point read for a destination cell: [0] minus side, [1] plus side
  for(int d=0;d<3;++d){ off[0][d]= oa[d]<ob[d]? 1: 0; off[1][d]= oa[d]>ob[d]? -1: 0; if(oa[d]!=ob[d]&&base.n[d]==1) base.n[d]=(int)c.range(2,6); }
  int kind=(int)c.draw(4), mode=c.weighted({4,2,3}); bool um= kind!=1, up= kind==1||kind==2;
  for(int d=0;d<3;++d){ mo[d]=0; Mo[d]=0; if(um){ mo[d]=std::min(mo[d],off[0][d]); Mo[d]=std::max(Mo[d],off[0][d]); } if(up){ mo[d]=std::min(mo[d],off[1][d]); Mo[d]=std::max(Mo[d],off[1][d]); } }
  Geo gm=Geo::of<A>(base), gt=Geo::of<B>(base), ga, gk; gen_ghosts(c,gt); ga=gt; if(c.boolean()) gen_ghosts(c,ga); gk=gt; if(c.boolean()) gen_ghosts(c,gk); int vm[3],vp[3];
  for(int d=0;d<3;++d){ int nm=std::max(0,-mo[d]), np=std::max(0,Mo[d]+(int)(gt.bc[d]&&gt.sdir==d)-(int)(gm.bc[d]&&gm.sdir==d)); gm.gm[d]=nm+(int)c.draw(4); gm.gp[d]=np+(int)c.draw(4); vm[d]=gm.gm[d]; vp[d]=gm.gp[d]; if(c.chance(1,3)){ vm[d]=(int)c.range(nm,gm.gm[d]); vp[d]=(int)c.range(np,gm.gp[d]); } }
  gen_pads(c,gt,30); gen_pads(c,gm,30); gen_pads(c,ga,30);
  static MaskBox<A> m; m.init(c,gm,vm,vp,c.boolean()); static Box<B> t,a; t.init(gt); a.init(ga); int am[3],ap[3]; gen_valid(c,a.g,am,ap); a.set_valid(am,ap); a.fill(c.seed32(),SMALLINT); a.poison_invalid(1e300); a.save(); t.fill(c.seed32(),FULL); t.save();
  static MaskBox<B> k; if(kind==3){ int km[3],kp[3]; gen_valid(c,Geo::of<B>(gk),km,kp); k.init(c,gk,km,kp); }
  S::NeboMaskShiftBuilder<A,B> sb; const SS::SpatialMask<A>& M=*m.m;
  // sure: cells that must be part of the result; may: cells whose operands are all defined.  (the sides the shift moves away from need not be used)
  Ibox mv=m.proto.valid(), sure, may; for(int d=0;d<3;++d){ if(base.n[d]==1){ sure.lo[d]=may.lo[d]=0; sure.hi[d]=may.hi[d]=1; continue; } sure.lo[d]=mv.lo[d]-mo[d]; sure.hi[d]=mv.hi[d]-Mo[d]; may.lo[d]=may.hi[d]=0; bool first=true; for(int s=0;s<2;++s) if(s?up:um){ int l=mv.lo[d]-off[s][d], h=mv.hi[d]-off[s][d]; if(first||l>may.lo[d]) may.lo[d]=l; if(first||h<may.hi[d]) may.hi[d]=h; first=false; } }
  if(kind>0){ sure.meet(a.valid()); may.meet(a.valid()); } if(kind==3){ sure.meet(k.proto.valid()); may.meet(k.proto.valid()); }
  if(mode==0){ sure.meet(t.total()); may.meet(t.total()); } if(mode==1){ sure=t.interior(); may=sure; }
  std::ostringstream h; static const char* kn[4]={"cond(minus,5)(-5)","cond(plus,a)(a+100)","cond(!minus && a>0, 7)(plus,a)(9)","cond(minus || mask,a)(3)"}; h<<(mode==0?"t <<= ":mode==1?"interior_assign ":"sum and max of ")<<kn[kind]<<"; mask of "<<Stag<A>::name()<<" "<<m.proto.g.str()<<" valid "<<mv.str()<<" with "<<m.pts.size()<<" points; on "<<Stag<B>::name()<<" "<<t.g.str(); if(kind) h<<", a "<<a.g.str()<<" valid "<<a.valid().str(); if(kind==3) h<<", mask valid "<<k.proto.valid().str();
#ifdef THREADS
  if(mode==2) { c.discard(); return; }
  { Ibox T=t.total(); h<<" "<<tune(c,*t.f,T.hi[0]-T.lo[0],T.hi[1]-T.lo[1],T.hi[2]-T.lo[2]); }
#else
  c.nontrivial(!m.pts.empty());
#endif
  c.note(h.str()); c.label(mode==0?"assign":mode==1?"interior_assign":"reduction"); { Ibox x=sure; x.meet(t.total()); bool lim=false; for(int d=0;d<3;++d) lim=lim||x.lo[d]>t.g.lo(d)||x.hi[d]<t.g.hi(d); c.label_if(lim&&mode==0,"operands limit the region"); }
  auto val=[&](int x,int y,int z)->double{ bool mi=um&&m.get(x+off[0][0],y+off[0][1],z+off[0][2]), pl=up&&m.get(x+off[1][0],y+off[1][1],z+off[1][2]); double av=kind? a.at(x,y,z): 0; switch(kind){ case 0: return mi?5.0:-5.0; case 1: return pl?av:av+100.0; case 2: return !mi&&av>0.0? 7.0: pl? av: 9.0; default: return mi||k.get(x,y,z)? av: 3.0; } };
  using namespace SpatialOps; double sum=0,mx=0;
  try{
#define EACH(BODY) switch(kind){ case 0: { BODY(cond(sb.minus(M),5.0)(-5.0)) break; } case 1: { BODY(cond(sb.plus(M),*a.f)(*a.f+100.0)) break; } case 2: { BODY(cond(!sb.minus(M) && *a.f>0.0,7.0)(sb.plus(M),*a.f)(9.0)) break; } default: { BODY(cond(sb.minus(M) || *k.m,*a.f)(3.0)) } }
#define ASG(e) *t.f <<= e;
#define IAS(e) interior_assign(*t.f, e);
#define RED(e) sum=nebo_sum(e); mx=nebo_max(e);
    if(mode==0) EACH(ASG) else if(mode==1) EACH(IAS)
#ifndef THREADS
    else EACH(RED)
#endif
  }catch(std::exception& e){ c.fail(ID ":shift-rejected",string(e.what())+"; "+h.str()); }
  if(mode<2) for(size_t p=0;p<t.mem.size();++p){ long f=(long)p-Box<B>::G; int q[3]; bool must=false, can=false; if(f>=0&&f<t.g.npts()){ t.g.ijk(f,q); must=sure.has(q[0],q[1],q[2]); can=may.has(q[0],q[1],q[2]); }
    if(!can){ if(!bits(t.mem[p],t.snap[p])) t.fail_at(c,ID ":shift-outside",h.str().c_str(),p); continue; } if(!must&&bits(t.mem[p],t.snap[p])) continue; double w=val(q[0],q[1],q[2]); PBT_REQUIRE(c,t.mem[p]==w,ID ":shift","cell "<<ijks(q[0],q[1],q[2])<<" is "<<t.mem[p]<<", expected "<<w<<"; "<<h.str()); }
  else { double S[2]={0,0}, X[2]={-1e308,-1e308}; const Ibox* bx[2]={&sure,&may}; for(int s=0;s<2;++s) for(int z=bx[s]->lo[2];z<bx[s]->hi[2];++z) for(int y=bx[s]->lo[1];y<bx[s]->hi[1];++y) for(int x=bx[s]->lo[0];x<bx[s]->hi[0];++x){ double v=val(x,y,z); S[s]+=v; X[s]=std::max(X[s],v); }
    PBT_REQUIRE(c,(sum==S[0]&&mx==X[0])||(sum==S[1]&&mx==X[1]),ID ":shift-reduce","sum "<<sum<<" and maximum "<<mx<<", expected "<<S[0]<<" and "<<X[0]<<" over "<<sure.str()<<"; "<<h.str()); t.check_untouched(c,ID ":shift-outside","bystander"); }
  if(kind) a.check_untouched(c,ID ":shift-operand","operand");
}
struct Z3 { int v[3]; };
template<class A,class B> void shiftz(pbt::Case& c,Z3 a,Z3 b){ shift<A,B>(c,a.v,b.v); }
const Z3 SV={{0,0,0}}, X={{-1,0,0}}, Y={{0,-1,0}}, Zz={{0,0,-1}}, XY={{-1,-1,0}}, XZ={{-1,0,-1}}, YZ={{0,-1,-1}};
using namespace SS;
#define TGT(n) PBT_TARGET("shift" n,1)
#if TU==0
TGT("0"){ switch(c.draw(4)){ case 0: shiftz<SVolField,SSurfXField>(c,SV,X); break; case 1: shiftz<SSurfXField,SVolField>(c,X,SV); break; case 2: shiftz<SVolField,SSurfYField>(c,SV,Y); break; default: shiftz<SSurfYField,SVolField>(c,Y,SV); } }
#elif TU==1
TGT("1"){ switch(c.draw(4)){ case 0: shiftz<SSurfZField,SVolField>(c,Zz,SV); break; case 1: shiftz<SVolField,SSurfZField>(c,SV,Zz); break; case 2: shiftz<XVolField,XSurfXField>(c,X,SV); break; default: shiftz<XSurfXField,XVolField>(c,SV,X); } }
#elif TU==2
TGT("2"){ switch(c.draw(4)){ case 0: shiftz<XVolField,XSurfYField>(c,X,XY); break; case 1: shiftz<XSurfYField,XVolField>(c,XY,X); break; case 2: shiftz<SVolField,YVolField>(c,SV,Y); break; default: shiftz<ZVolField,SVolField>(c,Zz,SV); } }
#else
TGT("3"){ switch(c.draw(4)){ case 0: shiftz<YSurfZField,YVolField>(c,YZ,Y); break; case 1: shiftz<ZVolField,ZSurfXField>(c,Zz,XZ); break; case 2: shiftz<YVolField,YSurfYField>(c,Y,SV); break; default: shiftz<ZSurfZField,ZVolField>(c,SV,Zz); } }
#endif
}
#if TU==0
PBT_MAIN
#endif
