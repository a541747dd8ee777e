// E02: region written by an assignment;  E03 (-DINTERIOR): interior assignment;  E05 (-DTHREADS): both, threaded
#include "env.h"
#ifdef THREADS
#include "tune.h"
#endif
using namespace so;
namespace {
#define SO_STR2(x) #x
#define SO_STR(x) SO_STR2(x)
#include TUFILE
#ifdef THREADS
#define ID "E05"
#elif defined(INTERIOR)
#define ID "E03"
#else
#define ID "E02"
#endif
void region(pbt::Case& c){
  const Entry<FT>& en=ENTRIES[c.draw(NENTRIES)];
  GeoOpts o; o.maxn=6; Geo g=gen_geo(c,o); int st=gen_style(c);
  static Env<FT> e; 
#ifdef INTERIOR
  bool bcv=false;
#elif defined(THREADS)
  bool interior=c.chance(1,3), bcv=!interior&&c.chance(1,4);
#else
  bool bcv=c.chance(1,4);
#endif
  e.init(c,g,true,en.uses,st,bcv);
  // cells outside an operand's declared valid region must not matter
  int pz=(int)c.draw(3); double poison= pz==0? std::numeric_limits<double>::quiet_NaN(): pz==1? 1e300: -7e5;
  for(int i=0;i<6;++i) if((en.uses>>i&1) && !(i==5)) e.op(i)->poison_invalid(poison);
  e.save_all(); const MemoryWindow w0=e.t.f->window_with_ghost();
  Ibox tot=e.t.total(), ops=e.operands(en.uses), exp=tot; exp.meet(ops);
  bool aligned=true; for(int d=0;d<3;++d) if(ops.lo[d]>-1000 && (ops.lo[d]!=tot.lo[d]||ops.hi[d]!=tot.hi[d])) aligned=false;
  c.note(string(en.text)+"   target "+Stag<FT>::name()+" "+e.t.g.str()+(aligned?"":"  operands valid over "+ops.str()));
#ifdef THREADS
  string tn=tune(c,*e.t.f,tot.hi[0]-tot.lo[0],tot.hi[1]-tot.lo[1],tot.hi[2]-tot.lo[2]); c.note(string(interior?"interior_assign ":"")+en.text+"   target "+Stag<FT>::name()+" "+e.t.g.str()+(aligned?"":"  operands valid over "+ops.str())+"   "+tn);
#else
  if(!aligned) c.nontrivial();
#endif
  c.label_if(e.t.g.padded(),"target is a sub-window"); c.label_if(bcv,"boundary flags differ"); c.label_if(!aligned,"operand regions differ from the target's");
  c.label_if((en.uses>>6)!=0,"mask"); c.label_if((en.uses>>5&1)!=0,"target on right-hand side");
#ifdef INTERIOR
  bool interior=true;
#elif !defined(THREADS)
  bool interior=false;
#endif
  if(interior){ exp=e.t.interior(); en.iassign(*e.t.f,e); compare(c,ID,e,en,exp,"interior_assign",true,true); }
  else {
  bool lacks=e.lacks_extra(en.uses), threw=false; string why;
  try{ en.assign(*e.t.f,e); }catch(std::exception& x){ threw=true; why=x.what(); }
  if(lacks){ c.label("rejected");
    PBT_REQUIRE(c,threw,ID ":not-rejected","assignment t <<= "<<en.text<<" to "<<Stag<FT>::name()<<" "<<e.t.g.str()<<" accepted although the operands cannot supply the boundary-extra cell");
    e.t.check_untouched(c,ID ":outside","target of a rejected assignment"); }
  else { PBT_REQUIRE(c,!threw,ID ":rejected","assignment t <<= "<<en.text<<" to "<<Stag<FT>::name()<<" "<<e.t.g.str()<<" rejected: "<<why);
    compare(c,ID,e,en,exp,"",true,true); } }
  e.operands_untouched(c,ID ":operand");
  // reported shape of the target stays
  PBT_REQUIRE(c,e.t.f->get_ghost_data()==e.t.g.ghost() && e.t.f->get_valid_ghost_data()==GhostData(e.t.vm[0],e.t.vp[0],e.t.vm[1],e.t.vp[1],e.t.vm[2],e.t.vp[2]) && e.t.f->window_with_ghost()==w0,ID ":shape","window or ghosts of the target changed");
}
PBT_TARGET("region" SO_STR(TU),1){ region(c); }
}
#if TU==0
PBT_MAIN
#endif
