// P01: particle operators against interval-overlap arithmetic on the mesh.
#include "so.h"
#include <spatialops/particles/ParticleFieldTypes.h>
#include <spatialops/particles/ParticleOperators.h>
using namespace so;
typedef SS::SVolField CF; typedef S::Particle::ParticleField PF;
namespace {
struct PBox { vector<double> mem, snap; std::unique_ptr<PF> f; int n; void init(int k){ n=k; mem.assign(k+8,-1e33); f.reset(new PF(MemoryWindow(IntVec(k,1,1)),BoundaryCellInfo::build<PF>(),GhostData(0),&mem[4],SS::ExternalStorage)); } double& operator[](int i){ return mem[4+i]; } };
bool guards(const vector<double>& m){ for(int i=0;i<4;++i) if(m[i]!=-1e33||m[m.size()-1-i]!=-1e33) return false; return true; }
}
PBT_TARGET("transfer",9){
  int ax=(int)c.draw(3), nc=(int)c.range(2,14), np=(int)c.range(1,6); bool exact=c.boolean(); // exact: all arithmetic on short binary fractions
  double dx= exact? std::ldexp(1.0,(int)c.range(-3,2)): 0.05+3*c.unit(); int gh=(int)c.range(0,1); if(nc<4) gh=0; double x0= c.chance(1,3)? -dx/2: c.boolean()? dx/2: exact? dx*c.range(-12,12)/2.0: (c.unit()*2-1)*20*dx; // centre of the first cell
  Geo g; g.n[ax]=nc-2*gh; for(int d=0;d<3;++d) g.gm[d]=g.gp[d]=gh; Box<CF> xc(g), val(g), out(g); for(int i=0;i<nc;++i) xc.data()[i]= exact? x0+i*dx: x0+dx*i; double lo=x0-dx/2, hi=x0+dx*(nc-0.5);
  PBox pc,ps,pv,po; pc.init(np); ps.init(np); pv.init(np); po.init(np); std::ostringstream h; h<<nc<<" cells of "<<num(dx)<<" from "<<num(lo)<<" along "<<"xyz"[ax]<<", particles"; bool span=false, outer=false; double marg= exact?0: 1e-7*dx;
  for(int i=0;i<np;++i){ double s,x; if(exact){ long q=c.range(1,std::min(16*nc,c.boolean()?24:400)); long l=c.range(0,16L*nc-q); s=q*dx/16; x=lo+l*dx/16+s/2; } else { double w=(hi-lo-2*marg); s=w*(c.boolean()?0.02+0.1*c.unit(): 0.001+0.99*c.unit()); double l=lo+marg+(w-s)*c.unit(); x=l+s/2; if(c.chance(1,4)){ l=lo+dx*c.draw(nc); if(l>=lo+marg&&l+s<=hi-marg) x=l+s/2; } }
    pc[i]=x; ps[i]=s; pv[i]= exact? (double)c.range(-40,40): c.posreal()*(c.boolean()?1:-1); if(s>dx) span=true; if(x-s/2<dx*0.5+x0) outer=true; h<<" ("<<num(x)<<" size "<<num(s)<<" value "<<pv[i]<<")"; }
  c.note(h.str()); c.nontrivial(span); c.label_if(outer,"reaches the first cell"); c.label_if(x0!=-dx/2,"origin elsewhere"); c.label_if(exact,"exact arithmetic"); uint64_t sd=c.seed32(); bool konst=c.chance(1,5); for(int i=0;i<nc;++i) val.data()[i]= konst? 7.25: (exact?cellval(sd,SMALLINT,i):cellval(sd,FULL,i)); out.fill(c.seed32(),SMALLINT); out.save(); val.save(); xc.save(); vector<double> c0=pc.mem,s0=ps.mem,v0=pv.mem;
  // model: overlap of [x-s/2,x+s/2] with each cell
  auto frac=[&](int p,int i)->long double{ long double l=(long double)pc[p]-(long double)ps[p]/2, r=(long double)pc[p]+(long double)ps[p]/2, a=(long double)lo+(long double)i*dx, b=a+dx; long double o=std::min(r,b)-std::max(l,a); return o>0? o/ps[p]: 0.0L; };
  std::unique_ptr<S::Particle::ParticleToCell<CF> > p2c; std::unique_ptr<S::Particle::CellToParticle<CF> > c2p; double rel=1e-9; 
  try{ p2c.reset(new S::Particle::ParticleToCell<CF>(*xc.f)); c2p.reset(new S::Particle::CellToParticle<CF>(*xc.f)); }catch(std::exception& e){ c.fail("P01:mesh","uniform mesh rejected: "+h.str()); }
  int reps=1+c.chance(1,6); while(reps--){ try{ p2c->apply_to_field(*pc.f,*ps.f,*pv.f,*out.f); }catch(std::exception& e){ c.fail("P01:domain",string("deposit of particles inside the mesh failed: ")+e.what()+"; "+h.str()); } }
  double scale=0; for(int p=0;p<np;++p) scale+=std::fabs(pv[p]); long double tot=0, want=0; for(int p=0;p<np;++p) want+=pv[p];
  for(int i=0;i<nc;++i){ long double w=0; for(int p=0;p<np;++p) w+=pv[p]*frac(p,i); double got=out.data()[i]; tot+=got; PBT_REQUIRE(c,std::fabs((double)(got-w))<=rel*scale*(1+std::fabs(x0)/dx+nc)*1e-3+1e-13*scale,"P01:deposit","cell "<<i<<" received "<<num(got)<<", overlap gives "<<num((double)w)<<"; "<<h.str()); }
  PBT_REQUIRE(c,std::fabs((double)(tot-want))<=1e-10*scale*(1+std::fabs(x0)/dx),"P01:conserve","mesh total "<<num((double)tot)<<", particle total "<<num((double)want)<<"; "<<h.str());
  try{ c2p->apply_to_field(*pc.f,*ps.f,*val.f,*po.f); }catch(std::exception& e){ c.fail("P01:domain",string("interpolation to particles inside the mesh failed: ")+e.what()+"; "+h.str()); }
  for(int p=0;p<np;++p){ long double w=0; double mx=0; for(int i=0;i<nc;++i){ w+=val.data()[i]*frac(p,i); mx=std::max(mx,std::fabs(val.data()[i])); } PBT_REQUIRE(c,std::fabs((double)(po[p]-w))<=1e-11*mx*(1+std::fabs(x0)/dx+nc)*(1+dx/ps[p]),"P01:gather","particle "<<p<<" received "<<num(po[p])<<", overlap average is "<<num((double)w)<<"; "<<h.str()); if(konst) PBT_REQUIRE(c,std::fabs(po[p]-7.25)<1e-9*(1+std::fabs(x0)/dx)*(1+dx/ps[p]),"P01:constant","a constant field gives "<<num(po[p])<<"; "<<h.str()); }
  for(int i=0;i<(int)out.mem.size();++i){ long f=i-Box<CF>::G; if((f<0||f>=out.g.npts())&&!bits(out.mem[i],out.snap[i])) out.fail_at(c,"P01:outside","mesh field",i); }
  val.check_untouched(c,"P01:source","mesh field"); xc.check_untouched(c,"P01:source","coordinates"); PBT_REQUIRE(c,guards(po.mem)&&c0==pc.mem&&s0==ps.mem&&v0==pv.mem,"P01:source","particle input or guard changed; "<<h.str());
}
PBT_TARGET("nonuniform",1){ int nc=(int)c.range(3,12); Geo g; g.n[0]=nc; Box<CF> xc(g); double dx=0.25+c.unit(); for(int i=0;i<nc;++i) xc.data()[i]=i*dx; bool bend=c.chance(2,3); int k=(int)c.range(0,nc-1); if(bend) xc.data()[k]+=dx*c.oneof({0.3,-0.2,0.01,1e-4}); c.nontrivial(bend); bool t1=false,t2=false; try{ S::Particle::ParticleToCell<CF> a(*xc.f); }catch(std::runtime_error&){ t1=true; } try{ S::Particle::CellToParticle<CF> a(*xc.f); }catch(std::runtime_error&){ t2=true; }
  PBT_REQUIRE(c,t1==bend&&t2==bend,"P01:mesh",(bend?"non-uniform mesh accepted":"uniform mesh rejected")<<", "<<nc<<" cells, moved cell "<<k); }
PBT_MAIN
