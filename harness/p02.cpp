// P02: point extraction and injection.
#include "so.h"
#include <spatialops/pointfield/PointFieldTypes.h>
#include <spatialops/pointfield/PointOperators.h>
#include <numeric>
using namespace so;
typedef S::Point::PointField PF;
namespace {
template<class F> void run(pbt::Case& c){
  GeoOpts o; o.maxn=5; o.maxg=2; Geo g=gen_geo(c,o); gen_pads(c,g,25); Box<F> b(g); if(c.chance(1,3)){ int vm[3],vp[3]; gen_valid(c,b.g,vm,vp,100); b.set_valid(vm,vp); c.label("reduced valid region"); }
  b.fill(c.seed32(),FULL); for(long i=0;i<b.g.npts();++i) b.data()[i]+=i*1e-3; bool mark=c.chance(1,3); vector<size_t> ix; Ibox v=b.valid(); std::unique_ptr<S::Point::FieldToPoint<F> > f2p; std::unique_ptr<S::Point::PointToField<F> > p2f; std::ostringstream h; h<<Stag<F>::name()<<" "<<b.g.str()<<" valid "<<v.str();
  if(mark){ Box<F> m(b.g); m.set_valid(b.vm,b.vp); m.fill_value(1); /* cells outside the region are marked but not part of the field */ uint64_t sd=c.seed32(); int den=(int)c.range(1,6); for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i){ long q=m.g.flat(i,j,k); bool in=pbt::hcomb(sd,q)%den==0; m.at(i,j,k)= in? (q%3?1.0:-0.5): 0.0; if(in) ix.push_back(q); }
    if(ix.empty()){ m.at(v.lo[0],v.lo[1],v.lo[2])=2; ix.push_back(m.g.flat(v.lo[0],v.lo[1],v.lo[2])); } f2p.reset(new S::Point::FieldToPoint<F>(*m.f)); p2f.reset(new S::Point::PointToField<F>(*m.f)); c.label("points given by a marker field"); h<<", marker field selecting "<<ix.size(); }
  else { int k=(int)c.range(1,12); for(int i=0;i<k;++i) ix.push_back(c.draw(b.g.npts())); f2p.reset(new S::Point::FieldToPoint<F>(ix)); p2f.reset(new S::Point::PointToField<F>(ix)); h<<", flat indices"; for(size_t q: ix) h<<" "<<q; }
  c.note(h.str()); std::set<size_t> uniq(ix.begin(),ix.end()); c.nontrivial(uniq.size()>1); c.label_if(uniq.size()<ix.size(),"repeated point"); c.label_if(b.g.padded(),"sub-window");
  size_t n=ix.size(); vector<double> mem(n+8,-1e33); PF pf(MemoryWindow(IntVec((int)n,1,1)),BoundaryCellInfo::build<PF>(),GhostData(0),&mem[4],SS::ExternalStorage);
  b.save(); f2p->apply_to_field(*b.f,pf); b.check_untouched(c,"P02:source","source field of an extraction"); for(size_t i=0;i<n;++i) PBT_REQUIRE(c,same(mem[4+i],b.data()[ix[i]]),"P02:extract","point "<<i<<" is "<<num(mem[4+i])<<", cell "<<ix[i]<<" holds "<<num(b.data()[ix[i]])<<"; "<<h.str());
  p2f->apply_to_field(pf,*b.f); b.check_untouched(c,"P02:identity","field written back from its own points");
  for(size_t i=0;i<n;++i) mem[4+i]=1000+(double)i+c.seed32()%7*0.125; vector<double> want(b.mem); for(size_t i=0;i<n;++i) want[Box<F>::G+ix[i]]=mem[4+i]; vector<double> before(mem); p2f->apply_to_field(pf,*b.f);
  b.snap=want; b.check_untouched(c,"P02:inject","field after injection (expected shown as previous value)"); PBT_REQUIRE(c,before==mem,"P02:source","injection changed the point field; "<<h.str());
  f2p->apply_to_field(*b.f,pf); for(size_t i=0;i<n;++i) PBT_REQUIRE(c,same(mem[4+i],want[Box<F>::G+ix[i]]),"P02:extract","second extraction, point "<<i<<"; "<<h.str()); for(int i=0;i<4;++i) PBT_REQUIRE(c,mem[i]==-1e33&&mem[n+4+i]==-1e33,"P02:outside","extraction wrote outside the point field"); }
}
PBT_TARGET("svol",2){ run<SS::SVolField>(c); }
PBT_TARGET("xvol",2){ run<SS::XVolField>(c); }
PBT_TARGET("zsurfz",1){ run<SS::SSurfZField>(c); }
PBT_MAIN
