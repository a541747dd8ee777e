// F02: MemoryWindow::refine.  Oracle: every cell of the parent belongs to exactly one part; order and balance.
#include "pbt.h"
#include <spatialops/structured/MemoryWindow.h>
using namespace SpatialOps::structured;
PBT_TARGET("tiling",1){
  int g[3],o[3],e[3],s[3]; bool big=c.chance(1,4);
  for(int d=0;d<3;++d){ int lim=big?40:9; g[d]=c.chance(1,5)?1:(int)c.range(1,lim); e[d]=(int)c.range(1,g[d]); o[d]=(int)c.range(0,g[d]-e[d]); if(c.chance(1,3)){ e[d]=g[d]; o[d]=0; }
    s[d]=c.chance(1,3)?1:(int)c.range(1,std::min(e[d],8)); }
  MemoryWindow w(g,o,e); IntVec sp(s[0],s[1],s[2]); std::ostringstream ds; ds<<w<<" split "<<sp; std::string S=ds.str(); c.note(S);
  bool uneven=false; for(int d=0;d<3;++d) uneven=uneven||e[d]%s[d]; c.nontrivial(s[0]*s[1]*s[2]>1 && uneven); c.label_if(uneven,"uneven split"); c.label_if(!uneven,"even split");
  std::vector<int> own(g[0]*g[1]*g[2],-1); int mn[3]={1<<30,1<<30,1<<30},mx[3]={0,0,0}; long tot=0; std::vector<MemoryWindow> parts; 
  for(int k=0;k<s[2];++k) for(int j=0;j<s[1];++j) for(int i=0;i<s[0];++i){
    MemoryWindow p=w.refine(sp,IntVec(i,j,k)); int loc[3]={i,j,k}; int id=(int)parts.size(); parts.push_back(p);
    PBT_REQUIRE(c,p.glob_dim()==w.glob_dim(),"F02:glob",S<<": part "<<p<<" has another allocation");
    for(int d=0;d<3;++d){ PBT_REQUIRE(c,p.extent()[d]>=1,"F02:empty",S<<": part "<<IntVec(i,j,k)<<" is empty: "<<p);
      PBT_REQUIRE(c,p.offset()[d]>=o[d] && p.offset()[d]+p.extent()[d]<=o[d]+e[d],"F02:outside",S<<": part "<<IntVec(i,j,k)<<" = "<<p<<" leaves the parent");
      mn[d]=std::min(mn[d],p.extent()[d]); mx[d]=std::max(mx[d],p.extent()[d]);
      // order: the part with the next location starts where this one ends
      if(loc[d]+1<s[d]){ IntVec nl(i,j,k); nl[d]++; MemoryWindow q=w.refine(sp,nl); PBT_REQUIRE(c,q.offset()[d]==p.offset()[d]+p.extent()[d],"F02:order",S<<": part "<<nl<<" does not follow part "<<IntVec(i,j,k)); } }
    for(int z=0;z<p.extent()[2];++z) for(int y=0;y<p.extent()[1];++y) for(int x=0;x<p.extent()[0];++x){ int f=(p.offset()[0]+x)+g[0]*((p.offset()[1]+y)+g[1]*(p.offset()[2]+z));
      PBT_REQUIRE(c,own[f]<0,"F02:overlap",S<<": parts "<<own[f]<<" and "<<id<<" overlap"); own[f]=id; ++tot; } }
  PBT_REQUIRE(c,tot==(long)e[0]*e[1]*e[2],"F02:cover",S<<": parts cover "<<tot<<" of "<<e[0]*e[1]*e[2]<<" cells");
  for(int d=0;d<3;++d) PBT_REQUIRE(c,mx[d]-mn[d]<=1,"F02:balance",S<<": extents in direction "<<d<<" range from "<<mn[d]<<" to "<<mx[d]);
  // splitting a part again tiles that part
  const MemoryWindow& p=parts[c.draw(parts.size())]; IntVec s2(1+c.draw(p.extent()[0]),1+c.draw(p.extent()[1]),1+c.draw(p.extent()[2])); long t2=0;
  for(int k=0;k<s2[2];++k) for(int j=0;j<s2[1];++j) for(int i=0;i<s2[0];++i){ MemoryWindow q=p.refine(s2,IntVec(i,j,k)); t2+=q.local_npts(); for(int d=0;d<3;++d) PBT_REQUIRE(c,q.offset()[d]>=p.offset()[d]&&q.offset()[d]+q.extent()[d]<=p.offset()[d]+p.extent()[d],"F02:outside",S<<": sub-part leaves its part"); }
  PBT_REQUIRE(c,t2==(long)p.local_npts(),"F02:cover",S<<": splitting a part covers "<<t2<<" of "<<p.local_npts());
}
// windows far too large to enumerate: the parts along each direction are compared arithmetically, at every location for small splits and at sampled ones for large
PBT_TARGET("large",1){
  auto U=[&]{ return std::min(0.999999999,c.unit()+c.unit()/(1<<20)); };
  const long lim=2147483647L; int g[3]={1,1,1},o[3],e[3],s[3]; long left=lim; int first=(int)c.draw(3);
  for(int q=0;q<3;++q){ int d=(first+q)%3; long m=std::min(left,1L<<c.range(1,31)); long v=c.chance(1,4)?m:1+(long)(U()*(m-1)); v=std::max(1L,std::min(v,left)); g[d]=(int)v; left/=v; }
  for(int d=0;d<3;++d){ e[d]=c.chance(1,2)?g[d]:std::max(1,g[d]-(int)c.range(0,std::min(g[d]-1,1000))); o[d]=(int)c.range(0,std::min(g[d]-e[d],1000)); 
    s[d]=c.chance(1,6)?e[d]:c.chance(1,4)?1+(int)(U()*(e[d]-1)):(int)c.range(1,std::min(e[d],300)); }
  MemoryWindow w(g,o,e); IntVec sp(s[0],s[1],s[2]); std::ostringstream ds; ds<<w<<" split "<<sp; std::string S=ds.str(); c.note(S);
  c.nontrivial(e[0]%s[0]||e[1]%s[1]||e[2]%s[2]); c.label_if(std::max(e[0],std::max(e[1],e[2]))>(1<<24),"extent over 2^24"); c.label_if(s[0]>300||s[1]>300||s[2]>300,"many parts");
  auto part=[&](int i,int j,int k)->MemoryWindow{ MemoryWindow p=w.refine(sp,IntVec(i,j,k));
    if(!(p.glob_dim()==w.glob_dim())) c.fail("F02:glob",S+": a part has another allocation");
    for(int d=0;d<3;++d){ long a=p.offset()[d],n=p.extent()[d]; PBT_REQUIRE(c,n>=1,"F02:empty",S<<": part "<<IntVec(i,j,k)<<" is empty: "<<p);
      PBT_REQUIRE(c,a>=o[d]&&a+n<=(long)o[d]+e[d],"F02:outside",S<<": part "<<IntVec(i,j,k)<<" = "<<p<<" leaves the parent");
      PBT_REQUIRE(c,n==e[d]/s[d]||n==e[d]/s[d]+(e[d]%s[d]?1:0),"F02:balance",S<<": part "<<IntVec(i,j,k)<<" = "<<p<<" has "<<n<<" cells in direction "<<d<<" for "<<e[d]<<" in "<<s[d]<<" parts"); }
    return p; };
  for(int d=0;d<3;++d){ int base[3]; for(int q=0;q<3;++q) base[q]=(int)(U()*s[q]); bool all=s[d]<=300; int cnt=all?s[d]:60;
    for(int t=0;t<cnt;++t){ int l=all?t:t==0?0:t==1?s[d]-1:t==2?e[d]%s[d]:t==3&&e[d]%s[d]?e[d]%s[d]-1:std::min(s[d]-1,(int)(U()*s[d])); int a[3]={base[0],base[1],base[2]}; a[d]=l; MemoryWindow p=part(a[0],a[1],a[2]);
      if(l==0) PBT_REQUIRE(c,p.offset()[d]==o[d],"F02:cover",S<<": the first part "<<p<<" does not start where the parent does in direction "<<d);
      if(l+1==s[d]) PBT_REQUIRE(c,(long)p.offset()[d]+p.extent()[d]==(long)o[d]+e[d],"F02:cover",S<<": the last part "<<p<<" does not end where the parent does in direction "<<d);
      else { a[d]=l+1; MemoryWindow q=part(a[0],a[1],a[2]); PBT_REQUIRE(c,(long)q.offset()[d]==(long)p.offset()[d]+p.extent()[d],"F02:order",S<<": part "<<l+1<<" in direction "<<d<<" ("<<q<<") does not follow part "<<l<<" ("<<p<<")");
        for(int x=0;x<3;++x) if(x!=d) PBT_REQUIRE(c,q.offset()[x]==p.offset()[x]&&q.extent()[x]==p.extent()[x],"F02:order",S<<": neighbouring parts in direction "<<d<<" differ in direction "<<x); } } }
}
PBT_MAIN
