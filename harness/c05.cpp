// C05: text export, read back by a small parser.
#include "so.h"
#include <spatialops/WriteMatlab.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace so;
namespace {
struct Dir { string path; Dir(){ char t[]="/tmp/c05XXXXXX"; path=mkdtemp(t); if(chdir(path.c_str())) abort(); } ~Dir(){ clean(); if(chdir("/")){} rmdir(path.c_str()); }
  vector<string> ls(){ vector<string> r; DIR* d=opendir(path.c_str()); while(dirent* e=readdir(d)){ string n=e->d_name; if(n!="."&&n!="..") r.push_back(n); } closedir(d); return r; }
  void clean(){ for(auto&n: ls()) unlink((path+"/"+n).c_str()); } };
Dir& dir(){ static Dir d; return d; }
template<class F,class V> void check(pbt::Case& c,const F& f,const vector<V>& want,bool ghost,bool dflt,const string& what){
  Dir& D=dir(); D.clean(); static const char alpha[]="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_"; string name; int len=(int)c.range(1,12); for(int i=0;i<len;++i) name+=alpha[c.draw(sizeof alpha-1)];
  if(c.boolean()){ std::ofstream o(("load_"+name+".m").c_str()); for(int i=0;i<500;++i) o<<"stale contents "<<i<<"\n"; c.label("overwrites an older file"); }
  if(dflt) S::write_matlab(f,name); else S::write_matlab(f,name,ghost);
  vector<string> l=D.ls(); PBT_REQUIRE(c,l.size()==1&&l[0]=="load_"+name+".m","C05:file","wrote "<<l.size()<<" files, first "<<(l.empty()?"":l[0])<<"; "<<what);
  std::ifstream in(l[0].c_str()); std::stringstream ss; ss<<in.rdbuf(); string t=ss.str(); D.clean();
  // grammar: function x = load_<name>() NEWLINE x = [ number {, number} ];
  const char* p=t.c_str(); auto ws=[&](bool nl){ while(*p==' '||*p=='\t'||(nl&&*p=='\n')) ++p; }; auto lit=[&](const string& s)->bool{ if(strncmp(p,s.c_str(),s.size())) return false; p+=s.size(); return true; };
  bool ok=true; ws(true); ok=ok&&lit("function"); ws(false); ok=ok&&lit("x"); ws(false); ok=ok&&lit("="); ws(false); ok=ok&&lit("load_"+name); PBT_REQUIRE(c,ok,"C05:name","file does not define x = load_"<<name<<": "<<t.substr(0,60)); ws(false); if(lit("(")){ ws(false); ok=lit(")"); } ws(false); if(*p==';') ++p; ok=ok&&*p=='\n'; ws(true); ok=ok&&lit("x"); ws(false); ok=ok&&lit("="); ws(false); ok=ok&&lit("["); PBT_REQUIRE(c,ok,"C05:syntax","malformed: "<<t.substr(0,80));
  vector<double> got; while(true){ ws(true); char* e; double v=strtod(p,&e); PBT_REQUIRE(c,e!=p,"C05:syntax","number expected at value "<<got.size()<<": "<<string(p).substr(0,30)); p=e; got.push_back(v); ws(true); if(lit(",")) continue; break; }
  ok=lit("]"); ws(false); ok=ok&&lit(";"); ws(true); PBT_REQUIRE(c,ok&&*p==0,"C05:syntax","malformed end: "<<string(p).substr(0,60));
  PBT_REQUIRE(c,got.size()==want.size(),"C05:count",got.size()<<" values written, "<<want.size()<<" cells requested; "<<what);
  for(size_t i=0;i<got.size();++i) PBT_REQUIRE(c, same(got[i],(double)want[i]) || std::fabs(got[i]-(double)want[i])<=1e-14*std::fabs((double)want[i])+5e-324,"C05:value","value "<<i<<" of "<<got.size()<<" is "<<num(got[i])<<", the cell holds "<<num(want[i])<<"; "<<what);
}
template<class F> void run(pbt::Case& c){
  GeoOpts o; o.maxn=5; o.maxg=2; Geo g=gen_geo(c,o); gen_pads(c,g,25); Box<F> b(g); if(c.chance(1,3)){ int vm[3],vp[3]; gen_valid(c,b.g,vm,vp,100); b.set_valid(vm,vp); c.label("reduced valid region"); }
  int st=(int)c.draw(3); uint64_t sd=c.seed32(); for(long i=0;i<b.g.npts();++i){ uint64_t h=pbt::hcomb(sd,i); b.data()[i]= st==0? cellval(sd,FULL,i): st==1? std::ldexp(1+u01(h),(int)(h%1800)-900)*(h&8?-1:1): (h%5==0? 0.0: h%7==0? (double)(1u<<31): cellval(sd,SMALLINT,i)); }
  bool ghost=c.boolean(), dflt=!ghost&&c.boolean(); Ibox v= ghost? b.valid(): b.interior(); vector<double> want; for(int k=v.lo[2];k<v.hi[2];++k)for(int j=v.lo[1];j<v.hi[1];++j)for(int i=v.lo[0];i<v.hi[0];++i) want.push_back(b.at(i,j,k));
  string w=string(Stag<F>::name())+" "+b.g.str()+" valid "+b.valid().str()+(ghost?" with ghosts":" interior"); c.note(w); c.nontrivial(want.size()>1); c.label_if(b.g.padded(),"sub-window"); c.label(ghost?"with ghosts":"interior"); b.save(); check(c,(const F&)*b.f,want,ghost,dflt,w); b.check_untouched(c,"C05:modified","exported field"); }
}
PBT_TARGET("svol",3){ run<SS::SVolField>(c); }
PBT_TARGET("xvol",3){ run<SS::XVolField>(c); }
PBT_TARGET("float",1){ typedef SS::SpatialField<SS::SVolField::Location,float> FF; int n[3]; for(int d=0;d<3;++d) n[d]=(int)c.range(1,4); int gh=(int)c.draw(3); IntVec e(n[0],n[1],n[2]); for(int d=0;d<3;++d) if(n[d]>1) e[d]+=2*gh; vector<float> m(e[0]*e[1]*e[2]); uint64_t sd=c.seed32(); for(size_t i=0;i<m.size();++i) m[i]=(float)cellval(sd,FULL,i);
  FF f(MemoryWindow(e),BoundaryCellInfo::build<FF>(false,false,false),GhostData(gh),m.empty()?0:&m[0],SS::ExternalStorage); c.nontrivial(m.size()>1); check(c,(const FF&)f,m,true,false,"float field"); }
PBT_MAIN
