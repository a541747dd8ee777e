// C03: operator database.  Model: per database and operator type, the list of (id, operator) registered since the last emptying.
#include "pbt.h"
#include <boost/any.hpp>
#include <boost/shared_ptr.hpp>
#include <spatialops/OperatorDatabase.h>
#include <memory>
namespace {
static long alive=0, made=0, freed=0; static std::map<const void*,int> live;
template<int N> struct Op { typedef std::pair<int,int> Assembler; int tag; long canary; Op(int t): tag(t), canary(0x5a5a0000+N){ ++alive; ++made; live[this]=N; } Op(const Assembler& a): tag(a.first*1000+a.second), canary(0x5a5a0000+N){ ++alive; ++made; live[this]=N; }
  Op(const Op&)=delete; ~Op(){ if(canary!=0x5a5a0000+N) abort(); canary=0; --alive; ++freed; live.erase(this); } };
struct Rec { int id; const void* p; int tag; };
struct Model { std::vector<Rec> t[6]; size_t total() const { size_t n=0; for(auto&v:t) n+=v.size(); return n; } };
template<class Fn> void type(int k,Fn&& fn){ switch(k){ case 0: fn((Op<0>*)0); break; case 1: fn((Op<1>*)0); break; case 2: fn((Op<2>*)0); break; case 3: fn((Op<3>*)0); break; case 4: fn((Op<4>*)0); break; default: fn((Op<5>*)0); } }
}
PBT_TARGET("history",1){
  typedef SpatialOps::OperatorDatabase DB; int nd=(int)c.range(1,3); std::vector<std::unique_ptr<DB> > dbs; std::vector<Model> m(nd); for(int i=0;i<nd;++i) dbs.emplace_back(new DB()); std::ostringstream h; long a0=alive; int n=0, looked=0, multi=0, emptied=0, serial=0;
  auto expect=[&]{ size_t e=0; for(auto&x:m) e+=x.total(); PBT_REQUIRE(c,alive-a0==(long)e,"C03:lifetime",alive-a0<<" operators alive, "<<e<<" registered; "<<h.str()); };
  while(c.more(n,24,60)){ int d=(int)c.draw(nd), k=(int)c.draw(6); DB& db=*dbs[d]; std::vector<Rec>& L=m[d].t[k]; int what=c.weighted({8,3,9,1,2});
    switch(what){
      case 0: case 1: type(k,[&](auto* z){ typedef typename std::remove_pointer<decltype(z)>::type O; Rec r; r.tag=++serial; if(what==0){ O* o=new O(r.tag); r.p=o; r.id=db.register_new_operator(o); } else { r.p=0; typename O::Assembler as(serial,7); r.tag=serial*1000+7; r.id=db.register_new_operator<O>(as); O* o=db.retrieve_operator<O>(r.id); r.p=o; PBT_REQUIRE(c,o&&o->tag==r.tag,"C03:assembled","operator built from an assembler is not the one retrieved; "<<h.str()); }
        h<<"db"<<d<<".register(T"<<k<<")->"<<r.id<<" "; for(auto&o:L) PBT_REQUIRE(c,o.id!=r.id,"C03:identifier","identifier "<<r.id<<" given twice; "<<h.str()); PBT_REQUIRE(c,r.id!=-1,"C03:identifier","identifier -1 given; "<<h.str()); L.push_back(r); if(L.size()>1) ++multi; }); break;
      case 2: type(k,[&](auto* z){ typedef typename std::remove_pointer<decltype(z)>::type O; int id=-1; bool by=c.chance(3,4); const Rec* want=0; if(by){ if(!L.empty()&&c.chance(3,4)){ want=&L[c.draw(L.size())]; id=want->id; } else { id=(int)c.range(-3,8); if(id==-1) id=99; for(auto&o:L) if(o.id==id) want=&o; } } else want= L.size()==1?&L[0]:0;
        h<<"db"<<d<<".retrieve(T"<<k<<(by?","+std::to_string(id):std::string())<<") "; ++looked; O* got=0; bool threw=false; const DB& cd=db; try{ got= by? cd.retrieve_operator<O>(id): cd.retrieve_operator<O>(); }catch(std::runtime_error&){ threw=true; }
        if(!want) PBT_REQUIRE(c,threw,"C03:not-rejected","lookup that has "<<(by?"no such operator":L.empty()?"no operator":"several operators")<<" did not raise an error; "<<h.str());
        else { PBT_REQUIRE(c,!threw,"C03:rejected","lookup of a registered operator raised an error; "<<h.str()); PBT_REQUIRE(c,got==want->p && got->tag==want->tag,"C03:wrong","lookup returned another operator; "<<h.str()); } }); break;
      case 3: db.empty_database(); for(auto&v:m[d].t) v.clear(); ++emptied; h<<"db"<<d<<".empty "; break;
      case 4: { // every registered operator is still found
        for(int q=0;q<6;++q) type(q,[&](auto* z){ typedef typename std::remove_pointer<decltype(z)>::type O; for(auto&o:m[d].t[q]) { bool ok=false; try{ ok= db.retrieve_operator<O>(o.id)==o.p; }catch(std::runtime_error&){} PBT_REQUIRE(c,ok,"C03:lost","operator T"<<q<<" id "<<o.id<<" is no longer found; "<<h.str()); } }); break; }
    } expect(); }
  c.note(h.str()); c.nontrivial(looked>1&&multi>0); c.label_if(emptied>0,"emptied"); c.label_if(multi>0,"several operators of one type");
  while(!dbs.empty()){ dbs.pop_back(); m.pop_back(); expect(); }
  PBT_REQUIRE(c,live.empty(),"C03:lifetime","operators outlive their database; "<<h.str());
}
PBT_MAIN
