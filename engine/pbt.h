// pbt.h -- small choice-sequence property-based testing engine.
//
// Every random decision of a test case is an integer "choice" drawn through
// pbt::Case.  A case is therefore fully described by its vector of choices:
// generation = choices from a PRNG seeded by (VERIF_SEED, target, case index);
// replay     = choices from a file; shrinking = editing the vector (deleting,
// zeroing and lowering choices) while the same failure key persists; the
// coverage-guided build (PBT_LIBFUZZER) decodes libFuzzer's bytes to choices.
//
// Cases run in forked worker processes, so that a crash, assert or hang of the
// code under test is itself an observation attributed to a case.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix64(uint64_t z){
  z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z>>27)) * 0x94d049bb133111ebULL; return z ^ (z>>31);
}
inline uint64_t hcomb(uint64_t a, uint64_t b){ return mix64(a*0x100000001b3ULL ^ mix64(b)); }
inline uint64_t hstr(const std::string& s){ uint64_t h=1469598103934665603ULL; for(unsigned char c: s){ h^=c; h*=1099511628211ULL;} return h; }

struct Failure { std::string key, msg; };
struct Discard {};

class Case {
  uint64_t rng_; bool replay_; std::vector<uint64_t> in_; size_t pos_;
  std::vector<uint64_t> rec_;
  bool nontrivial_ = false, notes_ = false;
  std::vector<std::string> labels_;
  std::ostringstream note_;
  uint64_t next(){ rng_ += 0x9e3779b97f4a7c15ULL; uint64_t z=rng_; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
public:
  explicit Case(uint64_t seed) : rng_(seed), replay_(false), pos_(0) {}
  explicit Case(const std::vector<uint64_t>& ch) : rng_(0), replay_(true), in_(ch), pos_(0) {}
  /// an integer in [0,n); 0 is the simplest
  uint64_t draw(uint64_t n){
    uint64_t v;
    if(replay_){ v = pos_<in_.size() ? in_[pos_] : 0; ++pos_; if(n && v>=n) v%=n; }
    else { v = next(); if(n) v = (uint64_t)(((unsigned __int128)v * n)>>64); }
    rec_.push_back(v); return v;
  }
  /// integer in [lo,hi], shrinks to lo
  long range(long lo,long hi){ return lo + (long)draw((uint64_t)(hi-lo+1)); }
  /// integer in [lo,hi], shrinks towards z
  long around(long lo,long hi,long z){ long v=(long)draw((uint64_t)(hi-lo+1)); long up=hi-z; return v<=up ? z+v : lo+(v-up-1); }
  bool boolean(){ return draw(2)!=0; }
  /// true with probability num/den; shrinks to false
  bool chance(unsigned num,unsigned den){ return draw(den) >= den-num; }
  /// weighted index; shrinks to index 0
  int weighted(std::initializer_list<int> w){ long t=0; for(int x: w) t+=x; long v=(long)draw(t); int i=0; for(int x: w){ if(v<x) return i; v-=x; ++i;} return 0; }
  template<class T> T oneof(std::initializer_list<T> l){ return *(l.begin()+draw(l.size())); }
  template<class T> const T& pick(const std::vector<T>& v){ return v[draw(v.size())]; }
  /// loop guard: continue with probability so that about `avg` iterations happen (at most max)
  bool more(int& n,int avg,int max){ if(n>=max){ return false; } bool m = draw((uint64_t)avg+1)!=0; if(m) ++n; return m; }
  uint64_t seed32(){ return draw(1ULL<<32); }
  /// a "nice" finite double, exactly representable, small magnitude first
  double real(){
    switch(weighted({4,3,2})){
      case 0: return (double)around(-8,8,0);
      case 1: return around(-4096,4096,0)/64.0;
      default: return around(-1000000,1000000,0)/4096.0;
    }
  }
  /// in [0,1)
  double unit(){ return (double)draw(1u<<20)/(double)(1u<<20); }
  double posreal(){ return range(1,4096)/64.0; }
  void nontrivial(bool b=true){ if(b) nontrivial_=true; }
  void label(const std::string& s){ labels_.push_back(s); }
  void label_if(bool b,const std::string& s){ if(b) labels_.push_back(s); }
  bool want_notes() const { return notes_; }
  void set_notes(bool b){ notes_=b; }
  template<class T> Case& note(const T& t){ if(notes_) note_<<t; return *this; }
  [[noreturn]] void fail(const std::string& key,const std::string& msg){ throw Failure{key,msg}; }
  [[noreturn]] void discard(){ throw Discard(); }
  const std::vector<uint64_t>& choices() const { return rec_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::vector<std::string>& labels() const { return labels_; }
  std::string notes() const { return note_.str(); }
  /// take over the record of a run of this case in another process
  void adopt(const std::vector<uint64_t>& r,bool nt,const std::vector<std::string>& l,const std::string& n){ rec_=r; nontrivial_=nt; labels_=l; note_.str(n); }
};

typedef std::function<void(Case&)> Prop;
struct Target {
  std::string name; Prop fn; int weight; bool concurrent; bool fresh;
};
inline std::vector<Target>& targets(){ static std::vector<Target> t; return t; }
struct Reg { Reg(const char* n, int w, Prop f, bool conc=false, bool fresh=false){ targets().push_back(Target{n,f,w,conc,fresh}); } };
/// hook run in each worker process before the first case
inline std::function<void()>& process_init(){ static std::function<void()> f; return f; }
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PBT_TARGET(name,weight) \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case&); \
  static pbt::Reg PBT_CAT(pbt_reg_,__LINE__)(name,weight,PBT_CAT(pbt_fn_,__LINE__)); \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case& c)
#define PBT_CTARGET(name,weight) \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case&); \
  static pbt::Reg PBT_CAT(pbt_reg_,__LINE__)(name,weight,PBT_CAT(pbt_fn_,__LINE__),true); \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case& c)
/// every case of this target runs in a process of its own (state that outlives a case, such as singletons, starts afresh)
#define PBT_FTARGET(name,weight) \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case&); \
  static pbt::Reg PBT_CAT(pbt_reg_,__LINE__)(name,weight,PBT_CAT(pbt_fn_,__LINE__),false,true); \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case& c)
#define PBT_CFTARGET(name,weight) \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case&); \
  static pbt::Reg PBT_CAT(pbt_reg_,__LINE__)(name,weight,PBT_CAT(pbt_fn_,__LINE__),true,true); \
  static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Case& c)
#define PBT_REQUIRE(c,cond,key,msg) do{ if(!(cond)){ std::ostringstream pbt_o_; pbt_o_<<msg; (c).fail(key,pbt_o_.str()); } }while(0)

inline std::string jstr(const std::string& s){
  std::string o="\""; for(unsigned char ch: s){
    if(ch=='"') o+="\\\""; else if(ch=='\\') o+="\\\\"; else if(ch=='\n') o+="\\n"; else if(ch=='\t') o+="\\t";
    else if(ch<32||ch>126){ char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b; } else o+=ch; } return o+"\"";
}

enum Status { PASS=0, FAIL=1, DISCARD=2, CRASH=3, HANG=4, INFRA=5 };
struct Outcome { Status st=PASS; std::string key,msg,notes; std::vector<uint64_t> rec; };

inline void write_all(int fd,const void* p,size_t n){ const char* q=(const char*)p; while(n){ ssize_t k=write(fd,q,n); if(k<0){ if(errno==EINTR) continue; return;} q+=k; n-=k; } }
inline void put_str(std::string& b,const std::string& s){ uint64_t n=s.size(); b.append((char*)&n,8); b+=s; }
inline std::string get_str(const std::string& b,size_t& p){ uint64_t n; if(p+8>b.size()) return ""; memcpy(&n,&b[p],8); p+=8; if(p+n>b.size()) n=b.size()-p; std::string s=b.substr(p,n); p+=n; return s; }

inline Outcome run_here(const Target& t, Case& c);
inline Outcome run_fresh(const Target& t, Case& c){
  int p[2]; Outcome o; if(pipe(p)){ o.st=INFRA; return o; }
  pid_t pid=fork(); if(pid<0){ close(p[0]); close(p[1]); o.st=INFRA; return o; }
  if(pid==0){ close(p[0]); Outcome r=run_here(t,c); std::string b; uint64_t st=r.st; b.append((char*)&st,8); put_str(b,r.key); put_str(b,r.msg); put_str(b,r.notes);
    put_str(b,std::string((char*)r.rec.data(),r.rec.size()*8)); put_str(b,c.is_nontrivial()?"1":""); std::string l; for(auto&x:c.labels()) put_str(l,x); put_str(b,l); write_all(p[1],b.data(),b.size()); _exit(0); }
  close(p[1]); std::string buf; char tmp[65536]; for(;;){ ssize_t k=read(p[0],tmp,sizeof tmp); if(k<0&&errno==EINTR) continue; if(k<=0) break; buf.append(tmp,k); } close(p[0]);
  int ws; while(waitpid(pid,&ws,0)<0&&errno==EINTR){}
  if(buf.size()<8){ if(WIFSIGNALED(ws)&&WTERMSIG(ws)==SIGKILL){ o.st=INFRA; return o; } if(WIFEXITED(ws)&&(WEXITSTATUS(ws)==77||WEXITSTATUS(ws)==78)) _exit(WEXITSTATUS(ws)); abort(); }
  size_t q=8; uint64_t st; memcpy(&st,&buf[0],8); o.st=(Status)st; o.key=get_str(buf,q); o.msg=get_str(buf,q); o.notes=get_str(buf,q); std::string r=get_str(buf,q); o.rec.resize(r.size()/8); memcpy(o.rec.data(),r.data(),o.rec.size()*8);
  bool nt=!get_str(buf,q).empty(); std::string l=get_str(buf,q); std::vector<std::string> ls; size_t z=0; while(z<l.size()) ls.push_back(get_str(l,z));
  c.adopt(o.rec,nt,ls,o.notes); return o;
}
inline Outcome run_inline(const Target& t, Case& c){
#ifndef PBT_LIBFUZZER
  if(t.fresh) return run_fresh(t,c);
#endif
  return run_here(t,c);
}
inline Outcome run_here(const Target& t, Case& c){
  Outcome o;
  try { t.fn(c); o.st=PASS; }
  catch(Failure& f){ o.st=FAIL; o.key=f.key; o.msg=f.msg; }
  catch(Discard&){ o.st=DISCARD; }
  catch(std::exception& e){ o.st=FAIL; o.key=t.name+":exception"; o.msg=std::string("unexpected exception: ")+e.what(); }
  catch(...){ o.st=FAIL; o.key=t.name+":exception"; o.msg="unexpected exception of unknown type"; }
  o.rec=c.choices(); o.notes=c.notes();
  return o;
}

inline double now(){ timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec+1e-9*ts.tv_nsec; }


struct Options {
  uint64_t seed=1; long cases=1000; int workers=8; double max_time=600; double hang=60;
  std::string out, replay_out, replay_in, known, only, errlog; std::vector<std::string> known_keys;
};

struct Slot { volatile long idx; volatile long target; volatile double t0; volatile long done; volatile long nontriv; volatile long discards; volatile int stop; };

class Runner {
  Options o_; std::vector<int> sched_; // target schedule by weight
  struct FailRec { int target; long idx; int worker; Status st; std::string key,msg; std::vector<uint64_t> ch; };
public:
  explicit Runner(const Options& o): o_(o){
    auto& ts=targets();
    std::vector<std::pair<double,int>> s; // spread targets evenly by weight
    for(size_t t=0;t<ts.size();++t){ if(!o_.only.empty() && ts[t].name!=o_.only) continue;
      for(int k=0;k<ts[t].weight;++k) s.push_back({(k+0.5)/ts[t].weight,(int)t}); }
    std::stable_sort(s.begin(),s.end()); for(auto&x:s) sched_.push_back(x.second);
    if(sched_.empty()){ fprintf(stderr,"no targets\n"); exit(3); }
  }
  int target_of(long idx) const { return sched_[idx % sched_.size()]; }
  uint64_t seed_of(long idx) const { return hcomb(hcomb(mix64(o_.seed), hstr(targets()[target_of(idx)].name)), (uint64_t)idx); }
  bool is_known(const std::string& k) const { for(auto& x:o_.known_keys) if(x==k) return true; return false; }

  static void quiet_output(const std::string& errlog){
    int dn=open("/dev/null",O_WRONLY); dup2(dn,1);
    int e = errlog.empty()? dn : open(errlog.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); if(e>=0) dup2(e,2);
    rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  }

  // run choices (or, if ch==NULL, a list of case indices as one worker would) in a child
  Outcome eval(int target,const std::vector<uint64_t>* ch,const std::vector<long>* seq,double limit,std::string* errtext=nullptr){
    int p[2]; if(pipe(p)) { Outcome o; o.st=INFRA; return o; }
    std::string el; if(errtext){ char b[]="/tmp/pbterrXXXXXX"; int f=mkstemp(b); close(f); el=b; }
    pid_t pid=fork();
    if(pid==0){
      setpgid(0,0); close(p[0]); quiet_output(el);
      if(process_init()) process_init()();
      Outcome o;
      if(seq){ for(long i: *seq){ Case c(seed_of(i)); const Target& t=targets()[target_of(i)]; o=run_inline(t,c); if(o.st==FAIL && !is_known(o.key)) break; if(o.st==FAIL) o.st=PASS; } }
      else { Case c(*ch); c.set_notes(true); o=run_inline(targets()[target],c); }
      std::string b; uint64_t st=o.st; b.append((char*)&st,8); put_str(b,o.key); put_str(b,o.msg); put_str(b,o.notes);
      std::string r((char*)o.rec.data(), o.rec.size()*8); put_str(b,r);
      write_all(p[1],b.data(),b.size()); close(p[1]); _exit(0);
    }
    close(p[1]); std::string buf; double t0=now(); bool to=false;
    for(;;){
      double left=limit-(now()-t0); if(left<=0){ to=true; break; }
      pollfd pf={p[0],POLLIN,0}; int r=poll(&pf,1,(int)(left*1000)+1);
      if(r<0){ if(errno==EINTR) continue; break; } if(r==0){ to=true; break; }
      char tmp[65536]; ssize_t k=read(p[0],tmp,sizeof tmp); if(k<=0) break; buf.append(tmp,k);
    }
    close(p[0]); if(to) { kill(-pid,SIGKILL); kill(pid,SIGKILL); }
    int ws; while(waitpid(pid,&ws,0)<0 && errno==EINTR){}
    kill(-pid,SIGKILL);
    Outcome o;
    if(errtext){ std::ifstream f(el); std::stringstream ss; ss<<f.rdbuf(); *errtext=ss.str(); unlink(el.c_str()); }
    if(to){ o.st=HANG; o.key=targets()[target].name+":hang"; o.msg="the case did not finish"; }
    else if(buf.size()>=8){ size_t q=0; uint64_t st; memcpy(&st,&buf[0],8); q=8; o.st=(Status)st; o.key=get_str(buf,q); o.msg=get_str(buf,q); o.notes=get_str(buf,q); std::string r=get_str(buf,q); o.rec.resize(r.size()/8); memcpy(o.rec.data(),r.data(),o.rec.size()*8); }
    else if(WIFSIGNALED(ws) && WTERMSIG(ws)==SIGKILL){ o.st=INFRA; o.key="infra"; }
    else { o.st=CRASH; o.key=targets()[target].name+":crash"; std::ostringstream m; if(WIFSIGNALED(ws)) m<<"terminated by signal "<<WTERMSIG(ws)<<" ("<<strsignal(WTERMSIG(ws))<<")"; else m<<exit_text(WEXITSTATUS(ws)); o.msg=m.str(); }
    return o;
  }

  static std::string exit_text(int s){ return s==77? "deadlock: every thread is blocked and none has a time limit": s==78? "livelock: the threads run without getting anywhere": "exited with status "+std::to_string(s); }
  static bool better(const std::vector<uint64_t>& a,const std::vector<uint64_t>& b){
    if(a.size()!=b.size()) return a.size()<b.size(); return a<b; }

  std::vector<uint64_t> shrink(int target,std::vector<uint64_t> cur,const std::string& key,double budget,double limit){
    double t0=now(); int tries=0;
    auto test=[&](std::vector<uint64_t> cand)->bool{
      if(now()-t0>budget || tries>4000) return false; ++tries;
      Outcome o=eval(target,&cand,nullptr,limit);
      if(o.st!=PASS && o.st!=DISCARD && o.st!=INFRA && o.key==key){
        if(!o.rec.empty() && better(o.rec,cand)) cand=o.rec;
        if(better(cand,cur)){ cur=cand; return true; } }
      return false; };
    bool progress=true;
    while(progress && now()-t0<budget){
      progress=false;
      for(size_t k: {64u,32u,24u,16u,13u,11u,10u,9u,8u,7u,6u,5u,4u,3u,2u,1u}) for(size_t i=cur.size(); i-- > 0; ){ // delete chunks
        if(i+k>cur.size()) continue; std::vector<uint64_t> c=cur; c.erase(c.begin()+i,c.begin()+i+k); if(test(c)) { progress=true; if(i>cur.size()) i=cur.size(); } }
      for(size_t i=0;i<cur.size();++i){ if(cur[i]==0) continue; std::vector<uint64_t> c=cur; c[i]=0; if(test(c)){ progress=true; continue; }
        uint64_t lo=0, hi=cur[i]; while(hi-lo>1 && i<cur.size() && now()-t0<budget){ uint64_t m=lo+(hi-lo)/2; c=cur; c[i]=m; if(test(c)){ progress=true; if(i>=cur.size()) break; hi=cur[i]; if(hi<=lo) break; } else lo=m; } }
      for(size_t i=0;i+1<cur.size();++i){ if(cur[i]==0) continue; std::vector<uint64_t> c=cur; c[i]--; c.erase(c.begin()+i+1); if(test(c)) progress=true; }
    }
    return cur;
  }

  void write_replay(const std::string& path,int target,const std::vector<uint64_t>& ch,const std::vector<long>& seq,const Outcome& o,const std::string& err,bool flaky){
    std::ofstream f(path);
    f<<"{\n \"target\": "<<jstr(targets()[target].name)<<",\n \"key\": "<<jstr(o.key)<<",\n \"message\": "<<jstr(o.msg)<<",\n";
    f<<" \"seed\": "<<o_.seed<<",\n \"intermittent\": "<<(flaky?"true":"false")<<",\n";
    f<<" \"choices\": ["; for(size_t i=0;i<ch.size();++i) f<<(i?",":"")<<ch[i]; f<<"],\n";
    f<<" \"case_indices\": ["; for(size_t i=0;i<seq.size();++i) f<<(i?",":"")<<seq[i]; f<<"],\n";
    f<<" \"case\": "<<jstr(o.notes)<<",\n \"stderr\": "<<jstr(err.substr(0,3000))<<"\n}\n";
  }

  int run(){
    const int W=o_.workers; double T0=now();
    Slot* sl=(Slot*)mmap(0,sizeof(Slot)*W,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    memset((void*)sl,0,sizeof(Slot)*W);
    std::vector<pid_t> pids(W,0); std::vector<int> fds(W,-1); std::vector<std::string> bufs(W); std::vector<long> startidx(W);
    for(int w=0;w<W;++w) startidx[w]=w;
    std::vector<std::string> infra;
    auto launch=[&](int w){
      int p[2]; if(pipe(p)) { perror("pipe"); exit(3); }
      sl[w].idx=-1; sl[w].t0=now();
      pid_t pid=fork();
      if(pid==0){
        setpgid(0,0); close(p[0]); for(int f: fds) if(f>=0) close(f);
        quiet_output(o_.errlog); worker(w,startidx[w],W,sl[w],p[1],T0); _exit(0);
      }
      close(p[1]); pids[w]=pid; fds[w]=p[0]; bufs[w].clear();
    };
    for(int w=0;w<W;++w) launch(w);
    std::vector<FailRec> fails; std::map<std::string,long> labels; std::map<std::string,long> known_hits; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; std::map<std::string,long> percount;
    std::map<std::string,std::string> known_msgs; std::map<std::string,std::pair<int,std::vector<uint64_t>>> known_cases;
    long evals=0,nontriv=0,discards=0; int relaunches=0; bool stopping=false;
    std::vector<std::string> parts; int alive=W;
    auto absorb=[&](int w){
      const std::string& b=bufs[w]; size_t q=0;
      while(q+8<=b.size()){
        std::string kind=get_str(b,q);
        if(kind=="L"){ std::string k=get_str(b,q),v=get_str(b,q); labels[k]+=atol(v.c_str()); }
        else if(kind=="K"){ std::string k=get_str(b,q),v=get_str(b,q),m=get_str(b,q); known_hits[k]+=atol(v.c_str()); if(!known_msgs.count(k)) known_msgs[k]=m; }
        else if(kind=="H"){ std::string r=get_str(b,q); for(size_t i=0;i+8<=r.size();i+=8){ uint64_t h; memcpy(&h,&r[i],8); distinct.insert(h);} }
        else if(kind=="S"){ std::string k=get_str(b,q); samples.push_back(k); }
        else if(kind=="T"){ std::string k=get_str(b,q),v=get_str(b,q); percount[k]+=atol(v.c_str()); }
        else if(kind=="N"){ evals+=atol(get_str(b,q).c_str()); nontriv+=atol(get_str(b,q).c_str()); discards+=atol(get_str(b,q).c_str()); }
        else if(kind=="F"){ FailRec f; f.idx=atol(get_str(b,q).c_str()); f.target=target_of(f.idx); f.worker=w; f.st=FAIL; f.key=get_str(b,q); f.msg=get_str(b,q); std::string r=get_str(b,q); f.ch.resize(r.size()/8); memcpy(f.ch.data(),r.data(),f.ch.size()*8); fails.push_back(f); }
        else break;
      }
      bufs[w].clear();
    };
    while(alive>0){
      std::vector<pollfd> pf; std::vector<int> who;
      for(int w=0;w<W;++w) if(fds[w]>=0){ pf.push_back({fds[w],POLLIN,0}); who.push_back(w); }
      poll(pf.data(),pf.size(),250);
      for(size_t i=0;i<pf.size();++i) if(pf[i].revents){
        int w=who[i]; char tmp[65536]; ssize_t k=read(fds[w],tmp,sizeof tmp);
        if(k>0){ bufs[w].append(tmp,k); continue; }
        close(fds[w]); fds[w]=-1; int ws; while(waitpid(pids[w],&ws,0)<0&&errno==EINTR){} kill(-pids[w],SIGKILL);
        absorb(w);
        bool clean = WIFEXITED(ws) && WEXITSTATUS(ws)==0;
        if(!clean){
          long idx=sl[w].idx; bool hang = sl[w].stop==2;
          evals+=sl[w].done; nontriv+=sl[w].nontriv; discards+=sl[w].discards;
          if(WIFSIGNALED(ws)&&WTERMSIG(ws)==SIGKILL && !hang){ // stopped by us, or by the memory guard
            if(!stopping){ infra.push_back("worker killed"); if(++relaunches<20 && idx>=0){ startidx[w]=idx+W; sl[w].done=sl[w].nontriv=sl[w].discards=0; launch(w); continue; } }
          } else if(idx>=0){
            FailRec f; f.idx=idx; f.target=target_of(idx); f.worker=w; f.st=hang?HANG:CRASH; f.key=targets()[f.target].name+(hang?":hang":":crash");
            std::ostringstream m; if(hang) m<<"no result within "<<o_.hang<<" s"; else if(WIFSIGNALED(ws)) m<<"terminated by signal "<<WTERMSIG(ws); else m<<exit_text(WEXITSTATUS(ws)); f.msg=m.str();
            if(is_known(f.key)){ known_hits[f.key]++; if(!known_msgs.count(f.key)) known_msgs[f.key]=f.msg; if(!stopping && ++relaunches<2000){ startidx[w]=idx+W; sl[w].done=sl[w].nontriv=sl[w].discards=0; sl[w].stop=0; launch(w); continue; } }
            else fails.push_back(f);
          }
        }
        --alive; pids[w]=0;
        if(!fails.empty()) stopping=true;
      }
      double t=now();
      for(int w=0;w<W;++w) if(fds[w]>=0 && sl[w].idx>=0 && t-sl[w].t0>o_.hang && sl[w].stop!=2){ sl[w].stop=2; kill(-pids[w],SIGKILL); kill(pids[w],SIGKILL); }
      if(stopping) for(int w=0;w<W;++w) if(fds[w]>=0 && sl[w].stop==0) sl[w].stop=1;
    }
    // ---- confirm, shrink, report
    bool viol=false; Outcome fo; std::vector<std::string> unrepro; int vt=0;
    std::sort(fails.begin(),fails.end(),[](const FailRec&a,const FailRec&b){return a.idx<b.idx;});
    std::stable_sort(fails.begin(),fails.end(),[](const FailRec&a,const FailRec&b){return (a.st==HANG)<(b.st==HANG);});
    std::set<std::string> triedkeys; int attempts=0;
    for(auto& f: fails){
      if(viol||attempts>=6) break; if(triedkeys.count(f.key)) continue; ++attempts;
      std::vector<uint64_t> ch=f.ch;
      if(f.st!=FAIL){ // regenerate choices: replay the seed while recording through a pipe is not possible for a crash, so pre-draw
        ch=predraw(f); }
      bool conc=targets()[f.target].concurrent; int reps = conc? 400 : (f.st==HANG? 2 : 3); double tr0=now(); double lim = f.st==HANG? o_.hang : std::max(20.0,o_.hang);
      if(conc && f.st!=HANG) lim=o_.hang;
      int hit=0; Outcome o; for(int r=0;r<reps && hit<(f.st==HANG?1:3) && (r<3||now()-tr0<90);++r){ Outcome x=eval(f.target,&ch,nullptr,lim); if(x.st!=PASS&&x.st!=DISCARD&&x.st!=INFRA&&!is_known(x.key)){ ++hit; o=x; } }
      if(hit>0){
        bool flaky = conc || hit<3;
        std::vector<uint64_t> m = (f.st==HANG)? ch : shrink(f.target,ch,o.key, conc?20:40, conc?std::min(10.0,o_.hang):10.0);
        // confirm three times
        std::string err; int ok=0; Outcome last=o; bool is_hang=o.st==HANG;
        if(!is_hang) for(int r=0;r<(conc?60:6) && ok<3;++r){ Outcome x=eval(f.target,&m,nullptr,lim,&err); if(x.st!=PASS&&x.st!=DISCARD&&x.st!=INFRA&&!is_known(x.key)){ ++ok; last=x; } }
        if(ok==0){ m=ch; last=o; }
        viol=true; fo=last; vt=f.target; write_replay(o_.replay_out,f.target,m,{},last,err,flaky&&ok<3); break;
      }
      // depends on what ran before in the same process: replay that worker's cases
      for(long n: {2L,8L,64L,512L,1L<<30}){
        std::vector<long> seq; for(long i=f.idx;i>=0 && (long)seq.size()<n;i-=o_.workers) seq.push_back(i); std::reverse(seq.begin(),seq.end());
        Outcome x=eval(f.target,nullptr,&seq,std::max(60.0,o_.hang));
        if(x.st!=PASS&&x.st!=DISCARD&&x.st!=INFRA&&x.st!=HANG&&!is_known(x.key)){ int again=0; for(int r=0;r<2;++r){ Outcome y=eval(f.target,nullptr,&seq,std::max(60.0,o_.hang)); if(y.st!=PASS&&y.st!=DISCARD&&y.st!=INFRA) ++again; }
          viol=true; fo=x; vt=f.target; write_replay(o_.replay_out,f.target,{},seq,x,"",again<2); break; }
        if((long)seq.size()<n) break;
      }
      if(!viol){ triedkeys.insert(f.key); unrepro.push_back(f.key+": "+f.msg); }
    }
    // ---- result file
    std::ofstream j(o_.out);
    j<<"{\"evaluations\":"<<evals<<",\"nontrivial\":"<<nontriv<<",\"distinct_nontrivial\":"<<distinct.size()<<",\"discarded\":"<<discards<<",\"wall_s\":"<<(now()-T0)<<",\n\"labels\":{";
    bool first=true; for(auto&x:labels){ j<<(first?"":",")<<jstr(x.first)<<":"<<x.second; first=false; }
    j<<"},\n\"targets\":{"; first=true; for(auto&x:percount){ j<<(first?"":",")<<jstr(x.first)<<":"<<x.second; first=false; }
    j<<"},\n\"known\":{"; first=true; for(auto&x:known_hits){ j<<(first?"":",")<<jstr(x.first)<<":{\"hits\":"<<x.second<<",\"message\":"<<jstr(known_msgs[x.first])<<"}"; first=false; }
    j<<"},\n\"unreproduced\":["; first=true; for(auto&x:unrepro){ j<<(first?"":",")<<jstr(x); first=false; }
    j<<"],\n\"infra\":["; first=true; for(auto&x:infra){ j<<(first?"":",")<<jstr(x); first=false; }
    std::sort(samples.begin(),samples.end()); samples.erase(std::unique(samples.begin(),samples.end()),samples.end());
    j<<"],\n\"samples\":["; first=true; size_t ns=0; for(auto&x:samples){ if(ns++>=8) break; j<<(first?"":",")<<jstr(x.substr(0,1500)); first=false; }
    j<<"],\n\"violation\":"; if(viol) j<<"{\"target\":"<<jstr(targets()[vt].name)<<",\"key\":"<<jstr(fo.key)<<",\"message\":"<<jstr(fo.msg.substr(0,2000))<<"}"; else j<<"null";
    j<<"}\n"; j.close();
    return viol?1:0;
  }

  // Obtain the choice vector of a case that crashes/hangs: run it in a child that
  // mirrors every choice into shared memory.
  std::vector<uint64_t> predraw(const FailRec& f);

  void worker(int w,long start,int W,Slot& s,int fd,double T0){
    if(process_init()) process_init()();
    std::map<std::string,long> labels,known,per; std::map<std::string,std::string> kmsg; std::string hashes; std::vector<std::string> samples; std::unordered_set<uint64_t> seen; std::map<int,int> sampled;
    std::string fail; long done=0,nt=0,dc=0;
    for(long i=start;i<o_.cases;i+=W){
      if(s.stop) break; if(now()-T0>o_.max_time) break;
      int ti=target_of(i); const Target& t=targets()[ti];
      Case c(seed_of(i)); if(w<4 && sampled[ti]<1) c.set_notes(true);
      s.t0=now(); s.idx=i;
      Outcome o=run_inline(t,c);
      ++done; s.done=done; per[t.name]++;
      if(o.st==DISCARD||o.st==INFRA){ ++dc; s.discards=dc; continue; }
      for(auto& l: c.labels()) labels[l]++;
      if(c.is_nontrivial()){ ++nt; s.nontriv=nt; uint64_t h=hstr(t.name); for(uint64_t v: c.choices()) h=hcomb(h,v); if(seen.insert(h).second) hashes.append((char*)&h,8);
        if(c.want_notes() && o.st==PASS && !c.notes().empty()){ samples.push_back(t.name+": "+c.notes()); sampled[ti]++; } }
      if(o.st==FAIL){
        if(is_known(o.key)){ known[o.key]++; kmsg[o.key]=o.msg; continue; }
        put_str(fail,"F"); put_str(fail,std::to_string(i)); put_str(fail,o.key); put_str(fail,o.msg); put_str(fail,std::string((char*)c.choices().data(),c.choices().size()*8));
        break;
      }
    }
    s.idx=-1;
    std::string b; 
    for(auto&x:labels){ put_str(b,"L"); put_str(b,x.first); put_str(b,std::to_string(x.second)); }
    for(auto&x:per){ put_str(b,"T"); put_str(b,x.first); put_str(b,std::to_string(x.second)); }
    for(auto&x:known){ put_str(b,"K"); put_str(b,x.first); put_str(b,std::to_string(x.second)); put_str(b,kmsg[x.first]); }
    put_str(b,"H"); put_str(b,hashes);
    for(auto&x:samples){ put_str(b,"S"); put_str(b,x); }
    put_str(b,"N"); put_str(b,std::to_string(done)); put_str(b,std::to_string(nt)); put_str(b,std::to_string(dc));
    b+=fail; write_all(fd,b.data(),b.size()); close(fd);
  }
};

inline std::vector<uint64_t> Runner::predraw(const FailRec& f){
  // Run the seeded PRNG case once more in a child; draws are unbounded in
  // number, so record modulo reduction lazily: the child writes each choice
  // to a shared buffer via a tracing Case.  A plain PRNG re-run gives the same
  // draws, hence we only need the values that were recorded before the crash.
  const size_t CAP=1<<16;
  uint64_t* shm=(uint64_t*)mmap(0,(CAP+1)*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  shm[0]=0;
  pid_t pid=fork();
  if(pid==0){
    setpgid(0,0); quiet_output("");
    if(process_init()) process_init()();
    struct Tracer; Case* c=new Case(seed_of(f.idx));
    // poll the recording from a SIGALRM-free place: use an at-crash handler
    static Case* g; static uint64_t* gs; g=c; gs=shm;
    auto dump=[](int sig){ if(gs[0]) _exit(99); const auto& r=g->choices(); size_t n=std::min<size_t>(r.size(),(1<<16)); for(size_t i=0;i<n;++i) gs[i+1]=r[i]; gs[0]=n; _exit(99); };
    for(int s: {SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGTERM,SIGALRM}) signal(s,dump);
    alarm((unsigned)(f.st==HANG? std::min(10.0,o_.hang) : std::max(20.0,o_.hang)));
    run_inline(targets()[f.target],*c); dump(0);
  }
  double t0=now(); int ws; while(waitpid(pid,&ws,WNOHANG)==0){ if(now()-t0>o_.hang+30){ kill(-pid,SIGKILL); kill(pid,SIGKILL);} usleep(10000); }
  kill(-pid,SIGKILL);
  std::vector<uint64_t> r(shm+1,shm+1+shm[0]); munmap(shm,(CAP+1)*8); return r;
}

inline int main_(int argc,char** argv){
  Options o; setvbuf(stdout,0,_IONBF,0);
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto v=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--seed") o.seed=strtoull(v().c_str(),0,10); else if(a=="--cases") o.cases=atol(v().c_str()); else if(a=="--workers") o.workers=atoi(v().c_str());
    else if(a=="--max-time") o.max_time=atof(v().c_str()); else if(a=="--hang") o.hang=atof(v().c_str()); else if(a=="--out") o.out=v(); else if(a=="--replay-out") o.replay_out=v();
    else if(a=="--replay") o.replay_in=v(); else if(a=="--known") { std::string k=v(); if(!k.empty()) o.known_keys.push_back(k); } else if(a=="--only") o.only=v(); else if(a=="--errlog") o.errlog=v();
    else if(a=="--list"){ for(auto&t:targets()) printf("%s\n",t.name.c_str()); return 0; }
    else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 3; } }
  if(!o.replay_in.empty()){
    std::ifstream f(o.replay_in); std::stringstream ss; ss<<f.rdbuf(); std::string s=ss.str();
    auto field=[&](const std::string& k){ size_t p=s.find("\""+k+"\""); return p==std::string::npos?std::string::npos:s.find(':',p)+1; };
    auto nums=[&](const std::string& k){ std::vector<uint64_t> r; size_t p=field(k); if(p==std::string::npos) return r; p=s.find('[',p)+1; while(p<s.size()){ while(p<s.size()&&isspace((unsigned char)s[p])) ++p; if(p>=s.size()||s[p]==']') break; char* e; r.push_back(strtoull(&s[p],&e,10)); p=e-&s[0]; if(s[p]==',') ++p; } return r; };
    size_t p=field("target"); if(p==std::string::npos) return 3; p=s.find('"',p)+1; std::string tn=s.substr(p,s.find('"',p)-p);
    size_t q=field("seed"); if(q!=std::string::npos) o.seed=strtoull(&s[q],0,10);
    std::vector<uint64_t> ch=nums("choices"), ci=nums("case_indices"); Runner r(o); int ti=-1; for(size_t t=0;t<targets().size();++t) if(targets()[t].name==tn) ti=t; if(ti<0){ fprintf(stderr,"no target %s\n",tn.c_str()); return 3; }
    std::string err; Outcome oc; std::vector<long> seq(ci.begin(),ci.end());
    oc = seq.empty()? r.eval(ti,&ch,nullptr,std::max(60.0,o.hang),&err) : r.eval(ti,nullptr,&seq,std::max(60.0,o.hang),&err);
    const char* n[]={"PASS","FAIL","DISCARD","CRASH","HANG","INFRA"};
    printf("%s key=%s\n%s\n%s\n%s\n",n[oc.st],oc.key.c_str(),oc.msg.c_str(),oc.notes.c_str(),err.c_str()); return oc.st==PASS||oc.st==DISCARD?0:1;
  }
  Runner r(o); return r.run();
}

#ifdef PBT_LIBFUZZER
} // namespace
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d,size_t n){
  using namespace pbt; static bool init=false; if(!init){ init=true; if(process_init()) process_init()(); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); }
  if(n<2) return 0; std::vector<uint64_t> ch; size_t i=1;
  // bytes: values < 0xf0 are a one-byte choice; 0xf0..0xff introduce a wide choice
  while(i<n){ if(d[i]<0xf0) ch.push_back(d[i++]); else { uint64_t v=0; size_t k=std::min<size_t>(4,n-i-1); for(size_t j=0;j<k;++j) v=v<<8|d[i+1+j]; i+=1+k; ch.push_back(v); } }
  const char* only=getenv("PBT_ONLY"); size_t ti=d[0]%targets().size(); if(only) for(size_t t=0;t<targets().size();++t) if(targets()[t].name==only) ti=t;
  Case c(ch); Outcome o=run_inline(targets()[ti],c);
  if(o.st==FAIL){ const char* known=getenv("PBT_KNOWN"); if(known && std::string(known).find("|"+o.key+"|")!=std::string::npos) return 0; }
  if(o.st==FAIL){ fprintf(stderr,"PBT-FAIL %s %s\n",o.key.c_str(),o.msg.c_str()); abort(); }
  return 0;
}
extern "C" size_t pbt_fuzz_decode(const uint8_t*,size_t);
namespace pbt {
#endif
} // namespace pbt
#ifndef PBT_NO_MAIN
#ifndef PBT_LIBFUZZER
#define PBT_MAIN int main(int argc,char** argv){ return pbt::main_(argc,argv); }
#else
#define PBT_MAIN
#endif
#endif
