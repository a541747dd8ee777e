// A deterministic scheduler for the threads of the code under test.
//
// Threads created while a Session is open run one at a time.  Which one runs is decided here, at every operation on a mutex, a condition
// variable, a thread or the clock, and (in code compiled with -fsanitize-coverage=trace-pc-guard) between any two basic blocks, from a seed
// the test case draws: a schedule is part of the generated input, replays exactly and shrinks with it.  Time is simulated: it advances when
// every thread is blocked or asleep.  When every thread is blocked and none has a deadline, that is a deadlock and the case fails.
//
// The pthread functions below replace those of libc for this executable and the libraries it loads (libstdc++, libboost_thread).
// A mutex or condition variable used inside a Session is simulated entirely; the real one is not touched.
#pragma once
#include "pbt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <errno.h>
#include <cstdio>
#include <cstring>
#include <map>
#include <unordered_map>
#include <vector>
#include <atomic>
namespace sched {
enum St { RUN, MUTEX, COND, JOIN, SLEEP, DONE };
struct Th { int id; St st; const void* on; uint64_t deadline; bool expired; std::atomic<int> go; pthread_t pt; long prio; int guard; void*(*fn)(void*); void* arg;
  Th():id(0),st(RUN),on(0),deadline(0),expired(false),go(0),pt(),prio(0),guard(0),fn(0),arg(0){} };
struct Mx { Th* owner; int n; };
struct World {
  std::vector<Th*> th; std::unordered_map<const void*,Mx> mx; uint64_t rng, now; bool on; int strategy; unsigned sync_den; long gap; long budget; bool spurious, early; long low; uint64_t steps, switches, edges, livelock;
  World():rng(1),now(0),on(false),strategy(0),sync_den(2),gap(0),budget(0),spurious(false),early(false),low(0),steps(0),switches(0),edges(0),livelock(0){}
  uint64_t rnd(){ rng+=0x9e3779b97f4a7c15ULL; return pbt::mix64(rng); }
  uint64_t below(uint64_t n){ return (uint64_t)(((unsigned __int128)rnd()*n)>>64); }
};
inline World*& world(){ static World* w=new World; return w; }
extern __thread Th* self;
template<class F> inline F real(const char* n,const char* ver=0){ void* p= ver? dlvsym(RTLD_NEXT,n,ver): dlsym(RTLD_NEXT,n); if(!p) p=dlsym(RTLD_NEXT,n); return (F)p; }
inline void park(Th* t){ while(t->go.load(std::memory_order_acquire)==0) syscall(SYS_futex,(int*)&t->go,FUTEX_WAIT_PRIVATE,0,NULL,NULL,0); t->go.store(0,std::memory_order_relaxed); }
inline void unpark(Th* t){ t->go.store(1,std::memory_order_release); syscall(SYS_futex,(int*)&t->go,FUTEX_WAKE_PRIVATE,1,NULL,NULL,0); }
inline bool ready(World& w,Th* t){ if(t->st==RUN) return true; if(t->st==MUTEX){ auto i=w.mx.find(t->on); return i==w.mx.end()||!i->second.owner; } return false; }
inline void wake(Th* t,bool expired){ t->st=RUN; t->expired=expired; t->deadline=0; t->on=0; }
inline bool pass_time(World& w,uint64_t limit){ uint64_t m=~0ULL; for(Th* t:w.th) if(t->st!=DONE&&t->deadline&&t->deadline<m) m=t->deadline; if(m==~0ULL||(limit&&m>w.now+limit)) return false; if(m>w.now) w.now=m; for(Th* t:w.th) if(t->st!=DONE&&t->deadline&&t->deadline<=w.now) wake(t,true); return true; }
[[noreturn]] inline void deadlock(World& w){ static const char* nm[]={"runnable","waiting for a mutex","waiting for a condition","joining a thread","asleep","done"}; fprintf(stderr,"DEADLOCK: every thread is blocked:"); for(Th* t:w.th) if(t->st!=DONE) fprintf(stderr," thread %d %s;",t->id,nm[t->st]); fprintf(stderr,"\n"); fflush(stderr); _exit(77); }
inline long& gap_left(){ return world()->budget; }
inline void new_gap(World& w){ if(w.gap<=0){ w.budget=1L<<60; return; } // geometric, mean w.gap
  uint64_t r=w.rnd()>>11; double u=(r+1.0)/9007199254740993.0; double g=-std::log(u)*w.gap; w.budget=1+(long)g; }
/// the thread to run next; the current one may be among them
inline Th* choose(World& w){
  for(;;){ std::vector<Th*> c; for(Th* t:w.th) if(ready(w,t)) c.push_back(t);
    if(c.empty()){ if(pass_time(w,0)) continue; return NULL; }
    if(w.strategy==0) return c[w.below(c.size())];
    Th* b=c[0]; for(Th* t:c) if(t->prio>b->prio) b=t; return b; }
}
inline void to(World& w,Th* n){ Th* me=self; if(n==me) return; ++w.switches; unpark(n); if(me) park(me); }
inline void extras(World& w){ if(w.early&&w.below(48)==0) pass_time(w,50000000ULL); if(w.spurious&&w.below(100)==0){ std::vector<Th*> c; for(Th* t:w.th) if(t->st==COND) c.push_back(t); if(!c.empty()) wake(c[w.below(c.size())],false); } }
/// the current thread can go on: perhaps another one does
inline void point(bool yield=false){ Th* me=self; if(!me) return; World& w=*world(); if(!w.on||me->guard) return; if(++w.steps>w.livelock){ fprintf(stderr,"LIVELOCK: no end after %lu scheduling steps\n",(unsigned long)w.steps); fflush(stderr); _exit(78); }
  extras(w);
  if(w.strategy==0){ if(!yield&&w.below(w.sync_den)!=0) return; if(yield){ std::vector<Th*> c; for(Th* t:w.th) if(t!=me&&ready(w,t)) c.push_back(t); if(!c.empty()) to(w,c[w.below(c.size())]); return; } }
  else { if(yield) me->prio=--w.low; }
  Th* n=choose(w); if(n) to(w,n); }
/// the current thread cannot go on until st is over
inline void block(World& w,Th* me){ for(;;){ if(++w.steps>w.livelock){ fprintf(stderr,"LIVELOCK: no end after %lu scheduling steps\n",(unsigned long)w.steps); fflush(stderr); _exit(78); } extras(w); Th* n=choose(w); if(!n) deadlock(w); if(n==me) return; to(w,n); if(ready(w,me)) return; } }
inline bool active(){ return self&&world()->on; }
inline void lock(const void* m,uint64_t deadline=0,bool* got=0,bool recursive=false){ World& w=*world(); Th* me=self; for(;;){ Mx& x=w.mx[m]; if(!x.owner){ x.owner=me; x.n=1; if(got) *got=true; return; } if(x.owner==me&&recursive){ ++x.n; if(got) *got=true; return; }
    me->st=MUTEX; me->on=m; me->deadline=deadline; me->expired=false; block(w,me); me->st=RUN; me->on=0; me->deadline=0; if(me->expired){ me->expired=false; if(got) *got=false; if(w.mx[m].owner) return; } } }
inline void unlock(const void* m){ World& w=*world(); auto i=w.mx.find(m); if(i==w.mx.end()) return; if(--i->second.n<=0) w.mx.erase(i); }
inline bool recursive(pthread_mutex_t* m){ return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE_NP; }
inline int wait(pthread_cond_t* c,pthread_mutex_t* m,uint64_t deadline){ World& w=*world(); Th* me=self; point(); int n=1; { auto i=w.mx.find(m); if(i!=w.mx.end()){ n=i->second.n; w.mx.erase(i); } } me->st=COND; me->on=c; me->deadline=deadline; me->expired=false; block(w,me); bool late=me->expired; me->expired=false; me->st=RUN; lock(m); w.mx[m].n=n; return late? ETIMEDOUT: 0; }
inline uint64_t ns(const timespec* t){ return (uint64_t)t->tv_sec*1000000000ULL+(uint64_t)t->tv_nsec; }
inline void sleep_until(uint64_t d){ World& w=*world(); Th* me=self; if(d<=w.now){ point(true); return; } me->st=SLEEP; me->on=0; me->deadline=d; block(w,me); me->expired=false; }
inline void* body(void* a){ Th* t=(Th*)a; park(t); self=t; void* r=t->fn(t->arg); World& w=*world(); t->guard=0; t->st=DONE; t->deadline=0; for(Th* x:w.th) if(x->st==JOIN&&x->on==t) wake(x,false); self=NULL; Th* n=choose(w); if(n){ ++w.switches; unpark(n); } else { bool left=false; for(Th* x:w.th) left=left||x->st!=DONE; if(left&&w.on) deadlock(w); } return r; }
/// opens at construction, the destructor lets the remaining threads finish
struct Session { uint64_t edges0;
  Session(pbt::Case& c){ World& w=*world(); for(Th* t:w.th) (void)t; w.th.clear(); w.mx.clear(); Th* m=new Th; m->id=0; w.th.push_back(m); w.rng=c.seed32(); w.steps=w.switches=0; w.livelock=3000000; w.low=0; w.now=1700000000ULL*1000000000ULL;
    static const unsigned den[]={2,1,4,12}; static const long gaps[]={0,40,300,2500}; w.strategy=(int)c.draw(2); w.sync_den=den[c.draw(4)]; w.gap=gaps[c.draw(4)]; w.spurious=c.chance(1,3); w.early=c.chance(1,4); if(w.strategy==1&&w.gap==0) w.gap=c.boolean()?150:1200; m->prio=(long)(w.rnd()>>34); new_gap(w);
    c.label(w.strategy?"schedule by priorities":"schedule at random"); c.label_if(w.gap>0,"preemption between basic blocks"); c.label_if(w.spurious,"spurious wake-ups"); self=m; w.on=true; }
  ~Session(){ World& w=*world(); Th* me=self; for(;;){ bool left=false; for(Th* t:w.th) left=left||(t!=me&&t->st!=DONE); if(!left) break; std::vector<Th*> c; for(Th* t:w.th) if(t!=me&&ready(w,t)) c.push_back(t); if(c.empty()){ if(pass_time(w,0)) continue; break; } if(++w.steps>w.livelock) break; to(w,c[w.below(c.size())]); } w.on=false; self=NULL; }
};
}
#ifndef SCHED_NO_DEFS
namespace sched { __thread Th* self=NULL; }
#define SCHED_REAL(name,ret,...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t r_##name(){ static name##_t f=NULL; if(!f) f=sched::real<name##_t>(#name); return f; }
#define SCHED_REALV(name,ver,ret,...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t r_##name(){ static name##_t f=NULL; if(!f) f=sched::real<name##_t>(#name,ver); return f; }
extern "C" {
SCHED_REAL(pthread_mutex_lock,int,pthread_mutex_t*) SCHED_REAL(pthread_mutex_trylock,int,pthread_mutex_t*) SCHED_REAL(pthread_mutex_unlock,int,pthread_mutex_t*) SCHED_REAL(pthread_mutex_timedlock,int,pthread_mutex_t*,const timespec*) SCHED_REAL(pthread_mutex_destroy,int,pthread_mutex_t*)
SCHED_REALV(pthread_cond_wait,"GLIBC_2.3.2",int,pthread_cond_t*,pthread_mutex_t*) SCHED_REALV(pthread_cond_timedwait,"GLIBC_2.3.2",int,pthread_cond_t*,pthread_mutex_t*,const timespec*) SCHED_REAL(pthread_cond_clockwait,int,pthread_cond_t*,pthread_mutex_t*,clockid_t,const timespec*)
SCHED_REALV(pthread_cond_signal,"GLIBC_2.3.2",int,pthread_cond_t*) SCHED_REALV(pthread_cond_broadcast,"GLIBC_2.3.2",int,pthread_cond_t*)
SCHED_REAL(pthread_create,int,pthread_t*,const pthread_attr_t*,void*(*)(void*),void*) SCHED_REAL(pthread_join,int,pthread_t,void**)
SCHED_REAL(sched_yield,int,void) SCHED_REAL(nanosleep,int,const timespec*,timespec*) SCHED_REAL(clock_nanosleep,int,clockid_t,int,const timespec*,timespec*) SCHED_REAL(usleep,int,useconds_t) SCHED_REAL(clock_gettime,int,clockid_t,timespec*)
typedef int (*gettimeofday_t)(timeval*,void*); typedef time_t (*time_fn)(time_t*);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if(!sched::active()) return r_pthread_mutex_lock()(m); sched::point(); sched::lock(m,0,0,sched::recursive(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if(!sched::active()) return r_pthread_mutex_trylock()(m); sched::point(); sched::Mx& x=sched::world()->mx[m]; if(x.owner&&!(x.owner==sched::self&&sched::recursive(m))) return EBUSY; sched::lock(m,0,0,sched::recursive(m)); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m,const timespec* t) noexcept { if(!sched::active()) return r_pthread_mutex_timedlock()(m,t); sched::point(); bool g=false; sched::lock(m,sched::ns(t),&g,sched::recursive(m)); return g? 0: ETIMEDOUT; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if(!sched::active()) return r_pthread_mutex_unlock()(m); sched::unlock(m); sched::point(); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if(sched::active()) sched::world()->mx.erase(m); return r_pthread_mutex_destroy()(m); }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(!sched::active()) return r_pthread_cond_wait()(c,m); return sched::wait(c,m,0); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const timespec* t){ if(!sched::active()) return r_pthread_cond_timedwait()(c,m,t); return sched::wait(c,m,sched::ns(t)?sched::ns(t):1); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const timespec* t){ if(!sched::active()) return r_pthread_cond_clockwait()(c,m,k,t); return sched::wait(c,m,sched::ns(t)?sched::ns(t):1); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if(!sched::active()) return r_pthread_cond_signal()(c); sched::World& w=*sched::world(); sched::point(); std::vector<sched::Th*> v; for(sched::Th* t:w.th) if(t->st==sched::COND&&t->on==c) v.push_back(t); if(!v.empty()) sched::wake(v[w.below(v.size())],false); sched::point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if(!sched::active()) return r_pthread_cond_broadcast()(c); sched::World& w=*sched::world(); sched::point(); for(sched::Th* t:w.th) if(t->st==sched::COND&&t->on==c) sched::wake(t,false); sched::point(); return 0; }
int pthread_create(pthread_t* p,const pthread_attr_t* a,void*(*f)(void*),void* arg) noexcept { if(!sched::active()) return r_pthread_create()(p,a,f,arg); sched::World& w=*sched::world(); sched::Th* t=new sched::Th; t->id=(int)w.th.size(); t->fn=f; t->arg=arg; t->prio=(long)(w.rnd()>>34); int r=r_pthread_create()(p,a,sched::body,t); if(r){ delete t; return r; } t->pt=*p; w.th.push_back(t); sched::point(); return 0; }
int pthread_join(pthread_t p,void** v){ if(sched::active()){ sched::World& w=*sched::world(); for(size_t i=w.th.size();i--;) if(w.th[i]->id&&pthread_equal(w.th[i]->pt,p)){ sched::Th* t=w.th[i]; sched::point(); if(t->st!=sched::DONE){ sched::Th* me=sched::self; me->st=sched::JOIN; me->on=t; sched::block(w,me); } break; } } return r_pthread_join()(p,v); }
int sched_yield(void) noexcept { if(!sched::active()) return r_sched_yield()(); sched::point(true); return 0; }
int nanosleep(const timespec* t,timespec* l){ if(!sched::active()) return r_nanosleep()(t,l); sched::sleep_until(sched::world()->now+sched::ns(t)); return 0; }
int clock_nanosleep(clockid_t k,int fl,const timespec* t,timespec* l){ if(!sched::active()) return r_clock_nanosleep()(k,fl,t,l); sched::sleep_until(fl&TIMER_ABSTIME? sched::ns(t): sched::world()->now+sched::ns(t)); return 0; }
int usleep(useconds_t u){ if(!sched::active()) return r_usleep()(u); sched::sleep_until(sched::world()->now+u*1000ULL); return 0; }
int clock_gettime(clockid_t k,timespec* t) noexcept { if(!sched::active()) return r_clock_gettime()(k,t); uint64_t n=(sched::world()->now+=100); t->tv_sec=(time_t)(n/1000000000ULL); t->tv_nsec=(long)(n%1000000000ULL); return 0; }
int gettimeofday(timeval* __restrict t,void* __restrict z) noexcept { if(!sched::active()){ static gettimeofday_t f=sched::real<gettimeofday_t>("gettimeofday"); return f(t,z); } uint64_t n=(sched::world()->now+=100); t->tv_sec=(time_t)(n/1000000000ULL); t->tv_usec=(long)(n%1000000000ULL/1000); return 0; }
time_t time(time_t* t) noexcept { if(!sched::active()) { static time_fn f=sched::real<time_fn>("time"); return f(t); } time_t s=(time_t)(sched::world()->now/1000000000ULL); if(t) *t=s; return s; }
// nothing else runs while a function-local static is being constructed: its lock is not simulated
int __cxa_guard_acquire(__cxxabiv1::__guard* g){ static int(*f)(__cxxabiv1::__guard*)=NULL; if(!f) f=sched::real<int(*)(__cxxabiv1::__guard*)>("__cxa_guard_acquire"); int r=f(g); if(r&&sched::self) ++sched::self->guard; return r; }
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept{ static void(*f)(__cxxabiv1::__guard*)=NULL; if(!f) f=sched::real<void(*)(__cxxabiv1::__guard*)>("__cxa_guard_release"); f(g); if(sched::self&&sched::self->guard) --sched::self->guard; }
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept{ static void(*f)(__cxxabiv1::__guard*)=NULL; if(!f) f=sched::real<void(*)(__cxxabiv1::__guard*)>("__cxa_guard_abort"); f(g); if(sched::self&&sched::self->guard) --sched::self->guard; }
// called between basic blocks of instrumented code
void __sanitizer_cov_trace_pc_guard(uint32_t*){ sched::Th* me=sched::self; if(!me) return; sched::World& w=*sched::world(); if(!w.on||--w.budget>0||me->guard) return; ++w.edges; sched::new_gap(w); if(w.strategy==1){ me->prio=--w.low; sched::point(); } else { if(++w.steps>w.livelock){ fprintf(stderr,"LIVELOCK: no end after %lu scheduling steps\n",(unsigned long)w.steps); fflush(stderr); _exit(78); } sched::Th* n=sched::choose(w); if(n) sched::to(w,n); } }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*,uint32_t*){}
}
#endif
// concurrent targets run in a Session
#undef PBT_CTARGET
#undef PBT_CFTARGET
#define PBT_CTARGET(name,weight) \
  static void PBT_CAT(sched_fn_,__LINE__)(pbt::Case&); PBT_TARGET(name,weight){ sched::Session s(c); PBT_CAT(sched_fn_,__LINE__)(c); } \
  static void PBT_CAT(sched_fn_,__LINE__)(pbt::Case& c)
#define PBT_CFTARGET(name,weight) \
  static void PBT_CAT(sched_fn_,__LINE__)(pbt::Case&); PBT_FTARGET(name,weight){ sched::Session s(c); PBT_CAT(sched_fn_,__LINE__)(c); } \
  static void PBT_CAT(sched_fn_,__LINE__)(pbt::Case& c)
