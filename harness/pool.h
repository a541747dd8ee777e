// Shared pieces of the thread-pool checks.
#pragma once
#include "pbt.h"
#ifdef SCHED      // threads and time under a deterministic scheduler; schedules are part of the generated input
#include "detsched.h"
#define PBT_LTARGET PBT_CFTARGET
#else
#define PBT_LTARGET PBT_CTARGET
#endif
#include <spatialops/ThreadPool.h>
#include <spatialops/Semaphore.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <memory>
#include <vector>
namespace tp {
namespace bt = boost::threadpool;
using std::string; using std::vector;
inline void spin(unsigned k){ for(volatile unsigned i=0;i<k;++i){} }
/// a little work whose length depends on r
inline void work(unsigned r){ switch(r%8){ case 0: case 1: case 2: break; case 3: std::this_thread::yield(); break; case 4: spin(200); break; case 5: spin(3000); break; case 6: std::this_thread::sleep_for(std::chrono::microseconds(30)); break; default: std::this_thread::sleep_for(std::chrono::microseconds(200)); } }
/// wraps any of the pool types behind one interface
template<class P> struct Sched { static bool go(P& p,const boost::function0<void>& f,unsigned){ return p.schedule(f); } };
template<> struct Sched<bt::prio_pool> { static bool go(bt::prio_pool& p,const boost::function0<void>& f,unsigned pr){ return p.schedule(bt::prio_task_func(pr,f)); } };
inline boost::xtime in_ms(long ms){ boost::xtime x; boost::xtime_get(&x,boost::TIME_UTC_); x.sec+=ms/1000; x.nsec+=(ms%1000)*1000000; if(x.nsec>=1000000000){ x.nsec-=1000000000; ++x.sec; } return x; }
/// polls until f() holds; false after the limit
#ifdef SCHED
template<class F> bool eventually(F f,double secs=20){ for(int i=0;!f();++i){ if(i>(int)(secs*1000)) return f(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return true; }
#else
template<class F> bool eventually(F f,double secs=20){ auto t0=std::chrono::steady_clock::now(); while(!f()){ if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) return f(); std::this_thread::yield(); if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>0.01) std::this_thread::sleep_for(std::chrono::microseconds(200)); } return true; }
#endif
/// a gate tasks can wait at
struct Gate { std::mutex m; std::condition_variable cv; long tokens; Gate():tokens(0){} void give(long n=1){ std::lock_guard<std::mutex> l(m); tokens+=n; cv.notify_all(); } void take(){ std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{return tokens>0;}); --tokens; } };
struct Tasks { vector<std::atomic<int>*> n; std::atomic<int> wrong; std::thread::id owner;
  Tasks():wrong(0),owner(std::this_thread::get_id()){ } ~Tasks(){ for(auto x:n) delete x; }
  size_t add(){ n.push_back(new std::atomic<int>(0)); return n.size()-1; } };
}
