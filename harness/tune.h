// Random thread-pool settings and partition counts (threaded builds).
#pragma once
#include "pbt.h"
#include <spatialops/SpatialOpsTools.h>
#include <sstream>
namespace so {
struct Tuning { int hard, soft; };
inline Tuning& tuning(){ static Tuning t={ SpatialOps::get_hard_thread_count(), SpatialOps::get_soft_thread_count() }; return t; }
/// sometimes changes the number of workers or active workers, gives the field a partition count
template<class F> inline std::string tune(pbt::Case& c,F& f,int nx,int ny,int nz){
  static const int many[]={1,2,3,4,5,6,7,8,9,10,12,17,64}; std::ostringstream h; Tuning& t=tuning();
  // a case starts from known settings so that it can be replayed on its own
  if(t.hard!=4){ SpatialOps::set_hard_thread_count(4); t.hard=4; } if(t.soft!=4){ SpatialOps::set_soft_thread_count(4); t.soft=4; }
  if(c.chance(1,6)){ t.hard=(int)c.range(1,12); SpatialOps::set_hard_thread_count(t.hard); h<<"workers "<<t.hard<<" "; if(t.soft>t.hard) t.soft=t.hard; }
  if(c.chance(1,6)){ t.soft=(int)c.range(1,12); SpatialOps::set_soft_thread_count(t.soft); h<<"active "<<t.soft<<" "; }
  int p= c.chance(1,10)? 0: many[c.draw(13)]; if(p){ f.set_partition_count(p); h<<"partitions "<<p; } else p=f.get_partition_count();
  bool split= p>1&&(p<=nx||p<=ny||p<=nz); c.nontrivial(split); c.label_if(split,p<=nz?"split in z":p<=ny?"split in y":"split in x"); c.label_if(p>nx&&p>ny&&p>nz,"more partitions than cells"); return h.str(); }
}
