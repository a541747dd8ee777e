From b8a789c48b29e08883c3aaf3b79dc785c6c06a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 01/23] fix: ghost resizing must not touch one-cell-wide
 directions

Fields that are one cell wide in a direction hold no ghost cells there, whatever
their GhostData says.  Resizing their windows (interior assignment, interior
reductions, operands with differing ghost counts, reset_valid_ghosts) shrank the
single cell away and tripped the MemoryWindow sanity check.
---
 spatialops/NeboBasic.h               | 13 ++++++++++---
 spatialops/structured/SpatialField.h | 11 +++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/spatialops/NeboBasic.h b/spatialops/NeboBasic.h
index ba9e1be..8330559 100644
--- a/spatialops/NeboBasic.h
+++ b/spatialops/NeboBasic.h
@@ -124,10 +124,17 @@
 
           const structured::IntVec oldPlus = field.get_valid_ghost_data().get_plus();
 
-          const structured::IntVec offsetChange = oldMinus - minus;
+          structured::IntVec offsetChange = oldMinus - minus;
 
-          const structured::IntVec extentChange = minus + plus - oldMinus -
-          oldPlus;
+          structured::IntVec extentChange = minus + plus - oldMinus - oldPlus;
+
+          /* directions that are one cell wide have no ghost cells to add or remove */
+          for(int dir = 0; dir < 3; dir++) {
+             if(field.window_with_ghost().glob_dim(dir) == 1) {
+                offsetChange[dir] = 0;
+                extentChange[dir] = 0;
+             };
+          };
 
           return field.reshape(extentChange, offsetChange);
        };
diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..3a429da 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -459,10 +459,17 @@ namespace structured{
      * This method should be used when a field assignment can only occur on a subset of the field due to invalidation of some of the ghost cells.
      */
     inline void reset_valid_ghosts( const GhostData& ghosts ){
-      const IntVec diff = validGhosts_.get_minus() - ghosts.get_minus();
+      IntVec diff       = validGhosts_.get_minus() - ghosts.get_minus();
+      IntVec extentDiff = ghosts.get_plus() - validGhosts_.get_plus() - diff;
+      for( int i=0; i<3; ++i ){
+        if( fieldWindow_.glob_dim(i) == 1 ){ // there are no ghost cells in this direction
+          diff      [i] = 0;
+          extentDiff[i] = 0;
+        }
+      }
       fieldWindow_ = MemoryWindow( fieldWindow_.glob_dim(),
                                    fieldWindow_.offset() + diff,
-                                   fieldWindow_.extent() - diff - validGhosts_.get_plus() + ghosts.get_plus() );
+                                   fieldWindow_.extent() + extentDiff );
       validGhosts_ = ghosts;
     }
 
-- 
2.43.0


From ab5abcf40ee97a51ffea927f281020a6b173b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 02/23] fix: field assignment must stay within the field's
 window

---
 spatialops/structured/SpatialField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index 3a429da..cec3dcb 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1452,7 +1452,8 @@ SpatialField<Location,T>::operator=(const field_type& other)
       if( fieldValues_ == other.field_values() ){
         return *this;
       }
-      std::copy( other.fieldValues_, other.fieldValues_+other.fieldWindow_.glob_npts(), fieldValues_ );
+      // copy only the cells in the window - the fields may be windows onto larger blocks of memory
+      std::copy( other.begin(), other.end(), begin() );
     }
     break;
 
-- 
2.43.0


From 00a41c712e4efaa46be52b78225f3681efab4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 03/23] fix: scratch field handles may be copied when empty and
 assigned to themselves

---
 spatialops/structured/SpatialFieldStore.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..310a82e 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,6 +349,8 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
+  // keep the incoming field alive if both refer to it.
+  if( p.count_ != NULL ) ++(*p.count_);
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -370,8 +372,6 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   builtFromStore_ = p.builtFromStore_;
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
-  // increment copy count
-  ++(*count_);
 
   return *this;
 }
-- 
2.43.0


From 1106ced4d920ba6bee2fc0472c7b9beebdc6fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 04/23] fix: scratch fields have no extra cells in
 one-cell-wide directions

---
 spatialops/structured/SpatialFieldStore.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 310a82e..2fa896f 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -254,7 +254,10 @@ public:
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-    const IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    for( int i=0; i<3; ++i ){
+      if( ws.extent(i) == 1 ) inc[i] = 0; // no extra cells in directions that are one cell wide
+    }
     const MemoryWindow w( ws.glob_dim() + inc,
                           ws.offset(),
                           ws.extent()   + inc );
-- 
2.43.0


From 69a3db71d7bf7a238e6936c93c90c308b3c79804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 05/23] fix: a detached scratch field handle must forget its
 field

---
 spatialops/structured/SpatialFieldStore.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 2fa896f..fea7082 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -422,9 +422,12 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    // this no longer refers to the field, whoever else may.
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From eb2c654020ab002bba08e8622dc7f55be585fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 06/23] fix: shrinking a thread pool must not stop more workers
 than requested

---
 .../threadpool/detail/pool_core.hpp           | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..b9ad9de 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -110,6 +110,7 @@ namespace boost { namespace threadpool { namespace detail
     volatile size_t m_target_worker_count;
     volatile size_t m_active_worker_count;
     volatile size_t m_target_active_worker_count;
+    volatile size_t m_leaving_worker_count; // workers no longer counted in m_worker_count which have not finished yet
 
   private: // The following members are accessed only by _one_ thread at the same time:
     scheduler_type  m_scheduler;
@@ -130,6 +131,7 @@ namespace boost { namespace threadpool { namespace detail
       , m_target_worker_count(0)
       , m_active_worker_count(0)
       , m_target_active_worker_count(0)
+      , m_leaving_worker_count(0)
       , m_terminate_all_workers(false)
     {
       pool_type volatile & self_ref = *this;
@@ -290,7 +292,7 @@ namespace boost { namespace threadpool { namespace detail
 
       if(wait)
       {
-        while(m_worker_count > 0)
+        while(m_worker_count > 0 || m_leaving_worker_count > 0)
         {
           self->m_worker_idle_or_terminated_event.wait(lock);
         }
@@ -373,8 +375,7 @@ namespace boost { namespace threadpool { namespace detail
     void worker_destructed(shared_ptr<worker_type> worker) volatile
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
-      m_worker_count--;
-      m_active_worker_count--;
+      m_leaving_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
 
       if(m_terminate_all_workers)
@@ -383,6 +384,18 @@ namespace boost { namespace threadpool { namespace detail
       }
     }
 
+    // Takes the calling worker out of the pool if there are too many workers. It must no longer
+    // be counted from here on, otherwise others would also leave and too few workers remain.
+    bool leave_if_superfluous() volatile
+    {
+      if(m_worker_count <= m_target_worker_count) return false;
+
+      m_worker_count--;
+      m_active_worker_count--;
+      m_leaving_worker_count++;
+      return true;
+    }
+
     bool execute_task() volatile
     {
       function0<void> task;
@@ -392,7 +405,7 @@ namespace boost { namespace threadpool { namespace detail
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
         // decrease number of threads if necessary
-        if(m_worker_count > m_target_worker_count)
+        if(leave_if_superfluous())
         {
           return false;	// terminate worker
         }
@@ -402,7 +415,7 @@ namespace boost { namespace threadpool { namespace detail
         while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
         {
           // decrease number of workers if necessary
-          if(m_worker_count > m_target_worker_count)
+          if(leave_if_superfluous())
           {
             return false;	// terminate worker
           }
-- 
2.43.0


From 7a3b23659c054f48101c917b9156aad37bc23e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 07/23] fix: workers leaving a shrunk thread pool must release
 their threads

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp     | 4 ++++
 spatialops/threadpool/threadpool/detail/worker_thread.hpp | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index b9ad9de..53f41ba 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -382,6 +382,10 @@ namespace boost { namespace threadpool { namespace detail
       {
         lockedThis->m_terminated_workers.push_back(worker);
       }
+      else
+      {
+        worker->detach(); // nobody will join it
+      }
     }
 
     // Takes the calling worker out of the pool if there are too many workers. It must no longer
diff --git a/spatialops/threadpool/threadpool/detail/worker_thread.hpp b/spatialops/threadpool/threadpool/detail/worker_thread.hpp
index f4a8e48..ad10519 100755
--- a/spatialops/threadpool/threadpool/detail/worker_thread.hpp
+++ b/spatialops/threadpool/threadpool/detail/worker_thread.hpp
@@ -87,6 +87,12 @@ namespace boost { namespace threadpool { namespace detail
 		  m_thread->join();
 	  }
 
+	  /*! Releases the worker's thread, which will not be joined.
+	  */
+	  void detach() {
+		  m_thread->detach();
+	  }
+
 	  /*! Constructs a new worker thread and attaches it to the pool.
 	  * \param pool Pointer to the pool.
 	  */
-- 
2.43.0


From 210ac03a5f1ae0708a26642a41df35862aeab8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 08/23] fix: grid coordinates must not depend on where the
 field's window starts

---
 spatialops/structured/Grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/Grid.cpp b/spatialops/structured/Grid.cpp
index 0612150..5aa824b 100644
--- a/spatialops/structured/Grid.cpp
+++ b/spatialops/structured/Grid.cpp
@@ -77,7 +77,8 @@ namespace structured{
     const IntVec lo(0,0,0);
     const IntVec hi( mw.extent() );
 
-    const int ixOffset = mwInterior.offset(dir);
+    // index of the first interior cell, relative to the window being filled
+    const int ixOffset = mwInterior.offset(dir) - mw.offset(dir);
     IntVec ix;
     for( ix[2]=lo[2]; ix[2]<hi[2]; ++ix[2] ){
       for( ix[1]=lo[1]; ix[1]<hi[1]; ++ix[1] ){
-- 
2.43.0


From dbab49c05febe6a742dc98749390f44ac4b3eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 09/23] fix: first derivative of the Gaussian initialiser

---
 spatialops/FieldFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index cd4ae08..8540e7e 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -647,7 +647,7 @@ dx( FieldT& f ) const
 {
   this->set_fields();
   const FieldT& x = this->get_x();
-  f <<= -2/b_ * (x-xo_)*(x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) + yo_;
+  f <<= -2.0/b_ * (x-xo_) * ( a_*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) );
 }
 //------------------------------------------------------------------
 template<typename FieldT, typename PatchT>
-- 
2.43.0


From a898d0d75906f0189dd37260e8ddec81d4786cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 10/23] fix: particle operators must locate cells relative to
 the mesh origin

---
 spatialops/particles/ParticleOperators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..bd00184 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -158,7 +158,7 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc-xo_)/dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
         throw std::runtime_error( "Particle is outside of the domain!" );
@@ -219,7 +219,7 @@ namespace Particle{
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc-xo_)/dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( leftcellIx1 >= nmax || leftcellIx1<0 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
-- 
2.43.0


From f021a39bf6108531b9633ea9014726d4cc47f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 11/23] fix: point operators built from a windowed marker field
 must address its cells

---
 spatialops/pointfield/PointOperators.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spatialops/pointfield/PointOperators.h b/spatialops/pointfield/PointOperators.h
index c6f3375..f4efe93 100644
--- a/spatialops/pointfield/PointOperators.h
+++ b/spatialops/pointfield/PointOperators.h
@@ -96,9 +96,10 @@ namespace Point{
   template< typename FieldT >
   PointToField<FieldT>::PointToField( const FieldT& locs )
   {
-    size_t i=0;
-    for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii, ++i ){
-      if( *ii != 0.0 ) indices_.push_back(i);
+    // the operators index into the whole field, which the window may be only a part of
+    const structured::MemoryWindow& window = locs.window_with_ghost();
+    for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii ){
+      if( *ii != 0.0 ) indices_.push_back( window.flat_index( ii.location() ) );
     }
   }
 
@@ -132,9 +133,10 @@ namespace Point{
   template< typename FieldT >
   FieldToPoint<FieldT>::FieldToPoint( const FieldT& locs )
   {
-    size_t i=0;
-    for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii, ++i ){
-      if( *ii != 0.0 ) indices_.push_back(i);
+    // the operators index into the whole field, which the window may be only a part of
+    const structured::MemoryWindow& window = locs.window_with_ghost();
+    for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii ){
+      if( *ii != 0.0 ) indices_.push_back( window.flat_index( ii.location() ) );
     }
   }
 
-- 
2.43.0


From a8ede72af16a6daba0e179eb44332d30b3ba293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 12/23] fix: Lagrange coefficients of order zero must not be
 empty

---
 spatialops/structured/onedim/LagrangePoly.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/spatialops/structured/onedim/LagrangePoly.cpp b/spatialops/structured/onedim/LagrangePoly.cpp
index 903acde..e9faaf4 100644
--- a/spatialops/structured/onedim/LagrangePoly.cpp
+++ b/spatialops/structured/onedim/LagrangePoly.cpp
@@ -138,18 +138,14 @@ get_interp_coefs_indices( const double x,
     double coef = 1.0;
 
     // assemble this coefficient.
-    bool haveEntry = false;
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
       if( xk != xi ){
-        haveEntry = true;
         coef *= (x-xi)/(xk-xi);
       }
     }
-    if( haveEntry ){
-      coefs.push_back( coef );
-      indices.push_back( k+koffset );
-    }
+    coefs.push_back( coef );
+    indices.push_back( k+koffset );
   }
 }
 
@@ -180,12 +176,10 @@ get_derivative_coefs_indices( const double x,
     cout << endl << "k=" << k << " of " << polyOrder << endl;
     cout << "  den = ";
 #endif
-    bool haveEntry = false;
     double den = 1.0;
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
       if( xi != xk ){
-        haveEntry = true;
         den *= (xk-xi);
 #ifdef DEBUG_COEFFS
         cout << "(x"  << kindex-koffset << "-x" << i-koffset << ")";
@@ -221,10 +215,8 @@ get_derivative_coefs_indices( const double x,
     cout << endl;
     cout << "  num: " << num << ",  den: " << den << endl;
 #endif
-    if( haveEntry ){
-      coefs.push_back( num/den );
-      indices.push_back( k+koffset );
-    }
+    coefs.push_back( num/den );
+    indices.push_back( k+koffset );
   }
 }
 
-- 
2.43.0


From 6de6275213967d09a32aa144b119521756e33576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 13/23] fix: boundary condition operators on a list of points
 must decode global flat indices

---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..1360664 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From 3ca73b6f78c74bad872f01f5c352e0c2b230e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 14/23] fix: boundary condition operators on a list of points
 treat NO_SIDE like single points

---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index 1360664..03f7f31 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -201,13 +201,13 @@ namespace structured{
     //   phi_a = (phi_bc - b*phi_b) / a
     //
     const OpT* const op = soDatabase.retrieve_operator<OpT>();
-    ca_ = (side==MINUS_SIDE ? op->coefs().get_coef(0) : op->coefs().get_coef(1) );
-    cb_ = (side==MINUS_SIDE ? op->coefs().get_coef(1) : op->coefs().get_coef(0) );
+    ca_ = (side==MINUS_SIDE || side==NO_SIDE ? op->coefs().get_coef(0) : op->coefs().get_coef(1) );
+    cb_ = (side==MINUS_SIDE || side==NO_SIDE ? op->coefs().get_coef(1) : op->coefs().get_coef(0) );
     //
     std::vector<IntVec>::const_iterator destPointsIter = destIJKPoints.begin();
     for( ; destPointsIter != destIJKPoints.end(); ++destPointsIter ) {
-      flatGhostPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE) ? S1Shift::int_vec() : S2Shift::int_vec() )));    // a_point
-      flatInteriorPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE) ? S2Shift::int_vec() : S1Shift::int_vec() ))); // b_point
+      flatGhostPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE || side==NO_SIDE) ? S1Shift::int_vec() : S2Shift::int_vec() )));    // a_point
+      flatInteriorPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE || side==NO_SIDE) ? S2Shift::int_vec() : S1Shift::int_vec() ))); // b_point
     }
   }
 
-- 
2.43.0


From 667a854cd93fa0aa3874f3ea75dff8568317e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 15/23] fix: reductions of operator expressions
 (nebo_sum(op(f)) and the like) did not compile

---
 spatialops/NeboStencils.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 10a8907..947d019 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -761,11 +761,11 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
-                                                                     plus,
-                                                                     shift,
-                                                                     arg_,
-                                                                     coefs_));
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
+                                                                          plus,
+                                                                          shift,
+                                                                          arg_,
+                                                                          coefs_));
           }
 
          private:
@@ -976,10 +976,10 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
-                                                                     plus,
-                                                                     shift,
-                                                                     arg_));
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
+                                                                          plus,
+                                                                          shift,
+                                                                          arg_));
           }
 
          private:
-- 
2.43.0


From f5192ac43a2416aa9ac3d6bb83441c0bedcbe7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 16/23] fix: field_equal and field_equal_abs with a tolerance
 accepted NaN cells as equal

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index ad1745b..88c06f3 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -187,7 +187,7 @@ bool field_equal(const FieldT& f1, const FieldT& f2, double error, const double
     else {
       const double denom = std::abs(**if1) + error_abs;
 
-      if (std::abs(**if1 - **if2)/denom > error) {
+      if (**if1 != **if2 && !(std::abs(**if1 - **if2)/denom <= error)) {
         result =  false;
         break;
       }
@@ -276,7 +276,7 @@ bool field_equal_abs(const FieldT& f1, const FieldT& f2, double error=0.0)
       }
     }
     else {
-      if(std::abs(**if1 - **if2) > error) {
+      if(**if1 != **if2 && !(std::abs(**if1 - **if2) <= error)) {
         result = false;
         break;
       }
@@ -508,7 +508,7 @@ bool field_equal(const double d, const FieldT& f1, double error, const double er
     }
     else {
 
-      if (std::abs(d - **if1)/denom > error) {
+      if (**if1 != d && !(std::abs(d - **if1)/denom <= error)) {
         result =  false;
         break;
       }
@@ -583,7 +583,7 @@ bool field_equal_abs(const double d, const FieldT& f1, double error=0.0)
       }
     }
     else {
-      if(std::abs(d - **if1) > error) {
+      if(**if1 != d && !(std::abs(d - **if1) <= error)) {
         result = false;
         break;
       }
-- 
2.43.0


From 0730df29d73298d356c8d99e9641c84c7b12fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 17/23] fix: make const field iterators subscriptable

---
 spatialops/structured/MemoryWindow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryWindow.h b/spatialops/structured/MemoryWindow.h
index 988cc71..abfb1fa 100644
--- a/spatialops/structured/MemoryWindow.h
+++ b/spatialops/structured/MemoryWindow.h
@@ -547,7 +547,7 @@ namespace structured{
     inline ptrdiff_t operator- (Self const & other) const { return count_ - other.count_; };
 
     //offset dereference
-    inline AtomicType & operator[](int change) { Self result = *this; result += change; return *result; };
+    inline AtomicType const & operator[](int change) const { Self result = *this; result += change; return *result; };
 
     IntVec location() const{ return IntVec(xIndex_,yIndex_,zIndex_); }
 
-- 
2.43.0


From c17c8103b54bc737f2d29771db9eb25d2a1f0d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 18/23] fix: reject index 1 of a one-coefficient stencil
 collection

---
 spatialops/NeboStencils.h     | 2 +-
 spatialops/NeboStencils.h.fmr | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 947d019..2194598 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -100,7 +100,7 @@
                 throw(std::runtime_error(msg.str()));;
              };
 
-             if(index > 1) {
+             if(index >= 1) {
                 std::ostringstream msg;
                 msg << "Nebo error in " << "Nebo Stencil Coefficient Collection"
                 << ":\n";
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index bb9416f..bdcd5cb 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -237,7 +237,7 @@
                                      (list (nif (n< 'index "0")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(given negative value for coefficient index)))
-                                           (nif (n> 'index "1")
+                                           (nif (n>= 'index "1")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(trying to access a coefficient that does not exist))))
                                      (fc 'coef)))
-- 
2.43.0


From c404480580b36b3f9f4dd3b4cee8804641f03876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 19/23] fix: raising the limit on active workers did not wake
 the workers held back by the old one

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 53f41ba..1c393e7 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -349,7 +349,13 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
+    	locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+
     	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+
+    	// workers held back by the previous limit may now be allowed to execute queued tasks
+    	lockedThis->m_task_or_terminate_workers_event.notify_all();
+
     	return true;
     }
 
-- 
2.43.0


From 6f5ec06c74abb90448238a32aed1d13ba21a5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 20/23] fix: indexing a windowed field by triple aborted for
 valid indices

The index is local to the window (it must be below the extent and flat_index
adds the offset), but it was also asserted to be at least the offset.
---
 spatialops/structured/SpatialField.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index cec3dcb..df38d56 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1297,9 +1297,6 @@ SpatialField<Location,T>::operator()(const IntVec& ijk)
     assert( (size_t)ijk[0] <  fieldWindow_.extent(0) );
     assert( (size_t)ijk[1] <  fieldWindow_.extent(1) );
     assert( (size_t)ijk[2] <  fieldWindow_.extent(2) );
-    assert( (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] >= fieldWindow_.offset(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   }
@@ -1325,9 +1322,6 @@ operator()( const size_t i, const size_t j, const size_t k ) const
     assert( i <  fieldWindow_.extent(0) );
     assert( j <  fieldWindow_.extent(1) );
     assert( k <  fieldWindow_.extent(2) );
-    assert( i >= fieldWindow_.offset(0) );
-    assert( j >= fieldWindow_.offset(1) );
-    assert( k >= fieldWindow_.offset(2) );
 #   endif
     IntVec ijk(i,j,k);
     return fieldValues_[fieldWindow_.flat_index(ijk)];
@@ -1349,9 +1343,9 @@ operator()( const IntVec& ijk ) const
 {
   if( memType_ == LOCAL_RAM || fieldValues_ != NULL ){
 #   ifndef NDEBUG
-    assert( (size_t)ijk[0] < fieldWindow_.extent(0) && (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] < fieldWindow_.extent(1) && (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] < fieldWindow_.extent(2) && (size_t)ijk[2] >= fieldWindow_.offset(2) );
+    assert( (size_t)ijk[0] < fieldWindow_.extent(0) );
+    assert( (size_t)ijk[1] < fieldWindow_.extent(1) );
+    assert( (size_t)ijk[2] < fieldWindow_.extent(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   } else {
-- 
2.43.0


From b2a52eec477e4e274e404f63eee401ef87c80c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 21/23] fix: waiting for a task threshold missed tasks that
 finished while others were queued

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 1c393e7..203815d 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -440,6 +440,9 @@ namespace boost { namespace threadpool { namespace detail
 
         task = lockedThis->m_scheduler.top();
         lockedThis->m_scheduler.pop();
+
+        // the previous task of this worker is no longer counted, although the worker did not become idle
+        lockedThis->m_worker_idle_or_terminated_event.notify_all();
       }
 
       // call task function
-- 
2.43.0


From f10c3c63939f45fb6f83e9321c0f5bd1ddef1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:58 +0000
Subject: [PATCH 22/23] fix: a worker that died while its pool was shrinking
 undid the shrinking

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 203815d..d116db0 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -374,7 +374,13 @@ namespace boost { namespace threadpool { namespace detail
       }
       else
       {
-        lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count);
+        worker->detach(); // nobody will join it
+
+        // replace the worker, unless the pool is shrinking and has enough without it
+        if(m_worker_count < m_target_worker_count)
+        {
+          lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count);
+        }
       }
     }
 
-- 
2.43.0


From 777da2cc20855fac4dfe5f9252f30d5dd5fdb7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 23/23] fix: removing the pending tasks of a pool did not wake
 those waiting for a task threshold

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index d116db0..b74fb24 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -213,6 +213,9 @@ namespace boost { namespace threadpool { namespace detail
     void clear() volatile {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       lockedThis->m_scheduler.clear();
+
+      // those waiting for a number of tasks may go on
+      lockedThis->m_worker_idle_or_terminated_event.notify_all();
     }
 
     /*! Indicates that there are no tasks pending.
-- 
2.43.0

