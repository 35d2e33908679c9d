From 146d24c11a7dc18dd7fd9db1a6a00333d5f33e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/77] fix: conjugate the first argument of the parallel dot
 product like the sequential one

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..601dc4e 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From 0fd6a44bc84f5b3ea9c21791567a123bab976c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 02/77] fix: row-wise creation loop of a BCRSMatrix without
 rows no longer throws

---
 dune/istl/bcrsmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..746721c 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -961,7 +961,8 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        // begin and end coincide for a matrix without rows, and it is built as soon as the begin iterator exists
+        if (i==0 && Mat.ready != building && !(Mat.ready == built && _Mat.N()==0))
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-- 
2.43.0


From 36fc16bfe83c0504130bb73d2c85db74ab646ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 03/77] fix: restore the reduction of an iterative solver when
 a solve with a different reduction aborts

---
 dune/istl/solver.hh | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..4491573 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -375,10 +375,9 @@ namespace Dune
      */
     void apply (X& x, X& b, double reduction, InverseOperatorResult& res) override
     {
-      scalar_real_type saved_reduction = _reduction;
-      _reduction = reduction;
+      // restored on every exit, also if the solver aborts with an exception
+      TemporaryReduction temporaryReduction(_reduction, reduction);
       this->apply(x,b,res);
-      _reduction = saved_reduction;
     }
 
     //! Category of the solver (see SolverCategory::Category)
@@ -503,6 +502,25 @@ namespace Dune
     };
 
   protected:
+    //! Replaces the reduction during one application of the solver
+    class TemporaryReduction {
+    public:
+      TemporaryReduction(scalar_real_type& reduction, scalar_real_type value)
+        : _reduction(reduction)
+        , _saved(reduction)
+      {
+        _reduction = value;
+      }
+
+      TemporaryReduction(const TemporaryReduction&) = delete;
+
+      ~TemporaryReduction() { _reduction = _saved; }
+
+    private:
+      scalar_real_type& _reduction;
+      scalar_real_type _saved;
+    };
+
     std::shared_ptr<const LinearOperator<X,Y>> _op;
     std::shared_ptr<Preconditioner<X,Y>> _prec;
     std::shared_ptr<const ScalarProduct<X>> _sp;
-- 
2.43.0


From 8056ab9e5d6ca7f503c7b8cf5c3a045388d99f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 04/77] fix: the GMRes solvers honour the reduction passed to
 apply

---
 dune/istl/solvers.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..4744757 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -920,10 +920,12 @@ namespace Dune {
        \note Currently, the RestartedGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
+      // the convergence test uses the reduction requested for this application
+      typename IterativeSolver<X,Y>::TemporaryReduction temporaryReduction(_reduction, reduction);
       const int m = _restart;
       real_type norm = 0.0;
       int j = 1;
@@ -1166,10 +1168,12 @@ namespace Dune {
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
+      // the convergence test uses the reduction requested for this application
+      typename IterativeSolver<X,Y>::TemporaryReduction temporaryReduction(_reduction, reduction);
       const int m = _restart;
       real_type norm = 0.0;
       int i, j = 1, k;
-- 
2.43.0


From 6252e038163b7a9ad6286f01f4247891e4fe9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 05/77] fix: restart the GMRes solvers also if only one
 iteration is left

---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 4744757..32fe250 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1015,8 +1015,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if iterations are left, i.e. j <= _maxit
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1262,8 +1262,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if iterations are left, i.e. still j <= _maxit
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From c35a58e4fc5cb98ec7b28acd8b2e36b60ac4fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 06/77] fix: the generalized and flexible CG solvers stop as
 soon as the requested reduction is reached

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 32fe250..58a770e 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1462,7 +1462,8 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
@@ -1630,7 +1631,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
-- 
2.43.0


From 37b28ac99ec9f263ea8782a385825e2bc3ad6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 07/77] fix: the generalized PCG and restarted FCG solvers make
 progress with the smallest cycle length

---
 dune/istl/solvers.hh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 58a770e..56474ae 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1398,8 +1398,10 @@ private:
       _prec->pre(x,b);                 // prepare preconditioner
       _op->applyscaleadd(-1,x,b);      // overwrite b with defect
 
-      std::vector<std::shared_ptr<X> > p(_restart);
-      std::vector<field_type,fAlloc> pp(_restart);
+      // a cycle adds at least one direction to the one kept from the previous cycle
+      const int restart = std::max(_restart, 2);
+      std::vector<std::shared_ptr<X> > p(restart);
+      std::vector<field_type,fAlloc> pp(restart);
       X q(x);                  // a temporary vector
       X prec_res(x);           // a temporary vector for preconditioner output
 
@@ -1434,7 +1436,7 @@ private:
 
       while(i<_maxit) {
         // the loop
-        int end=std::min(_restart, _maxit-i+1);
+        int end=std::min(restart, _maxit-i+1);
         for (int ii = 1; ii < end; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
@@ -1467,9 +1469,9 @@ private:
         }
         if(res.converged)
           break;
-        if(end==_restart) {
-          *(p[0])=*(p[_restart-1]);
-          pp[0]=pp[_restart-1];
+        if(end==restart) {
+          *(p[0])=*(p[restart-1]);
+          pp[0]=pp[restart-1];
         }
       }
 
@@ -1657,7 +1659,7 @@ private:
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
       // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      i_bounded = std::min(1, _mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From 78e1cbf4b5b2c8ec4c0dc90c296641a617552557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 08/77] fix: a solve that is left by an exception is not
 reported as converged

---
 dune/istl/solver.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 4491573..d557969 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -456,6 +456,7 @@ namespace Dune
       bool step(CountType i, real_type def){
         if (!Simd::allTrue(isFinite(def))) // check for inf or NaN
         {
+          _res.converged = false;
           if (_parent._verbose>0)
             std::cout << "=== " << _parent.name() << ": abort due to infinite or NaN defect"
                       << std::endl;
@@ -479,7 +480,8 @@ namespace Dune
 
     protected:
       void finalize(){
-        _res.converged = (Simd::allTrue(_def<_def0*_parent._reduction || _def<real_type(1E-30)));
+        // _res.converged has been set by the last step; it stays false if the
+        // iteration was left before any defect was known
         _res.iterations = _i;
         _res.reduction = static_cast<double>(Simd::max(_def/_def0));
         _res.conv_rate  = pow(_res.reduction,1.0/_i);
-- 
2.43.0


From 752e9e5f72ed6df74a5d7a2ba2f18138bc192b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 09/77] fix: redistribute matrices to processes that hold a
 single unknown

---
 dune/istl/matrixredistribute.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..f4a5d63 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -554,8 +554,10 @@ namespace Dune
     {
       try{
         if (gi != std::numeric_limits<GlobalIndex>::max()) {
-          const typename I::IndexPair& ip=cont.aggidxset.at(gi);
-          assert(ip.global()==gi);
+          // do not use at() as that throws for index sets with a single entry
+          const typename I::IndexPair& ip=cont.aggidxset[gi];
+          if (ip.global() != gi)
+            DUNE_THROW(RangeError, "Could not find entry of "<<gi);
           std::size_t column = ip.local();
           cont.sparsity[i].insert(column);
 
@@ -639,7 +641,11 @@ namespace Dune
     {
       try{
         if (data.first != std::numeric_limits<GlobalIndex>::max()) {
-          typename M::size_type column=cont.aggidxset.at(data.first).local();
+          // do not use at() as that throws for index sets with a single entry
+          const typename I::IndexPair& ip=cont.aggidxset[data.first];
+          if (ip.global() != data.first)
+            DUNE_THROW(RangeError, "Could not find entry of "<<data.first);
+          typename M::size_type column=ip.local();
           cont.matrix[i][column]=data.second;
         }
       }
-- 
2.43.0


From 9097fede37aeb88807b47067267051418e964d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 10/77] fix: repartitioning keeps to the requested domains if
 ParMETIS refuses to partition

---
 dune/istl/repartition.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 1646810..c9c7c5f 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1279,8 +1279,10 @@ namespace Dune
     // The parmetis global identifiers for the owner vertices.
     ParmetisDuneIndexMap indexMap(graph,oocomm);
     Metis::idx_t *part = new Metis::idx_t[indexMap.numOfOwnVtx()];
+    // This is what we use if ParMETIS refuses to work (e.g. as there are
+    // processes without vertices): move whole processes to the new domains.
     for(std::size_t i=0; i < indexMap.numOfOwnVtx(); ++i)
-      part[i]=mype;
+      part[i]=(static_cast<Metis::idx_t>(mype)*nparts)/oocomm.communicator().size();
 
 #if !HAVE_PARMETIS
     if(oocomm.communicator().rank()==0 && nparts>1)
-- 
2.43.0


From 192be3d84a3971577ecbe298d80fc9f529809533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 11/77] fix: a sub graph of an empty graph counts zero edges

---
 dune/istl/paamg/graph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 5f712f8..3be6952 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1980,7 +1980,7 @@ namespace Dune
 
     template<class G, class T>
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
-      : excluded_(excluded), noVertices_(0), endVertex_(0), maxVertex_(graph.maxVertex())
+      : excluded_(excluded), noVertices_(0), endVertex_(0), noEdges_(0), maxVertex_(graph.maxVertex())
     {
       start_ = new std::ptrdiff_t[graph.noVertices()];
       end_ = new std::ptrdiff_t[graph.noVertices()];
-- 
2.43.0


From de997f330790ca0f87cc49d5d48c0156ddd8252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 12/77] fix: repartitioning does not deadlock if a part of the
 result has no neighbours

---
 dune/istl/repartition.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index c9c7c5f..9d53321 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_ISTL_REPARTITION_HH
 #define DUNE_ISTL_REPARTITION_HH
 
+#include <algorithm>
 #include <cassert>
 #include <map>
 #include <utility>
@@ -1835,7 +1836,13 @@ namespace Dune
 
 
     if(color != MPI_UNDEFINED) {
-      outcomm->remoteIndices().setNeighbours(tneighbors);
+      // An empty list of neighbours means that the neighbours are unknown and
+      // are found by a communication that involves all processes. Therefore
+      // the lists may only be used if no process has an empty one.
+      int noNeighbors = tneighbors.size()-
+        std::count(tneighbors.begin(), tneighbors.end(), outcomm->communicator().rank());
+      if(outcomm->communicator().min(noNeighbors)>0)
+        outcomm->remoteIndices().setNeighbours(tneighbors);
       outcomm->remoteIndices().template rebuild<true>();
 
     }
-- 
2.43.0


From 67e8387dda8e298153fff5a60230fc9914b9dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 13/77] fix: dropping the redistribution of a level of the AMG
 hierarchy frees it once and on all processes

---
 dune/istl/paamg/matrixhierarchy.hh | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..b0ff767 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -439,6 +439,8 @@ namespace Dune
 
         MatrixOperator* matrix=&(*mlevel);
         ParallelInformation* info =&(*infoLevel);
+        // whether a redistribution of this level might be dropped again
+        bool mayDropRedistribution = false;
 
         if((
 #if HAVE_PARMETIS
@@ -476,9 +478,19 @@ namespace Dune
           infoLevel.addRedistributed(redistComm);
           infoLevel->freeGlobalLookup();
 
-          if(!existentOnNextLevel)
+          if(!existentOnNextLevel) {
             // We do not hold any data on the redistributed partitioning
+            if(nodomains>1 && dunknowns > criterion.coarsenTarget()
+               && infoLevel->communicator().max(0)) {
+              // the other processes could not coarsen any further, see below
+              mlevel.deleteRedistributed();
+              infoLevel.deleteRedistributed();
+              redistributes_.pop_back();
+              redistributes_.push_back(RedistributeInfoType());
+            }
             break;
+          }
+          mayDropRedistribution = nodomains>1;
 
           // Work on the redistributed Matrix from now on
           matrix = &(mlevel.getRedistributed());
@@ -567,7 +579,13 @@ namespace Dune
         if(criterion.debugLevel()>2 && rank==0)
           std::cout << "Building "<<dgnoAggregates<<" aggregates took "<<watch.elapsed()<<" seconds."<<std::endl;
 
-        if(dgnoAggregates==0 || dunknowns/dgnoAggregates<criterion.minCoarsenRate())
+        bool breakdown = dgnoAggregates==0 || dunknowns/dgnoAggregates<criterion.minCoarsenRate();
+        bool dropRedistribution = false;
+        if(mayDropRedistribution)
+          // Tell also the processes that do not hold any data anymore
+          dropRedistribution = infoLevel->communicator().max(int(breakdown && info->communicator().size()>1));
+
+        if(breakdown)
         {
           if(rank==0)
           {
@@ -582,15 +600,14 @@ namespace Dune
           delete aggregatesMap;
           aggregatesMaps_.pop_back();
 
-          if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1) {
+          if(dropRedistribution) {
             // coarse level matrix was already redistributed, but to more than 1 process
             // Therefore need to delete the redistribution. Further down it will
             // then be redistributed to 1 process
-            delete &(mlevel.getRedistributed().getmat());
             mlevel.deleteRedistributed();
-            delete &(infoLevel.getRedistributed());
             infoLevel.deleteRedistributed();
-            redistributes_.back().resetSetup();
+            redistributes_.pop_back();
+            redistributes_.push_back(RedistributeInfoType());
           }
 
           break;
-- 
2.43.0


From 1e44052af22757a94185883769a3f2ffabaadfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 14/77] fix: an AMG constructed from a matrix hierarchy asks
 the hierarchy for the solver category

---
 dune/istl/paamg/amg.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..27699a2 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -414,8 +414,7 @@ namespace Dune
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
         additive(parms.getAdditive()), coarsesolverconverged(true),
         coarseSmoother_(),
-// #warning should category be retrieved from matrices?
-        category_(SolverCategory::category(*smoothers_->coarsest())),
+        category_(SolverCategory::category(*matrices_->parallelInformation().finest())),
         verbosity_(parms.debugLevel())
     {
       assert(matrices_->isBuilt());
-- 
2.43.0


From a2e210e54550eb104d9669a9769bd61a9219aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 15/77] fix: the AMG accepts a fractional coarsening rate in
 its configuration

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 27699a2..c9c63fc 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -541,7 +541,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From d245c7f5781f8b5539c486d2296fb13b0e70749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 16/77] fix: accumulationMode=successive in the configuration
 of the AMG sets the accumulation mode

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index c9c63fc..36bc510 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -554,7 +554,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From 363878c47fbc084d9717648d32f4670c3f1953e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 17/77] fix: the AMG uses maxAggregateDistance for its default
 aggregate sizes as documented

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 36bc510..929f395 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -568,7 +568,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From f21ea7260c9f32895b86814da88d51d606d9b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 18/77] fix: the AMGs do not delete a coarse solver that is
 passed by reference

---
 dune/istl/paamg/amg.hh     | 2 +-
 dune/istl/paamg/fastamg.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 929f395..03d488a 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -408,7 +408,7 @@ namespace Dune
                          const SmootherArgs& smootherArgs,
                          const Parameters& parms)
       : matrices_(stackobject_to_shared_ptr(matrices)), smootherArgs_(smootherArgs),
-        smoothers_(new Hierarchy<Smoother,A>), solver_(&coarseSolver),
+        smoothers_(new Hierarchy<Smoother,A>), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), update_(), scalarProduct_(0),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..9a0673f 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -319,7 +319,7 @@ namespace Dune
     template<class M, class X, class PI, class A>
     FastAMG<M,X,PI,A>::FastAMG(OperatorHierarchy& matrices, CoarseSolver& coarseSolver,
                                const Parameters& parms, bool symmetric_)
-      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(&coarseSolver),
+      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), residual_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
-- 
2.43.0


From 97486372b0d8331dcb2d71936c343724816de5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 19/77] fix: a coarse solver failure does not make all later
 applications of the AMG fail

---
 dune/istl/paamg/amg.hh     | 6 ++++--
 dune/istl/paamg/fastamg.hh | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 03d488a..d444e43 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1075,8 +1075,10 @@ namespace Dune
 #endif
 
         if(levelContext.matrix == matrices_->matrices().finest()) {
-          coarsesolverconverged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
-          if(!coarsesolverconverged)
+          bool converged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
+          // do not let a failure affect later applications
+          coarsesolverconverged = true;
+          if(!converged)
             DUNE_THROW(MathError, "Coarse solver did not converge");
         }
         // postsmoothing
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 9a0673f..3fcd30f 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -702,8 +702,10 @@ namespace Dune
 #endif
 
         if(levelContext.matrix == matrices_->matrices().finest()) {
-          coarsesolverconverged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
-          if(!coarsesolverconverged)
+          bool converged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
+          // do not let a failure affect later applications
+          coarsesolverconverged = true;
+          if(!converged)
             DUNE_THROW(MathError, "Coarse solver did not converge");
         }
 
-- 
2.43.0


From a9e4b643ee931f4b913df014b184d3634be7dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 20/77] fix: a coarse solver failure is reported on all
 processes also with a single level

---
 dune/istl/paamg/amg.hh | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index d444e43..412a8f5 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -321,6 +321,14 @@ namespace Dune
 
       void additiveMgc();
 
+      /**
+       * @brief Throw on all processes if the coarse solver failed on any.
+       *
+       * Does nothing if the current level is not the finest one.
+       * @param levelContext the iterators of the current level.
+       */
+      void checkCoarseSolver(LevelContext& levelContext);
+
       /**
        * @brief Move the iterators to the finer level
        * @param levelContext the iterators of the current level.
@@ -1050,6 +1058,8 @@ namespace Dune
 
         if (!res.converged)
           coarsesolverconverged = false;
+
+        checkCoarseSolver(levelContext);
       }else{
         // presmoothing
         presmooth(levelContext, preSteps_);
@@ -1074,19 +1084,24 @@ namespace Dune
         *lhs=0;
 #endif
 
-        if(levelContext.matrix == matrices_->matrices().finest()) {
-          bool converged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
-          // do not let a failure affect later applications
-          coarsesolverconverged = true;
-          if(!converged)
-            DUNE_THROW(MathError, "Coarse solver did not converge");
-        }
+        checkCoarseSolver(levelContext);
         // postsmoothing
         postsmooth(levelContext, postSteps_);
 
       }
     }
 
+    template<class M, class X, class S, class PI, class A>
+    void AMG<M,X,S,PI,A>::checkCoarseSolver(LevelContext& levelContext){
+      if(levelContext.matrix == matrices_->matrices().finest()) {
+        bool converged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
+        // do not let a failure affect later applications
+        coarsesolverconverged = true;
+        if(!converged)
+          DUNE_THROW(MathError, "Coarse solver did not converge");
+      }
+    }
+
     template<class M, class X, class S, class PI, class A>
     void AMG<M,X,S,PI,A>::additiveMgc(){
 
-- 
2.43.0


From fc93e733490338daff8e10d44c0cacc616ee7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 21/77] fix: the KAMG solves redistributed coarse systems like
 the AMG

---
 dune/istl/paamg/kamg.hh | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 2676909..28b0809 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -75,11 +75,17 @@ namespace Dune
           amg_.moveToCoarseLevel(*levelContext_);
 
         if(processFineLevel) {
-          typename AMG::Range b=*levelContext_->rhs;
-          typename AMG::Domain x=*levelContext_->update;
-          InverseOperatorResult res;
-          coarseSolver_->apply(x, b, res);
-          *levelContext_->update=x;
+          if(levelContext_->matrix == amg_.matrices_->matrices().coarsest()
+             && amg_.levels() == amg_.maxlevels())
+            // The coarse system might have been redistributed
+            amg_.mgc(*levelContext_);
+          else {
+            typename AMG::Range b=*levelContext_->rhs;
+            typename AMG::Domain x=*levelContext_->update;
+            InverseOperatorResult res;
+            coarseSolver_->apply(x, b, res);
+            *levelContext_->update=x;
+          }
         }
 
         amg_.moveToFineLevel(*levelContext_, processFineLevel);
@@ -299,16 +305,18 @@ namespace Dune
     template<class M, class X, class S, class P, class K, class A>
     void KAMG<M,X,S,P,K,A>::apply(Domain& v, const Range& d)
     {
+      typedef typename Amg::LevelContext LevelContext;
+      std::shared_ptr<LevelContext> levelContext(new LevelContext);
+      amg.initIteratorsWithFineLevel(*levelContext);
       if(ksolvers.size()==0)
       {
-        Range td=d;
-        InverseOperatorResult res;
-        amg.solver_->apply(v,td,res);
+        // The coarse system might have been redistributed
+        *levelContext->rhs = d;
+        *levelContext->update = v;
+        amg.mgc(*levelContext);
+        v = *levelContext->update;
       }else
       {
-        typedef typename Amg::LevelContext LevelContext;
-        std::shared_ptr<LevelContext> levelContext(new LevelContext);
-        amg.initIteratorsWithFineLevel(*levelContext);
         typedef typename std::vector<std::shared_ptr<KAmgTwoGrid<Amg> > >::iterator Iter;
         for(Iter solver=ksolvers.begin(); solver!=ksolvers.end(); ++solver)
           (*solver)->setLevelContext(levelContext);
-- 
2.43.0


From 233fad315318a2acd49de29231265bbcc12102cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 22/77] fix: the additive AMG handles redistributed levels and
 coarse solver failures on all processes

---
 dune/istl/paamg/amg.hh | 78 ++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 412a8f5..da577c2 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -319,7 +319,11 @@ namespace Dune
        */
       void mgc(LevelContext& levelContext);
 
-      void additiveMgc();
+      /**
+       * @brief Additive multigrid cycle on a level.
+       * @param levelContext the iterators of the current level.
+       */
+      void additiveMgc(LevelContext& levelContext);
 
       /**
        * @brief Throw on all processes if the coarse solver failed on any.
@@ -898,9 +902,12 @@ namespace Dune
       LevelContext levelContext;
 
       if(additive) {
-        *(rhs_->finest())=d;
-        additiveMgc();
-        v=*lhs_->finest();
+        initIteratorsWithFineLevel(levelContext);
+        *levelContext.rhs = d;
+        levelContext.level=0;
+        *levelContext.update=0;
+        additiveMgc(levelContext);
+        v=*levelContext.update;
       }else{
         // Init all iterators for the current level
         initIteratorsWithFineLevel(levelContext);
@@ -1003,19 +1010,21 @@ namespace Dune
         --levelContext.lhs;
         --levelContext.pinfo;
       }
+      // the additive version just sums up the corrections of all levels
+      const auto dampingFactor = additive ? 1.0 : matrices_->getProlongationDampingFactor();
       if(levelContext.redist->isSetup()) {
         // Need to redistribute during prolongateVector
         levelContext.lhs.getRedistributed()=0;
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
                            levelContext.lhs.getRedistributed(),
-                           matrices_->getProlongationDampingFactor(),
+                           dampingFactor,
                            *levelContext.pinfo, *levelContext.redist);
       }else{
         *levelContext.lhs=0;
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
-                           matrices_->getProlongationDampingFactor(),
+                           dampingFactor,
                            *levelContext.pinfo);
       }
 
@@ -1103,50 +1112,29 @@ namespace Dune
     }
 
     template<class M, class X, class S, class PI, class A>
-    void AMG<M,X,S,PI,A>::additiveMgc(){
-
-      // restrict residual to all levels
-      typename ParallelInformationHierarchy::Iterator pinfo=matrices_->parallelInformation().finest();
-      typename Hierarchy<Range,A>::Iterator rhs=rhs_->finest();
-      typename Hierarchy<Domain,A>::Iterator lhs = lhs_->finest();
-      typename OperatorHierarchy::AggregatesMapList::const_iterator aggregates=matrices_->aggregatesMaps().begin();
-
-      for(typename Hierarchy<Range,A>::Iterator fineRhs=rhs++; fineRhs != rhs_->coarsest(); fineRhs=rhs++, ++aggregates) {
-        ++pinfo;
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::restrictVector(*(*aggregates), *rhs, static_cast<const Range&>(*fineRhs), *pinfo);
-      }
-
-      // pinfo is invalid, set to coarsest level
-      //pinfo = matrices_->parallelInformation().coarsest
-      // calculate correction for all levels
-      lhs = lhs_->finest();
-      typename Hierarchy<Smoother,A>::Iterator smoother = smoothers_->finest();
-
-      for(rhs=rhs_->finest(); rhs != rhs_->coarsest(); ++lhs, ++rhs, ++smoother) {
-        // presmoothing
-        *lhs=0;
-        smoother->apply(*lhs, *rhs);
-      }
+    void AMG<M,X,S,PI,A>::additiveMgc(LevelContext& levelContext){
 
-      // Coarse level solve
+      if(levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels()) {
+        // Coarse level solve
 #ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
-      InverseOperatorResult res;
-      pinfo->copyOwnerToAll(*rhs, *rhs);
-      solver_->apply(*lhs, *rhs, res);
-
-      if(!res.converged)
-        DUNE_THROW(MathError, "Coarse solver did not converge");
+        mgc(levelContext);
 #else
-      *lhs=0;
+        *levelContext.update=0;
 #endif
-      // Prologate and add up corrections from all levels
-      --pinfo;
-      --aggregates;
+      }else{
+        // correction of this level
+        *levelContext.update=0;
+        levelContext.smoother->apply(*levelContext.update, *levelContext.rhs);
 
-      for(typename Hierarchy<Domain,A>::Iterator coarseLhs = lhs--; coarseLhs != lhs_->finest(); coarseLhs = lhs--, --aggregates, --pinfo) {
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::prolongateVector(*(*aggregates), *coarseLhs, *lhs, 1.0, *pinfo);
+        // prolongate and add up the corrections of the coarser levels
+        bool processNextLevel = moveToCoarseLevel(levelContext);
+
+        if(processNextLevel)
+          additiveMgc(levelContext);
+
+        moveToFineLevel(levelContext, processNextLevel);
+
+        checkCoarseSolver(levelContext);
       }
     }
 
-- 
2.43.0


From 5705957ea5543a86ff105da450325e17b0fb94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 23/77] fix: reading truncated or invalid MatrixMarket data
 throws instead of using garbage indices and values

---
 dune/istl/matrixmarket.hh | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..2151933 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,10 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -784,9 +788,11 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Could not read matrix entry " << i+1 << " of " << entries);
+          if(row>=rows.size() || data.index>=matrix.M()*bcols)
+            DUNE_THROW(MatrixMarketFormatError, "Indices of matrix entry " << i+1 << " are out of range");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -864,10 +870,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
-
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
                              bool isVector)
@@ -894,6 +896,9 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size!");
   }
 
   template<typename T, typename A>
@@ -904,6 +909,8 @@ namespace Dune
   {
     for (int i=0; size>0; ++i, --size)
         istr>>Simd::lane(lane,vector[i]);
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read all vector entries!");
   }
 
   template<typename T, typename A, int entries>
@@ -917,6 +924,8 @@ namespace Dune
       istr>>val;
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read all vector entries!");
   }
 
 
@@ -1005,12 +1014,18 @@ namespace Dune
 
     istr >>entries;
 
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix!");
+
     std::size_t nnz, blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
+
     std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
-- 
2.43.0


From 11292869f14d91e5c8e24a6c0b60b6f9382b70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 24/77] fix: symmetric MatrixMarket matrices without stored
 diagonal entries and partially stored blocks can be read

---
 dune/istl/matrixmarket.hh | 57 +++++++++++++++------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 2151933..d86a14f 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -546,31 +546,6 @@ namespace Dune
 
     }
 
-    template<std::size_t brows, std::size_t bcols>
-    std::tuple<std::size_t, std::size_t, std::size_t>
-    calculateNNZ(std::size_t rows, std::size_t cols, std::size_t entries, const MMHeader& header)
-    {
-      std::size_t blockrows=rows/brows;
-      std::size_t blockcols=cols/bcols;
-      std::size_t blocksize=brows*bcols;
-      std::size_t blockentries=0;
-
-      switch(header.structure)
-      {
-      case general :
-        blockentries = entries/blocksize; break;
-      case skew_symmetric :
-        blockentries = 2*entries/blocksize; break;
-      case symmetric :
-        blockentries = (2*entries-rows)/blocksize; break;
-      case hermitian :
-        blockentries = (2*entries-rows)/blocksize; break;
-      default :
-        throw Dune::NotImplemented();
-      }
-      return std::make_tuple(blockrows, blockcols, blockentries);
-    }
-
     /*
      *   @brief Storage class for the column index and the numeric value.
      *
@@ -832,8 +807,24 @@ namespace Dune
                    "Only general, symmetric, skew-symmetric and hermitian is supported right now!");
       }
 
+      // Count the blocks that are present. Neither needs a block to be stored completely
+      // nor do symmetric matrices need to have all their diagonal entries stored.
+      std::size_t nnz=0;
+      std::set<std::size_t> blocks;
+      for(std::size_t brow=0; brow<rows.size(); ++brow)
+      {
+        for(const auto& data : rows[brow])
+          blocks.insert(data.index/bcols);
+        if((brow+1)%brows==0)
+        {
+          nnz+=blocks.size();
+          blocks.clear();
+        }
+      }
+      matrix.setSize(matrix.N(), matrix.M(), nnz);
+      matrix.setBuildMode(Matrix::row_wise);
+
       // Setup the matrix sparsity pattern
-      int nnz=0;
       for(typename Matrix::CreateIterator iter=matrix.createbegin();
           iter!= matrix.createend(); ++iter)
       {
@@ -842,7 +833,7 @@ namespace Dune
         {
           typedef typename std::set<IndexData<D> >::const_iterator Siter;
           for(Siter siter=rows[brow].begin(), send=rows[brow].end();
-              siter != send; ++siter, ++nnz)
+              siter != send; ++siter)
             iter.insert(siter->index/bcols);
         }
       }
@@ -1017,8 +1008,6 @@ namespace Dune
     if(!istr)
       DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix!");
 
-    std::size_t nnz, blockrows, blockcols;
-
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
@@ -1026,17 +1015,15 @@ namespace Dune
     if(rows%brows!=0 || cols%bcols!=0)
       DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
-
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
-
-    matrix.setSize(blockrows, blockcols, nnz);
-    matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
-
     if(header.type==array_type)
       DUNE_THROW(Dune::NotImplemented, "Array format currently not supported for matrices!");
 
+    // The number of nonzeros is only known after reading the entries
+    matrix.setSize(rows/brows, cols/bcols);
+    matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
+
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
-- 
2.43.0


From 9f67ba4ee1c0c8b2add6edfbd6e5ae0d6be1422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 25/77] fix: blank lines after the comments of a MatrixMarket
 file are skipped

---
 dune/istl/matrixmarket.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index d86a14f..c5da5e2 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -342,13 +342,16 @@ namespace Dune
 
     inline void skipComments(std::istream& file)
     {
-      lineFeed(file);
+      // ignore blank lines
+      while(lineFeed(file)) {}
       char c=file.peek();
       // ignore comment lines
       while(c=='%')
       {
         /* discard the rest of the line */
         file.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
+        // and blank lines that follow
+        while(lineFeed(file)) {}
         c=file.peek();
       }
     }
-- 
2.43.0


From b7f5a1c2f712f78ff34548b6ea1e64ef79533813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 26/77] fix: complex matrices and vectors in MatrixMarket files
 are stored as real and imaginary part

---
 dune/istl/matrixmarket.hh | 59 +++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index c5da5e2..0db0557 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -721,6 +721,35 @@ namespace Dune
       return std::conj(r);
     }
 
+    // Write a number. Complex numbers are not written in pair form (x,y),
+    // but as real and imaginary part.
+    template<class T>
+    void writeNumber(std::ostream& os, const T& number)
+    {
+      if constexpr (is_complex<T>::value)
+        os << number.real() << " " << number.imag();
+      else
+        os << number;
+    }
+
+    // Read a number. Complex numbers may be stored as real and imaginary part
+    // or in pair form (x,y).
+    template<class T>
+    void readNumber(std::istream& is, T& number, const MMHeader& header)
+    {
+      if constexpr (is_complex<T>::value)
+      {
+        if(header.ctype==complex_type && (is>>std::ws).peek()!='(')
+        {
+          typename T::value_type real, imag;
+          if(is>>real>>imag)
+            number = {real, imag};
+          return;
+        }
+      }
+      is>>number;
+    }
+
     template<typename M>
     struct mm_multipliers
     {};
@@ -899,10 +928,11 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              const MatrixMarketImpl::MMHeader& header = {})
   {
     for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+        MatrixMarketImpl::readNumber(istr, Simd::lane(lane,vector[i]), header);
     if(!istr)
       DUNE_THROW(MatrixMarketFormatError, "Could not read all vector entries!");
   }
@@ -911,11 +941,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<Dune::FieldVector<T,entries>,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              const MatrixMarketImpl::MMHeader& header = {})
   {
     for(int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      istr>>val;
+      MatrixMarketImpl::readNumber(istr, val, header);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
     if(!istr)
@@ -965,7 +996,7 @@ namespace Dune
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
-      mm_read_vector_entries(vector, rows, istr, l);
+      mm_read_vector_entries(vector, rows, istr, l, header);
     }
   }
 
@@ -1023,6 +1054,9 @@ namespace Dune
     if(header.type==array_type)
       DUNE_THROW(Dune::NotImplemented, "Array format currently not supported for matrices!");
 
+    if((header.ctype==complex_type) != is_complex<typename Matrix::field_type>::value)
+      DUNE_THROW(MatrixMarketFormatError, "The numeric type of the file does not fit to that of the matrix!");
+
     // The number of nonzeros is only known after reading the entries
     matrix.setSize(rows/brows, cols/bcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
@@ -1038,13 +1072,21 @@ namespace Dune
                       std::ostream& ostr)
   {
     if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+    {
+      ostr << rowidx << " " << colidx << " ";
+      MatrixMarketImpl::writeNumber(ostr, entry);
+      ostr << std::endl;
+    }
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
         for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+        {
+          ostr<< rowidx<<" "<<coli<<" ";
+          MatrixMarketImpl::writeNumber(ostr, *col);
+          ostr<<std::endl;
+        }
       }
     }
   }
@@ -1055,7 +1097,8 @@ namespace Dune
                              const std::integral_constant<int,1>&,
                              size_t lane)
   {
-    ostr<<Simd::lane(lane,entry)<<std::endl;
+    MatrixMarketImpl::writeNumber(ostr, Simd::lane(lane,entry));
+    ostr<<std::endl;
   }
 
   // Write a vector
-- 
2.43.0


From 80d74aa00387a9d1ed1bb681afdf189762b5cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 27/77] fix: storeMatrixMarket reports write errors

---
 dune/istl/matrixmarket.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 0db0557..9ccafd3 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1222,6 +1222,8 @@ namespace Dune
       file.precision(prec);
     writeMatrixMarket(matrix, file);
     file.close();
+    if(!file)
+      DUNE_THROW(IOError, "Could not write file: " << rfilename.c_str());
   }
 
 #if HAVE_MPI
@@ -1272,6 +1274,8 @@ namespace Dune
       file.precision(prec);
     writeMatrixMarket(matrix, file);
     file.close();
+    if(!file)
+      DUNE_THROW(IOError, "Could not write file: " << rfilename.c_str());
 
     if(!storeIndices)
       return;
@@ -1297,6 +1301,8 @@ namespace Dune
       file<<" "<< *neighbour;
     }
     file.close();
+    if(!file)
+      DUNE_THROW(IOError, "Could not write file: " << rfilename.c_str());
   }
 
   /**
-- 
2.43.0


From a19166efb9a679652fd2f9b98e7f341b3e557779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 28/77] fix: loadMatrixMarket reports truncated or invalid
 index files instead of reading on for ever

---
 dune/istl/matrixmarket.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 9ccafd3..ff54b99 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1380,10 +1380,14 @@ namespace Dune
       file >>c;
       bool b;
       file >> b;
+      if(!file)
+        DUNE_THROW(MatrixMarketFormatError, "Could not read an entry of the index set from file " << rfilename.c_str());
       pis.add(g,LocalIndexT(l,Attribute(c),b));
       lineFeed(file);
     }
     pis.endResize();
+    if(file.bad())
+      DUNE_THROW(IOError, "Could not read file: " << rfilename.c_str());
     if(!file.eof()) {
       // read neighbours
       std::string s;
@@ -1391,11 +1395,11 @@ namespace Dune
       if(s!="neighbours:")
         DUNE_THROW(MatrixMarketFormatError, "was expecting the string: \"neighbours:\"");
       std::set<int> nb;
-      while(!file.eof()) {
-        int i;
-        file >> i;
+      int i;
+      while(file >> i)
         nb.insert(i);
-      }
+      if(!file.eof())
+        DUNE_THROW(MatrixMarketFormatError, "Could not read the neighbours from file " << rfilename.c_str());
       file.close();
       comm.ri.setNeighbours(nb);
     }
-- 
2.43.0


From 68a59ca05e9c5294461a288f4214dc062ed83bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 29/77] fix: a read error in the first line of a MatrixMarket
 file is not taken for a missing banner

---
 dune/istl/matrixmarket.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index ff54b99..69e58e7 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -900,6 +900,8 @@ namespace Dune
     using namespace MatrixMarketImpl;
 
     if(!readMatrixMarketBanner(istr, header)) {
+      if(istr.bad())
+        DUNE_THROW(IOError, "Could not read the MatrixMarket banner!");
       std::cerr << "First line was not a correct Matrix Market banner. Using default:\n"
                 << "%%MatrixMarket matrix coordinate real general"<<std::endl;
       // Go to the beginning of the file
@@ -1015,6 +1017,8 @@ namespace Dune
 
     MMHeader header;
     if(!readMatrixMarketBanner(istr, header)) {
+      if(istr.bad())
+        DUNE_THROW(IOError, "Could not read the MatrixMarket banner!");
       std::cerr << "First line was not a correct Matrix Market banner. Using default:\n"
                 << "%%MatrixMarket matrix coordinate real general"<<std::endl;
       // Go to the beginning of the file
-- 
2.43.0


From bde83a30f336f271673a381f39ac65198ef726f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 30/77] fix: writeMatrixToMatlab can write matrices without
 columns

---
 dune/istl/io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d7bd69c..db09029 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -436,7 +436,7 @@ namespace Dune {
     if (colOffset.size() > 0)
       colOffset[0] = 0;
 
-    for (typename MatrixType::size_type i=0; i<matrix.M()-1; i++)
+    for (typename MatrixType::size_type i=0; i+1<matrix.M(); i++)
       colOffset[i+1] = colOffset[i] +
                        MatrixDimension<MatrixType>::coldim(matrix,i);
 
-- 
2.43.0


From 75c41afb72ad8c4f0b15ca159a2d08533ac5aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 31/77] fix: writeMatrixToMatlab and writeVectorToMatlab report
 write errors

---
 dune/istl/io.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index db09029..bf1e9ac 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -484,11 +484,16 @@ namespace Dune {
                            const std::string& filename, int outputPrecision = 18)
   {
     std::ofstream outStream(filename.c_str());
+    if (!outStream)
+      DUNE_THROW(IOError, "Could not open file for writing: " << filename);
     int oldPrecision = outStream.precision();
     outStream.precision(outputPrecision);
 
     writeMatrixToMatlabHelper(matrix, 0, 0, outStream);
     outStream.precision(oldPrecision);
+    outStream.close();
+    if (!outStream)
+      DUNE_THROW(IOError, "Could not write file: " << filename);
   }
 
   // Recursively write vector entries to a stream
@@ -525,11 +530,16 @@ namespace Dune {
                            const std::string& filename, int outputPrecision = 18)
   {
     std::ofstream outStream(filename.c_str());
+    if (!outStream)
+      DUNE_THROW(IOError, "Could not open file for writing: " << filename);
     int oldPrecision = outStream.precision();
     outStream.precision(outputPrecision);
 
     writeVectorToMatlabHelper(vector, outStream);
     outStream.precision(oldPrecision);
+    outStream.close();
+    if (!outStream)
+      DUNE_THROW(IOError, "Could not write file: " << filename);
   }
 
   namespace Impl {
-- 
2.43.0


From 78402aec8bff4f964a535da518cf9473a91e94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 32/77] fix: the condition estimate of a CG that did not
 converge does not read one element too far

---
 dune/istl/solvers.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 56474ae..7b2043d 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -347,7 +347,9 @@ namespace Dune {
           // those of the original system
           // (see Y. Saad, Iterative methods for sparse linear systems)
 
-          COND_MAT T(i, i, COND_MAT::row_wise);
+          // the number of iterations done (if not converged, i is one more)
+          const int n = lambdas.size();
+          COND_MAT T(n, n, COND_MAT::row_wise);
 
           for (auto row = T.createbegin(); row != T.createend(); ++row) {
             if (row.index() > 0)
@@ -356,7 +358,7 @@ namespace Dune {
             if (row.index() < T.N() - 1)
               row.insert(row.index()+1);
           }
-          for (int row = 0; row < i; ++row) {
+          for (int row = 0; row < n; ++row) {
             if (row > 0) {
               T[row][row-1] = sqrt(betas[row-1]) / lambdas[row-1];
             }
@@ -366,7 +368,7 @@ namespace Dune {
               T[row][row] += betas[row-1] / lambdas[row-1];
             }
 
-            if (row < i - 1) {
+            if (row < n - 1) {
               T[row][row+1] = sqrt(betas[row]) / lambdas[row];
             }
           }
-- 
2.43.0


From d1358dbf006e2ca53c099967f62f70d7e2eac398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 33/77] fix: copying a BCRSMatrix does not write to the column
 indices of the original

---
 dune/istl/bcrsmatrix.hh | 50 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 746721c..df36546 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2079,26 +2079,6 @@ namespace Dune {
     typedef std::map<std::pair<size_type,size_type>, B> OverflowType;
     OverflowType overflow;
 
-    void setWindowPointers(ConstRowIterator row)
-    {
-      row_type current_row(a,j_.get(),0); // Pointers to current row data
-      for (size_type i=0; i<n; i++, ++row) {
-        // set row i
-        size_type s = row->getsize();
-
-        if (s>0) {
-          // setup pointers and size
-          r[i].set(s,current_row.getptr(), current_row.getindexptr());
-          // update pointer for next row
-          current_row.setptr(current_row.getptr()+s);
-          current_row.setindexptr(current_row.getindexptr()+s);
-        } else{
-          // empty row
-          r[i].set(0,nullptr,nullptr);
-        }
-      }
-    }
-
     //! Copy row sizes from iterator range starting at row and set column index pointers for all rows.
     /**
      * This method does not modify the data pointers, as those are set only
@@ -2151,10 +2131,34 @@ namespace Dune {
     //! \brief Copy the window structure from another matrix
     void copyWindowStructure(const BCRSMatrix& Mat)
     {
-      setWindowPointers(Mat.begin());
+      // Shared column indices must not be written, they belong to Mat, too.
+      // Moreover, there may be unused space between the indices of two rows.
+      const bool sharedIndices = j_ && j_ == Mat.j_;
 
-      // copy data
-      for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
+      B* aptr = a;
+      size_type* jptr = j_.get();
+      for (size_type i=0; i<n; ++i) {
+        row_type& row = Mat.r[i];
+        const size_type s = row.getsize();
+
+        if (s==0) {
+          // empty row
+          r[i].set(0,nullptr,nullptr);
+          continue;
+        }
+
+        if (sharedIndices)
+          jptr = row.getindexptr();
+        else
+          std::copy_n(row.getindexptr(), s, jptr);
+        r[i].set(s, aptr, jptr);
+
+        // copy data
+        std::copy_n(row.getptr(), s, aptr);
+
+        aptr += s;
+        jptr += s;
+      }
 
       // finish off
       build_mode = row_wise; // dummy
-- 
2.43.0


From 48986b3cc831e99599448d2a4c679f6925b58282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 34/77] fix: the number of nonzeroes of a BCRSMatrix does not
 depend on the way it was built

---
 dune/istl/bcrsmatrix.hh | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index df36546..4dd5bdb 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -967,8 +967,11 @@ namespace Dune {
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
         if(i==0 && _Mat.N()==0)
+        {
           // empty Matrix is always built.
-           Mat.ready = built;
+          Mat.ready = built;
+          Mat.nnz_ = 0;
+        }
       }
 
       //! prefix increment
@@ -990,12 +993,12 @@ namespace Dune {
           nnz += s;
 
           // alloc memory / set window
-          if (Mat.nnz_ > 0)
+          if (Mat.allocationSize_ > 0)
           {
             // memory is allocated in one long array
 
             // check if that memory is sufficient
-            if (nnz > Mat.nnz_)
+            if (nnz > Mat.allocationSize_)
               DUNE_THROW(BCRSMatrixError,"allocated nnz too small");
 
             // set row i
@@ -1026,11 +1029,11 @@ namespace Dune {
         if (i==Mat.n)
         {
           Mat.ready = built;
-          if(Mat.nnz_ > 0)
+          // Set nnz to the exact number of nonzero blocks inserted
+          // as some methods rely on it
+          Mat.nnz_ = nnz;
+          if(Mat.allocationSize_ > 0)
           {
-            // Set nnz to the exact number of nonzero blocks inserted
-            // as some methods rely on it
-            Mat.nnz_ = nnz;
             // allocate data array
             Mat.allocateData();
             Mat.setDataPointers();
@@ -1164,13 +1167,15 @@ namespace Dune {
       else if(nnz_ < total)
         DUNE_THROW(BCRSMatrixError,"Specified number of nonzeros ("<<nnz_<<") not "
                                                              <<"sufficient for calculated nonzeros ("<<total<<"! ");
+      // more space than needed may have been requested
+      nnz_ = total;
 
       // set the window pointers correctly
       setColumnPointers(begin());
 
       // initialize j_ array with m (an invalid column index)
       // this indicates an unused entry
-      for (size_type k=0; k<nnz_; k++)
+      for (size_type k=0; k<allocationSize_; k++)
         j_.get()[k] = m;
       ready = rowSizesBuilt;
     }
@@ -1491,6 +1496,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
@@ -1518,7 +1524,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
@@ -1546,7 +1552,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
@@ -2013,9 +2019,9 @@ namespace Dune {
     //! number of blocks that are stored (the number of blocks that possibly are nonzero)
     size_type nonzeroes () const
     {
-      // in case of row-wise allocation
+      // in case of row-wise allocation the number is not known before the matrix is built
       if( nnz_ <= 0 )
-        nnz_ = std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
+        return std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
       return nnz_;
     }
 
@@ -2059,8 +2065,8 @@ namespace Dune {
     // size of the matrix
     size_type n;       // number of rows
     size_type m;       // number of columns
-    mutable size_type nnz_;     // number of nonzeroes contained in the matrix
-    size_type allocationSize_; //allocated size of a and j arrays, except in implicit mode: nnz_==allocationsSize_
+    size_type nnz_;     // number of nonzeroes contained in the matrix
+    size_type allocationSize_; //allocated size of a and j arrays, at least nnz_ (except for shared column indices).
     // zero means that memory is allocated separately for each row.
 
     // the rows are dynamically allocated
-- 
2.43.0


From 2a4f542bb8d24779e4b490e72b00b6a50dce1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 35/77] fix: entries of an unfinished implicit build do not
 appear in a BCRSMatrix of another size

---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 4dd5bdb..f8d220d 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2220,6 +2220,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // entries of an implicit build that has not been finished
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From 530533186e1c92c5a97494b2e43f64e5c5bd383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 36/77] fix: compress() does not write out of bounds if no
 entries per row were expected

---
 dune/istl/bcrsmatrix.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index f8d220d..fac4067 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1402,6 +1402,7 @@ namespace Dune {
 
       //get insertion iterators pointing to one before start (for later use of ++it)
       size_type* jiit = j_.get();
+      size_type* const jend = jiit + allocationSize_;
       B* aiit = a;
 
       //get iterator to the smallest overflow element
@@ -1437,7 +1438,7 @@ namespace Dune {
           while ((oit!=overflow.end()) && (oit->first < std::make_pair(i,**it)))
           {
             //check whether there is enough memory to write to
-            if (jiit > begin)
+            if (jiit > begin || jiit == jend)
               DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
                          "Allocated memory for BCRSMatrix exhausted during compress()!"
                          "Please increase either the average number of entries per row or the compressionBufferSize value."
@@ -1452,7 +1453,7 @@ namespace Dune {
           }
 
           //check whether there is enough memory to write to
-          if (jiit > begin)
+          if (jiit > begin || jiit == jend)
               DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
                          "Allocated memory for BCRSMatrix exhausted during compress()!"
                          "Please increase either the average number of entries per row or the compressionBufferSize value."
@@ -1470,7 +1471,7 @@ namespace Dune {
         while ((oit!=overflow.end()) && (oit->first.first == i))
         {
           //check whether there is enough memory to write to
-          if (jiit > begin)
+          if (jiit > begin || jiit == jend)
               DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
                          "Allocated memory for BCRSMatrix exhausted during compress()!"
                          "Please increase either the average number of entries per row or the compressionBufferSize value."
-- 
2.43.0


From 9c90799c046fdcf3ef95045dbb4230802b7a32dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 37/77] fix: copies of an empty BCRSMatrix are empty and can be
 built in any mode

---
 dune/istl/bcrsmatrix.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index fac4067..919a7c6 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -807,6 +807,10 @@ namespace Dune {
       if (!(Mat.ready == notAllocated || Mat.ready == built))
         DUNE_THROW(InvalidStateException,"BCRSMatrix can only be copy-constructed when source matrix is completely empty (size not set) or fully built)");
 
+      // the copy of an empty matrix is empty
+      if (Mat.ready == notAllocated)
+        return;
+
       // deep copy in global array
       size_type _nnz = Mat.nonzeroes();
 
@@ -913,6 +917,16 @@ namespace Dune {
       if (!((ready == notAllocated || ready == built) && (Mat.ready == notAllocated || Mat.ready == built)))
         DUNE_THROW(InvalidStateException,"BCRSMatrix can only be copied when both target and source are empty or fully built)");
 
+      // the copy of an empty matrix is empty
+      if (Mat.ready == notAllocated) {
+        deallocate();
+        n = m = nnz_ = allocationSize_ = 0;
+        build_mode = Mat.build_mode;
+        avg = Mat.avg;
+        compressionBufferSize_ = Mat.compressionBufferSize_;
+        return *this;
+      }
+
       // make it simple: ALWAYS throw away memory for a and j_
       // and deallocate rows only if n != Mat.n
       deallocate(n!=Mat.n);
-- 
2.43.0


From d55ac475944d157ff47f271dbd8073f07867312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 38/77] fix: BCRSMatrix releases individually allocated rows
 with their size, and rows without memory not at all

---
 dune/istl/bcrsmatrix.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 919a7c6..3c0e007 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2213,14 +2213,14 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 8a413925f89f1ddbd4036750446a18779ed905d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 39/77] fix: BCRSMatrix neither leaks nor breaks when an
 allocation fails

---
 dune/istl/bcrsmatrix.hh | 134 ++++++++++++++++++++++++----------------
 1 file changed, 82 insertions(+), 52 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3c0e007..a32a5b8 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -818,7 +818,13 @@ namespace Dune {
       allocate(Mat.n, Mat.m, _nnz, true, true);
 
       // build window structure
-      copyWindowStructure(Mat);
+      try {
+        copyWindowStructure(Mat);
+      }
+      catch (...) {
+        clear();
+        throw;
+      }
     }
 
     //! destructor
@@ -919,8 +925,7 @@ namespace Dune {
 
       // the copy of an empty matrix is empty
       if (Mat.ready == notAllocated) {
-        deallocate();
-        n = m = nnz_ = allocationSize_ = 0;
+        clear();
         build_mode = Mat.build_mode;
         avg = Mat.avg;
         compressionBufferSize_ = Mat.compressionBufferSize_;
@@ -931,22 +936,18 @@ namespace Dune {
       // and deallocate rows only if n != Mat.n
       deallocate(n!=Mat.n);
 
-      // reallocate the rows if required
-      if (n>0 && n!=Mat.n) {
-        // free rows
-        for(row_type *riter=r+(n-1), *rend=r-1; riter!=rend; --riter)
-          std::allocator_traits<decltype(rowAllocator_)>::destroy(rowAllocator_, riter);
-        rowAllocator_.deallocate(r,n);
-      }
-
-      nnz_ = Mat.nonzeroes();
-
       // allocate a, share j_
       j_ = Mat.j_;
-      allocate(Mat.n, Mat.m, nnz_, n!=Mat.n, true);
+      allocate(Mat.n, Mat.m, Mat.nonzeroes(), n!=Mat.n, true);
 
       // build window structure
-      copyWindowStructure(Mat);
+      try {
+        copyWindowStructure(Mat);
+      }
+      catch (...) {
+        clear();
+        throw;
+      }
       return *this;
     }
 
@@ -1003,16 +1004,13 @@ namespace Dune {
         size_type s = pattern.size();
 
         if(s>0) {
-          // update number of nonzeroes including this row
-          nnz += s;
-
           // alloc memory / set window
           if (Mat.allocationSize_ > 0)
           {
             // memory is allocated in one long array
 
             // check if that memory is sufficient
-            if (nnz > Mat.allocationSize_)
+            if (nnz+s > Mat.allocationSize_)
               DUNE_THROW(BCRSMatrixError,"allocated nnz too small");
 
             // set row i
@@ -1021,11 +1019,19 @@ namespace Dune {
           }else{
             // memory is allocated individually per row
             // allocate and set row i
-            B* b = Mat.allocator_.allocate(s);
-            // use placement new to call constructor that allocates
-            // additional memory.
-            new (b) B[s];
             size_type* j = Mat.sizeAllocator_.allocate(s);
+            B* b = nullptr;
+            try {
+              b = Mat.allocator_.allocate(s);
+              // call constructor that allocates additional memory.
+              std::uninitialized_default_construct_n(b, s);
+            }
+            catch (...) {
+              if (b)
+                Mat.allocator_.deallocate(b, s);
+              Mat.sizeAllocator_.deallocate(j, s);
+              throw;
+            }
             Mat.r[i].set(s,b,j);
           }
         }else
@@ -1035,6 +1041,9 @@ namespace Dune {
         // initialize the j array for row i from pattern
         std::copy(pattern.cbegin(), pattern.cend(), Mat.r[i].getindexptr());
 
+        // number of nonzeroes including this row
+        nnz += s;
+
         // now go to next row
         i++;
         pattern.clear();
@@ -1042,7 +1051,6 @@ namespace Dune {
         // check if this was last row
         if (i==Mat.n)
         {
-          Mat.ready = built;
           // Set nnz to the exact number of nonzero blocks inserted
           // as some methods rely on it
           Mat.nnz_ = nnz;
@@ -1052,6 +1060,7 @@ namespace Dune {
             Mat.allocateData();
             Mat.setDataPointers();
           }
+          Mat.ready = built;
         }
         // done
         return *this;
@@ -2243,6 +2252,13 @@ namespace Dune {
 
     }
 
+    //! Free all memory and make this an empty matrix
+    void clear()
+    {
+      deallocate();
+      n = m = nnz_ = allocationSize_ = 0;
+    }
+
     /**
      *  @brief Allocate memory for the matrix structure
      *
@@ -2263,39 +2279,47 @@ namespace Dune {
      */
     void allocate(size_type rows, size_type columns, size_type allocationSize, bool allocateRows, bool allocate_data)
     {
+      if (allocateRows && rows>0 && r)
+        DUNE_THROW(InvalidStateException,"Rows have already been allocated, cannot allocate a second time");
+
       // Store size
       n = rows;
       m = columns;
       nnz_ = allocationSize;
       allocationSize_ = allocationSize;
 
-      // allocate rows
-      if(allocateRows) {
-        if (n>0) {
-          if (r)
-            DUNE_THROW(InvalidStateException,"Rows have already been allocated, cannot allocate a second time");
-          r = rowAllocator_.allocate(rows);
-          // initialize row entries
-          for(row_type* ri=r; ri!=r+rows; ++ri)
-            std::allocator_traits<decltype(rowAllocator_)>::construct(rowAllocator_, ri, row_type());
+      try {
+        // allocate rows
+        if(allocateRows) {
+          if (n>0) {
+            r = rowAllocator_.allocate(rows);
+            // initialize row entries
+            for(row_type* ri=r; ri!=r+rows; ++ri)
+              std::allocator_traits<decltype(rowAllocator_)>::construct(rowAllocator_, ri, row_type());
+          }else{
+            r = 0;
+          }
+        }
+
+        // allocate a and j_ array
+        if (allocate_data)
+          allocateData();
+        // allocate column indices only if not yet present (enable sharing)
+        if (allocationSize_>0) {
+          // we copy allocator and size to the deleter since _j may outlive this class
+          if (!j_.get())
+            j_.reset(sizeAllocator_.allocate(allocationSize_),
+              [alloc = sizeAllocator_, size = allocationSize_](auto ptr) mutable {
+                alloc.deallocate(ptr, size);
+              });
         }else{
-          r = 0;
+          j_.reset();
         }
       }
-
-      // allocate a and j_ array
-      if (allocate_data)
-        allocateData();
-      // allocate column indices only if not yet present (enable sharing)
-      if (allocationSize_>0) {
-        // we copy allocator and size to the deleter since _j may outlive this class
-        if (!j_.get())
-          j_.reset(sizeAllocator_.allocate(allocationSize_),
-            [alloc = sizeAllocator_, size = allocationSize_](auto ptr) mutable {
-              alloc.deallocate(ptr, size);
-            });
-      }else{
-        j_.reset();
+      catch (...) {
+        // leave an empty matrix behind
+        clear();
+        throw;
       }
 
       // Mark the matrix as not built.
@@ -2307,10 +2331,16 @@ namespace Dune {
       if (a)
         DUNE_THROW(InvalidStateException,"Cannot allocate data array (already allocated)");
       if (allocationSize_>0) {
-        a = allocator_.allocate(allocationSize_);
-        // use placement new to call constructor that allocates
-        // additional memory.
-        new (a) B[allocationSize_];
+        B* data = allocator_.allocate(allocationSize_);
+        // call constructor that allocates additional memory.
+        try {
+          std::uninitialized_default_construct_n(data, allocationSize_);
+        }
+        catch (...) {
+          allocator_.deallocate(data, allocationSize_);
+          throw;
+        }
+        a = data;
       } else {
         a = nullptr;
       }
-- 
2.43.0


From c4a17a5abaf836a03293b540ecce6efdfc830540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 40/77] fix: BDMatrix and BTDMatrix can be resized after
 default construction and copying

---
 dune/istl/bdmatrix.hh  | 2 ++
 dune/istl/btdmatrix.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..c331557 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -83,6 +83,8 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      size);  // nonzeros
+      // matrices that were empty or copied have another build mode
+      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..63d0ceb 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -80,6 +80,8 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      nonZeros);
+      // matrices that were empty or copied have another build mode
+      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
-- 
2.43.0


From 5055f4fc9506bb17959c0be4d038b034ec18e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 41/77] fix: VariableBlockVector can be created without blocks
 and forgets former block sizes

---
 dune/istl/vbvector.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..58150ad 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -199,7 +199,8 @@ namespace Dune {
 
       syncBaseArray();
 
-      // we can allocate the windows now
+      // we can allocate the windows now, the sizes of former blocks do not matter any more
+      block.clear();
       block.resize(numBlocks);
 
       // and the vector not fully usable
@@ -530,7 +531,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size()>0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From e50cf7c00dcf23c843100a108c98232aff8b3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 42/77] fix: VariableBlockVector survives a failing allocation

---
 dune/istl/vbvector.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 58150ad..665d535 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -210,9 +210,18 @@ namespace Dune {
     //! same effect as constructor with same argument
     void resize (size_type numBlocks, size_type blockSize)
     {
+      // without memory for the new entries an empty vector remains
+      resize(0);
+
       // and we can allocate the big array in the base class
-      storage_.resize(numBlocks*blockSize);
       block.resize(numBlocks);
+      try {
+        storage_.resize(numBlocks*blockSize);
+      }
+      catch (...) {
+        block.clear();
+        throw;
+      }
       syncBaseArray();
 
       // set the windows into the big array
@@ -302,7 +311,7 @@ namespace Dune {
         isEnd(_isEnd)
       {}
 
-      ~CreateIterator ()
+      ~CreateIterator () noexcept(false)
       {
         // When the iterator gets destructed, we allocate the memory
         // for the VariableBlockVector if
-- 
2.43.0


From 2cc034a37e0a613994dcd4d1276b81aa590efb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 43/77] fix: the dense Matrix survives a failing allocation

---
 dune/istl/matrix.hh | 115 ++++++++++++++++++++------------------------
 1 file changed, 51 insertions(+), 64 deletions(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..cf10c27 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -95,18 +95,8 @@ namespace MatrixImp
     DenseMatrixBase (size_type rows, size_type columns) : Imp::block_vector_unmanaged<B,size_type>()
     {
       // and we can allocate the big array in the base class
-      this->n = rows*columns;
+      allocate(rows*columns);
       columns_ = columns;
-      if (this->n>0)
-      {
-        this->p = allocator_.allocate(this->n);
-        new (this->p)B[this->n];
-      }
-      else
-      {
-        this->n = 0;
-        this->p = 0;
-      }
 
       // we can allocate the windows now
       rows_ = rows;
@@ -116,22 +106,17 @@ namespace MatrixImp
     DenseMatrixBase (const DenseMatrixBase& a)
     {
       // allocate the big array in the base class
-      this->n = a.n;
+      allocate(a.n);
       columns_ = a.columns_;
-      if (this->n>0)
-      {
-        // allocate and construct objects
-        this->p = allocator_.allocate(this->n);
-        new (this->p)B[this->n];
 
-        // copy data
+      // copy data
+      try {
         for (size_type i=0; i<this->n; i++)
           this->p[i]=a.p[i];
       }
-      else
-      {
-        this->n = 0;
-        this->p = nullptr;
+      catch (...) {
+        deallocate();
+        throw;
       }
 
       // we can allocate the windows now
@@ -141,37 +126,17 @@ namespace MatrixImp
     //! free dynamic memory
     ~DenseMatrixBase ()
     {
-      if (this->n>0) {
-        size_type i=this->n;
-        while (i)
-          this->p[--i].~B();
-        allocator_.deallocate(this->p,this->n);
-      }
+      deallocate();
     }
 
     //! same effect as constructor with same argument
     void resize (size_type rows, size_type columns)
     {
       // deconstruct objects and deallocate memory if necessary
-      if (this->n>0) {
-        size_type i=this->n;
-        while (i)
-          this->p[--i].~B();
-        allocator_.deallocate(this->p,this->n);
-      }
+      deallocate();
 
       // and we can allocate the big array in the base class
-      this->n = rows*columns;
-      if (this->n>0)
-      {
-        this->p = allocator_.allocate(this->n);
-        new (this->p)B[this->n];
-      }
-      else
-      {
-        this->n = 0;
-        this->p = nullptr;
-      }
+      allocate(rows*columns);
 
       // we can allocate the windows now
       rows_ = rows;
@@ -183,36 +148,20 @@ namespace MatrixImp
     {
       if (&a!=this)     // check if this and a are different objects
       {
-        columns_ = a.columns_;
         // reallocate arrays if necessary
         // Note: still the block sizes may vary !
         if (this->n!=a.n || rows_!=a.rows_)
         {
           // deconstruct objects and deallocate memory if necessary
-          if (this->n>0) {
-            size_type i=this->n;
-            while (i)
-              this->p[--i].~B();
-            allocator_.deallocate(this->p,this->n);
-          }
+          deallocate();
 
           // allocate the big array in the base class
-          this->n = a.n;
-          if (this->n>0)
-          {
-            // allocate and construct objects
-            this->p = allocator_.allocate(this->n);
-            new (this->p)B[this->n];
-          }
-          else
-          {
-            this->n = 0;
-            this->p = nullptr;
-          }
+          allocate(a.n);
 
           // Copy number of rows
           rows_ = a.rows_;
         }
+        columns_ = a.columns_;
 
         // and copy the data
         for (size_type i=0; i<this->n; i++)
@@ -546,6 +495,44 @@ namespace MatrixImp
     size_type rows_;            // number of matrix rows
     size_type columns_;           // number of matrix columns
 
+    //! Allocate and construct the big array. Nothing is changed if that fails.
+    void allocate (size_type size)
+    {
+      if (size>0)
+      {
+        B* data = allocator_.allocate(size);
+        try {
+          std::uninitialized_default_construct_n(data, size);
+        }
+        catch (...) {
+          allocator_.deallocate(data, size);
+          throw;
+        }
+        this->p = data;
+        this->n = size;
+      }
+      else
+      {
+        this->n = 0;
+        this->p = nullptr;
+      }
+    }
+
+    //! Destroy and deallocate the big array, leaves an empty matrix
+    void deallocate ()
+    {
+      if (this->n>0) {
+        size_type i=this->n;
+        while (i)
+          this->p[--i].~B();
+        allocator_.deallocate(this->p,this->n);
+      }
+      this->n = 0;
+      this->p = nullptr;
+      rows_ = 0;
+      columns_ = 0;
+    }
+
     A allocator_;
   };
 
-- 
2.43.0


From 6e2a4d37007f7ee1c354aa77f37de39479b97681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 44/77] fix: BDMatrix and BTDMatrix can be used again after an
 allocation failed in setSize

---
 dune/istl/bdmatrix.hh  | 29 +++++++++++++++----------
 dune/istl/btdmatrix.hh | 49 ++++++++++++++++++++++++------------------
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index c331557..d4b626e 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -80,21 +80,28 @@ namespace Dune {
     /** \brief Resize the matrix.  Invalidates the content! */
     void setSize(size_type size)
     {
-      this->BCRSMatrix<B,A>::setSize(size,   // rows
-                                     size,   // columns
-                                     size);  // nonzeros
-      // matrices that were empty or copied have another build mode
-      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
+      try {
+        this->BCRSMatrix<B,A>::setSize(size,   // rows
+                                       size,   // columns
+                                       size);  // nonzeros
+        // matrices that were empty or copied have another build mode
+        this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
-      for (auto i : range(size))
-        this->BCRSMatrix<B,A>::setrowsize(i, 1);
+        for (auto i : range(size))
+          this->BCRSMatrix<B,A>::setrowsize(i, 1);
 
-      this->BCRSMatrix<B,A>::endrowsizes();
+        this->BCRSMatrix<B,A>::endrowsizes();
 
-      for (auto i : range(size))
-        this->BCRSMatrix<B,A>::addindex(i, i);
+        for (auto i : range(size))
+          this->BCRSMatrix<B,A>::addindex(i, i);
 
-      this->BCRSMatrix<B,A>::endindices();
+        this->BCRSMatrix<B,A>::endindices();
+      }
+      catch (...) {
+        // do not leave a half-built matrix behind
+        this->clear();
+        throw;
+      }
     }
 
     //! assignment
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 63d0ceb..ab62e39 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -77,29 +77,36 @@ namespace Dune {
     void setSize(size_type size)
     {
       auto nonZeros = (size==0) ? 0 : size + 2*(size-1);
-      this->BCRSMatrix<B,A>::setSize(size,   // rows
-                                     size,   // columns
-                                     nonZeros);
-      // matrices that were empty or copied have another build mode
-      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
-
-      // Set number of entries for each row
-      // All rows get three entries, except for the first and the last one
-      for (size_t i=0; i<size; i++)
-        this->BCRSMatrix<B,A>::setrowsize(i, 3 - (i==0) - (i==(size-1)));
-
-      this->BCRSMatrix<B,A>::endrowsizes();
+      try {
+        this->BCRSMatrix<B,A>::setSize(size,   // rows
+                                       size,   // columns
+                                       nonZeros);
+        // matrices that were empty or copied have another build mode
+        this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
+
+        // Set number of entries for each row
+        // All rows get three entries, except for the first and the last one
+        for (size_t i=0; i<size; i++)
+          this->BCRSMatrix<B,A>::setrowsize(i, 3 - (i==0) - (i==(size-1)));
+
+        this->BCRSMatrix<B,A>::endrowsizes();
+
+        // The actual entries for each row
+        for (size_t i=0; i<size; i++) {
+          if (i>0)
+            this->BCRSMatrix<B,A>::addindex(i, i-1);
+          this->BCRSMatrix<B,A>::addindex(i, i  );
+          if (i<size-1)
+            this->BCRSMatrix<B,A>::addindex(i, i+1);
+        }
 
-      // The actual entries for each row
-      for (size_t i=0; i<size; i++) {
-        if (i>0)
-          this->BCRSMatrix<B,A>::addindex(i, i-1);
-        this->BCRSMatrix<B,A>::addindex(i, i  );
-        if (i<size-1)
-          this->BCRSMatrix<B,A>::addindex(i, i+1);
+        this->BCRSMatrix<B,A>::endindices();
+      }
+      catch (...) {
+        // do not leave a half-built matrix behind
+        this->clear();
+        throw;
       }
-
-      this->BCRSMatrix<B,A>::endindices();
     }
 
     //! assignment
-- 
2.43.0


From 69061878b1c53411500a224ae3a4326b77e14572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 45/77] fix: BCCSMatrix and SuperLUMatrix do not keep pointers
 to released memory

A second release, for instance after a failing allocation, freed the
memory twice. The storage of empty matrices was never released.
---
 dune/istl/bccsmatrix.hh  |  6 ++++--
 dune/istl/supermatrix.hh | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/dune/istl/bccsmatrix.hh b/dune/istl/bccsmatrix.hh
index 39103f8..74fe66b 100644
--- a/dune/istl/bccsmatrix.hh
+++ b/dune/istl/bccsmatrix.hh
@@ -40,8 +40,7 @@ namespace Dune::ISTL::Impl
     /** @brief Destructor */
     ~BCCSMatrix()
     {
-      if(N_+M_+Nnz_!=0)
-        free();
+      free();
     }
 
     /** \brief Set matrix size */
@@ -141,6 +140,9 @@ namespace Dune::ISTL::Impl
       delete[] values;
       delete[] rowindex;
       delete[] colstart;
+      values = nullptr;
+      rowindex = nullptr;
+      colstart = nullptr;
       N_ = 0;
       M_ = 0;
       Nnz_ = 0;
diff --git a/dune/istl/supermatrix.hh b/dune/istl/supermatrix.hh
index 7df48fe..419b001 100644
--- a/dune/istl/supermatrix.hh
+++ b/dune/istl/supermatrix.hh
@@ -213,13 +213,14 @@ namespace Dune
     {}
 
     SuperLUMatrix() : ISTL::Impl::BCCSMatrix<typename BCRSMatrix<B,TA>::field_type, int>()
-    {}
+    {
+      A.Store = nullptr;
+    }
 
     /** @brief Destructor */
     virtual ~SuperLUMatrix()
     {
-      if (this->N_+this->M_*this->Nnz_ != 0)
-        free();
+      free();
     }
 
     /** @brief Cast to a SuperLU Matrix */
@@ -303,7 +304,9 @@ namespace Dune
     void free() override
     {
       ISTL::Impl::BCCSMatrix<typename BCRSMatrix<B,TA>::field_type, int>::free();
-      SUPERLU_FREE(A.Store);
+      if (A.Store)
+        SUPERLU_FREE(A.Store);
+      A.Store = nullptr;
     }
   private:
     SuperMatrix A;
-- 
2.43.0


From 579868422e8f28bcbe5ff9785e8e22a0f95cec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 46/77] fix: LDL survives failing decompositions and
 allocations and checks the vector sizes

A failing decomposition left dangling or uninitialised pointers that
were deleted or used later, and leaked the temporary vectors. Without a
matrix, or with vectors of the wrong size, apply() read out of bounds
and reported convergence.
---
 dune/istl/ldl.hh | 76 ++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/dune/istl/ldl.hh b/dune/istl/ldl.hh
index ce56f88..f1c0aff 100644
--- a/dune/istl/ldl.hh
+++ b/dune/istl/ldl.hh
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <memory>
 #include <type_traits>
+#include <vector>
 
 #ifdef __cplusplus
 extern "C"
@@ -101,8 +102,9 @@ namespace Dune {
      * @param matrix the matrix to solve for
      * @param verbose 0 or 1 set the verbosity level, defaults to 0
      */
-    LDL(const Matrix& matrix, int verbose=0) : matrixIsLoaded_(false), verbose_(verbose)
+    LDL(const Matrix& matrix, int verbose=0) : LDL()
     {
+      verbose_ = verbose;
       //check whether T is a supported type
       static_assert(std::is_same<T,double>::value,"Unsupported Type in LDL (only double supported)");
       setMatrix(matrix);
@@ -117,8 +119,9 @@ namespace Dune {
      * @param matrix the matrix to solve for
      * @param verbose 0 or 1 set the verbosity level, defaults to 0
      */
-    LDL(const Matrix& matrix, int verbose, bool) : matrixIsLoaded_(false), verbose_(verbose)
+    LDL(const Matrix& matrix, int verbose, bool) : LDL()
     {
+      verbose_ = verbose;
       //check whether T is a supported type
       static_assert(std::is_same<T,double>::value,"Unsupported Type in LDL (only double supported)");
       setMatrix(matrix);
@@ -144,13 +147,18 @@ namespace Dune {
     /** @brief Default constructor. */
     virtual ~LDL()
     {
-      if ((ldlMatrix_.N() + ldlMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
     }
 
     /** \copydoc InverseOperator::apply(X&, Y&, InverseOperatorResult&) */
     void apply(domain_type& x, range_type& b, InverseOperatorResult& res) override
     {
+      if (!Li_)
+        DUNE_THROW(ISTLError, "LDL has no decomposed matrix!");
+      if (ldlMatrix_.N() != b.dim())
+        DUNE_THROW(ISTLError, "Size of right-hand-side vector b does not match the number of matrix rows!");
+      if (ldlMatrix_.M() != x.dim())
+        DUNE_THROW(ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       const int dimMat(ldlMatrix_.N());
       ldl_perm(dimMat, Y_, reinterpret_cast<double*>(&b[0]), P_);
       ldl_lsolve(dimMat, Y_, Lp_, Li_, Lx_);
@@ -189,11 +197,8 @@ namespace Dune {
     /** @brief Initialize data from given matrix. */
     void setMatrix(const Matrix& matrix)
     {
-      if ((ldlMatrix_.N() + ldlMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
 
-      if (ldlMatrix_.N() + ldlMatrix_.M() + ldlMatrix_.nonzeroes() != 0)
-        ldlMatrix_.free();
       ldlMatrix_.setSize(MatrixDimension<Matrix>::rowdim(matrix),
                          MatrixDimension<Matrix>::coldim(matrix));
       ISTL::Impl::BCCSMatrixInitializer<Matrix, int> initializer(ldlMatrix_);
@@ -206,11 +211,8 @@ namespace Dune {
     template<class S>
     void setSubMatrix(const Matrix& matrix, const S& rowIndexSet)
     {
-      if ((ldlMatrix_.N() + ldlMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
 
-      if (ldlMatrix_.N() + ldlMatrix_.M() + ldlMatrix_.nonzeroes() != 0)
-        ldlMatrix_.free();
 
       ldlMatrix_.setSize(rowIndexSet.size()*MatrixDimension<Matrix>::rowdim(matrix) / matrix.N(),
                          rowIndexSet.size()*MatrixDimension<Matrix>::coldim(matrix) / matrix.M());
@@ -252,6 +254,8 @@ namespace Dune {
       delete [] Li_;
       delete [] P_;
       delete [] Pinv_;
+      D_ = Y_ = Lx_ = nullptr;
+      Lp_ = Li_ = P_ = Pinv_ = nullptr;
       ldlMatrix_.free();
       matrixIsLoaded_ = false;
     }
@@ -306,37 +310,45 @@ namespace Dune {
 
     /** @brief Computes the LDL decomposition. */
     void decompose()
+    {
+      try
+      {
+        factorize();
+      }
+      catch (...)
+      {
+        // without a decomposition there is nothing that could be applied
+        free();
+        throw;
+      }
+    }
+
+    void factorize()
     {
       // allocate vectors
       const int dimMat(ldlMatrix_.N());
       D_ = new double [dimMat];
       Y_ = new double [dimMat];
       Lp_ = new int [dimMat + 1];
-      Parent_ = new int [dimMat];
-      Lnz_ = new int [dimMat];
-      Flag_ = new int [dimMat];
-      Pattern_ = new int [dimMat];
       P_ = new int [dimMat];
       Pinv_ = new int [dimMat];
 
+      // temporary vectors
+      std::vector<int> parent(dimMat), lnz(dimMat), flag(dimMat), pattern(dimMat);
+
       double Info [AMD_INFO];
       if(amd_order (dimMat, ldlMatrix_.getColStart(), ldlMatrix_.getRowIndex(), P_, (double *) NULL, Info) < AMD_OK)
         DUNE_THROW(InvalidStateException,"Error: AMD failed!");
       if(verbose_ > 0)
         amd_info (Info);
       // compute the symbolic factorisation
-      ldl_symbolic(dimMat, ldlMatrix_.getColStart(), ldlMatrix_.getRowIndex(), Lp_, Parent_, Lnz_, Flag_, P_, Pinv_);
+      ldl_symbolic(dimMat, ldlMatrix_.getColStart(), ldlMatrix_.getRowIndex(), Lp_, parent.data(), lnz.data(), flag.data(), P_, Pinv_);
       // initialise those entries of additionalVectors_ whose dimension is known only now
       Lx_ = new double [Lp_[dimMat]];
       Li_ = new int [Lp_[dimMat]];
       // compute the numeric factorisation
       const int rank(ldl_numeric(dimMat, ldlMatrix_.getColStart(), ldlMatrix_.getRowIndex(), ldlMatrix_.getValues(),
-                                 Lp_, Parent_, Lnz_, Li_, Lx_, D_, Y_, Pattern_, Flag_, P_, Pinv_));
-      // free temporary vectors
-      delete [] Flag_;
-      delete [] Pattern_;
-      delete [] Parent_;
-      delete [] Lnz_;
+                                 Lp_, parent.data(), lnz.data(), Li_, Lx_, D_, Y_, pattern.data(), flag.data(), P_, Pinv_));
 
       if(rank!=dimMat)
         DUNE_THROW(InvalidStateException,"Error: LDL factorisation failed!");
@@ -345,17 +357,13 @@ namespace Dune {
     LDLMatrix ldlMatrix_;
     bool matrixIsLoaded_;
     int verbose_;
-    int* Lp_;
-    int* Parent_;
-    int* Lnz_;
-    int* Flag_;
-    int* Pattern_;
-    int* P_;
-    int* Pinv_;
-    double* D_;
-    double* Y_;
-    double* Lx_;
-    int* Li_;
+    int* Lp_ = nullptr;
+    int* P_ = nullptr;
+    int* Pinv_ = nullptr;
+    double* D_ = nullptr;
+    double* Y_ = nullptr;
+    double* Lx_ = nullptr;
+    int* Li_ = nullptr;
   };
 
   template<typename T, typename A, int n, int m>
-- 
2.43.0


From beac320d788eac49554313fed6e2d152f5170acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 47/77] fix: SPQR survives failing decompositions and
 allocations and checks the vector sizes

Null pointers returned by SuiteSparse were dereferenced, the right hand
side buffer was lost, the cholmod_common object leaked, releasing a
solver without matrix freed uninitialised pointers, and vectors of the
wrong size were read out of bounds.
---
 dune/istl/spqr.hh | 59 +++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 98bbf47..c99764e 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -8,6 +8,7 @@
 #if HAVE_SUITESPARSE_SPQR || defined DOXYGEN
 
 #include <complex>
+#include <new>
 #include <type_traits>
 
 #include <SuiteSparseQR.hpp>
@@ -92,13 +93,12 @@ namespace Dune {
      *  @param matrix the matrix to solve for
      *  @param verbose 0 or 1, set the verbosity level, defaults to 0
      */
-    SPQR(const Matrix& matrix, int verbose=0) : matrixIsLoaded_(false), verbose_(verbose)
+    SPQR(const Matrix& matrix, int verbose=0) : SPQR()
     {
+      verbose_ = verbose;
       //check whether T is a supported type
       static_assert((std::is_same<T,double>::value) || (std::is_same<T,std::complex<double> >::value),
                     "Unsupported Type in SPQR (only double and std::complex<double> supported)");
-      cc_ = new cholmod_common();
-      cholmod_l_start(cc_);
       setMatrix(matrix);
     }
 
@@ -110,13 +110,12 @@ namespace Dune {
      * @param matrix the matrix to solve for
      * @param verbose 0 or 1, set the verbosity level, defaults to 0
      */
-    SPQR(const Matrix& matrix, int verbose, bool) : matrixIsLoaded_(false), verbose_(verbose)
+    SPQR(const Matrix& matrix, int verbose, bool) : SPQR()
     {
+      verbose_ = verbose;
       //check whether T is a supported type
       static_assert((std::is_same<T,double>::value) || (std::is_same<T,std::complex<double> >::value),
                     "Unsupported Type in SPQR (only double and std::complex<double> supported)");
-      cc_ = new cholmod_common();
-      cholmod_l_start(cc_);
       setMatrix(matrix);
     }
 
@@ -146,24 +145,31 @@ namespace Dune {
     /** @brief Destructor. */
     virtual ~SPQR()
     {
-      if ((spqrMatrix_.N() + spqrMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
       cholmod_l_finish(cc_);
+      delete cc_;
     }
 
     /** \copydoc InverseOperator::apply(X&, Y&, InverseOperatorResult&) */
     void apply(domain_type& x, range_type& b, InverseOperatorResult& res) override
     {
+      if (!spqrfactorization_)
+        DUNE_THROW(ISTLError, "SPQR has no decomposed matrix!");
+      if (spqrMatrix_.N() != b.dim())
+        DUNE_THROW(ISTLError, "Size of right-hand-side vector b does not match the number of matrix rows!");
+      if (spqrMatrix_.M() != x.dim())
+        DUNE_THROW(ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       const std::size_t numRows(spqrMatrix_.N());
       // fill B
       for(std::size_t k = 0; k != numRows/n; ++k)
         for (int l = 0; l < n; ++l)
           (static_cast<T*>(B_->x))[n*k+l] = b[k][l];
 
-      cholmod_dense* BTemp = B_;
-      B_ = SuiteSparseQR_qmult<T>(0, spqrfactorization_, B_, cc_);
-      cholmod_dense* X = SuiteSparseQR_solve<T>(1, spqrfactorization_, B_, cc_);
-      cholmod_l_free_dense(&BTemp, cc_);
+      cholmod_dense* QtB = SuiteSparseQR_qmult<T>(0, spqrfactorization_, B_, cc_);
+      check(QtB, "multiplication with Q");
+      cholmod_dense* X = SuiteSparseQR_solve<T>(1, spqrfactorization_, QtB, cc_);
+      cholmod_l_free_dense(&QtB, cc_);
+      check(X, "solution");
 
       const std::size_t numCols(spqrMatrix_.M());
       // fill x
@@ -199,11 +205,8 @@ namespace Dune {
     /** @brief Initialize data from given matrix. */
     void setMatrix(const Matrix& matrix)
     {
-      if ((spqrMatrix_.N() + spqrMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
 
-      if (spqrMatrix_.N() + spqrMatrix_.M() + spqrMatrix_.nonzeroes() != 0)
-        spqrMatrix_.free();
       spqrMatrix_.setSize(MatrixDimension<Matrix>::rowdim(matrix),
                           MatrixDimension<Matrix>::coldim(matrix));
       ISTL::Impl::BCCSMatrixInitializer<Matrix, int> initializer(spqrMatrix_);
@@ -216,11 +219,8 @@ namespace Dune {
     template<class S>
     void setSubMatrix(const Matrix& matrix, const S& rowIndexSet)
     {
-      if ((spqrMatrix_.N() + spqrMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
 
-      if (spqrMatrix_.N() + spqrMatrix_.M() + spqrMatrix_.nonzeroes() != 0)
-        spqrMatrix_.free();
 
       spqrMatrix_.setSize(rowIndexSet.size()*MatrixDimension<Matrix>::rowdim(matrix) / matrix.N(),
                           rowIndexSet.size()*MatrixDimension<Matrix>::coldim(matrix) / matrix.M());
@@ -283,6 +283,16 @@ namespace Dune {
 
     friend struct SeqOverlappingSchwarzAssemblerHelper<SPQR<Matrix>,true>;
 
+    //! Throw an exception if a SuiteSparse function did not return a result
+    void check(const void* result, const char* what) const
+    {
+      if (result)
+        return;
+      if (cc_->status == CHOLMOD_OUT_OF_MEMORY)
+        throw std::bad_alloc();
+      DUNE_THROW(ISTLError, "SPQR: " << what << " failed!");
+    }
+
     /** @brief Computes the QR decomposition. */
     void decompose()
     {
@@ -292,6 +302,7 @@ namespace Dune {
 
       // initialise the matrix A (sorted, packed, unsymmetric, real entries)
       A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      check(A_, "allocation of the matrix");
 
       // copy all the entries of Ap, Ai, Ax
       for(std::size_t k = 0; k != (ncols+1); ++k)
@@ -305,17 +316,19 @@ namespace Dune {
 
       // initialise the vector B
       B_ = cholmod_l_allocate_dense(nrows, 1, nrows, A_->xtype, cc_);
+      check(B_, "allocation of the right hand side");
       // compute factorization of A
       spqrfactorization_=SuiteSparseQR_factorize<T>(SPQR_ORDERING_DEFAULT,SPQR_DEFAULT_TOL,A_,cc_);
+      check(spqrfactorization_, "factorization");
     }
 
     SPQRMatrix spqrMatrix_;
     bool matrixIsLoaded_;
     int verbose_;
     cholmod_common* cc_;
-    cholmod_sparse* A_;
-    cholmod_dense* B_;
-    SuiteSparseQR_factorization<T>* spqrfactorization_;
+    cholmod_sparse* A_ = nullptr;
+    cholmod_dense* B_ = nullptr;
+    SuiteSparseQR_factorization<T>* spqrfactorization_ = nullptr;
   };
 
   template<typename T, typename A>
-- 
2.43.0


From 0277690a36ef64b3a8794b42b328f94a7d5a01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 48/77] fix: Cholmod reports failing factorizations and can be
 used with several matrices

The factorization of the previous matrix leaked, its excluded unknowns
were applied to the next matrix, null pointers returned by CHOLMOD were
dereferenced, and systems were reported as solved although the
factorization failed.
---
 dune/istl/cholmod.hh | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index bfc8457..6d49e05 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -16,6 +16,7 @@
 
 #include <vector>
 #include <memory>
+#include <new>
 
 #include <cholmod.h>
 
@@ -262,14 +263,22 @@ public:
   */
   void apply(Vector& x, Vector& b, InverseOperatorResult& res) override
   {
+    if (x.size() != b.size())
+      DUNE_THROW(Exception, "Error in apply(): sizes of x and b do not match!");
+
     // do nothing if N=0
     if ( nIsZero_ )
     {
-        return;
+      res.iterations = 1;
+      res.converged = true;
+      return;
     }
 
-    if (x.size() != b.size())
-      DUNE_THROW(Exception, "Error in apply(): sizes of x and b do not match!");
+    if ( not L_ )
+      DUNE_THROW(Exception, "Error in apply(): there is no decomposed matrix!");
+
+    if ( b.dim() != (subIndices_.empty() ? L_->n : subIndices_.size()) or x.dim() != b.dim() )
+      DUNE_THROW(Exception, "Error in apply(): sizes of x and b do not match the matrix!");
 
     // cast to double array
     auto b2 = std::make_unique<double[]>(L_->n);
@@ -288,6 +297,7 @@ public:
 
       // create a cholmod dense object
     auto b3 = make_cholmod_dense(CholmodMethod::allocate_dense(L_->n, 1, L_->n, CHOLMOD_REAL, &c_), &c_);
+    checkResult(b3.get());
 
     // cast because void-ptr
     auto b4 = static_cast<double*>(b3->x);
@@ -295,6 +305,7 @@ public:
 
     // solve for a cholmod x object
     auto x3 = make_cholmod_dense(CholmodMethod::solve(CHOLMOD_A, L_, b3.get(), &c_), &c_);
+    checkResult(x3.get());
     // cast because void-ptr
     auto xp = static_cast<double*>(x3->x);
 
@@ -309,7 +320,8 @@ public:
 
     // statistics for a direct solver
     res.iterations = 1;
-    res.converged = true;
+    // without a complete factorization x is not the solution
+    res.converged = (L_->minor == L_->n);
   }
 
 
@@ -342,6 +354,12 @@ public:
   template<class Matrix, class Ignore>
   void setMatrix(const Matrix& matrix, const Ignore* ignore)
   {
+    // forget the previous matrix
+    if (L_)
+      CholmodMethod::free_factor(&L_, &c_);
+    subIndices_.clear();
+    nIsZero_ = false;
+
     // count the number of entries and diagonal entries
     size_t nonZeros = 0;
     size_t numberOfIgnoredDofs = 0;
@@ -388,6 +406,7 @@ public:
                                      CHOLMOD_REAL,  // xtype of matrix ( CHOLMOD_REAL = single array, no complex numbers)
                                      &c_            // cholmod_common ptr
       ), deleter);
+    checkResult(M.get());
 
     // copy the data of BCRS matrix to Cholmod Sparse matrix
     Index* Ap = static_cast<Index*>(M->p);
@@ -463,9 +482,14 @@ public:
 
     // Now analyse the pattern and optimal row order
     L_ = CholmodMethod::analyze(M.get(), &c_);
+    checkResult(L_);
 
     // Do the factorization (this may take some time)
-    CholmodMethod::factorize(M.get(), L_, &c_);
+    if (not CholmodMethod::factorize(M.get(), L_, &c_))
+    {
+      CholmodMethod::free_factor(&L_, &c_);
+      checkResult(L_);
+    }
   }
 
   SolverCategory::Category category() const override
@@ -504,6 +528,16 @@ public:
   }
 private:
 
+  // throw an exception if a CHOLMOD function did not return a result
+  void checkResult(const void* result) const
+  {
+    if (result)
+      return;
+    if (c_.status == CHOLMOD_OUT_OF_MEMORY)
+      throw std::bad_alloc();
+    DUNE_THROW(Exception, "CHOLMOD failed with status " << c_.status);
+  }
+
   // create a std::unique_ptr to a cholmod_dense object with a deleter
   // that calls the appropriate cholmod cleanup routine
   auto make_cholmod_dense(cholmod_dense* x, cholmod_common* c)
-- 
2.43.0


From fc2cfced8de9055e8f3279a64cf04c9af2408483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 49/77] fix: SPQR allocates memory for the imaginary parts of
 complex matrices

---
 dune/istl/spqr.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index c99764e..8834d10 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -300,8 +300,9 @@ namespace Dune {
       const std::size_t ncols(spqrMatrix_.M());
       const std::size_t nnz(spqrMatrix_.getColStart()[ncols]);
 
-      // initialise the matrix A (sorted, packed, unsymmetric, real entries)
-      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      // initialise the matrix A (sorted, packed, unsymmetric)
+      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0,
+                                     std::is_same_v<T,double> ? CHOLMOD_REAL : CHOLMOD_COMPLEX, cc_);
       check(A_, "allocation of the matrix");
 
       // copy all the entries of Ap, Ai, Ax
-- 
2.43.0


From 51caf977121a6ddf55fda07123a17f3e12a5649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 50/77] fix: SuperLU does not report convergence for singular
 matrices and survives failing allocations

A default constructed solver read the uninitialised member first, a
failing allocation or a released matrix left dangling pointers that were
deleted again, the result of the factorization was ignored, and an empty
matrix was factorized. setSubMatrix read the first entry of a possibly
empty row.
---
 dune/istl/superlu.hh     | 68 ++++++++++++++++++++++++++++++----------
 dune/istl/supermatrix.hh |  5 +--
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/dune/istl/superlu.hh b/dune/istl/superlu.hh
index 0d69988..0f5a719 100644
--- a/dune/istl/superlu.hh
+++ b/dune/istl/superlu.hh
@@ -12,6 +12,7 @@
 #include "supermatrix.hh"
 #include <algorithm>
 #include <functional>
+#include <new>
 #include "bcrsmatrix.hh"
 #include "bvector.hh"
 #include "istlexception.hh"
@@ -379,24 +380,31 @@ namespace Dune
     /** @brief computes the LU Decomposition */
     void decompose();
 
+    //! Whether the factors can be used to solve (they cannot if the matrix is singular)
+    bool hasFactorization() const
+    {
+      return factorInfo==0 || factorInfo==int(mat.M())+1;
+    }
+
     SuperLUMatrix mat;
     SuperMatrix L, U, B, X;
-    int *perm_c, *perm_r, *etree;
-    typename GetSuperLUType<T>::float_type *R, *C;
+    int *perm_c = nullptr, *perm_r = nullptr, *etree = nullptr;
+    typename GetSuperLUType<T>::float_type *R = nullptr, *C = nullptr;
     T *bstore;
     superlu_options_t options;
     char equed;
     void *work;
     int lwork;
     bool first, verbose, reusevector;
+    // the result of the factorization: 0, or number of columns + 1 if the matrix is almost singular
+    int factorInfo = 0;
   };
 
   template<typename M>
   SuperLU<M>
   ::~SuperLU()
   {
-    if(mat.N()+mat.M()>0)
-      free();
+    free();
   }
 
   template<typename M>
@@ -407,32 +415,41 @@ namespace Dune
     delete[] etree;
     delete[] R;
     delete[] C;
+    perm_c = perm_r = etree = nullptr;
+    R = C = nullptr;
     if(lwork>=0) {
-      Destroy_SuperNode_Matrix(&L);
-      Destroy_CompCol_Matrix(&U);
+      if(L.Store)
+        Destroy_SuperNode_Matrix(&L);
+      if(U.Store)
+        Destroy_CompCol_Matrix(&U);
     }
+    L.Store = U.Store = nullptr;
     lwork=0;
     if(!first && reusevector) {
       SUPERLU_FREE(B.Store);
       SUPERLU_FREE(X.Store);
     }
+    first=true;
     mat.free();
   }
 
   template<typename M>
   SuperLU<M>
   ::SuperLU(const Matrix& mat_, bool verbose_, bool reusevector_)
-    : work(0), lwork(0), first(true), verbose(verbose_),
-      reusevector(reusevector_)
+    : SuperLU()
   {
+    verbose = verbose_;
+    reusevector = reusevector_;
     setMatrix(mat_);
 
   }
   template<typename M>
   SuperLU<M>::SuperLU()
-    :    work(0), lwork(0),verbose(false),
+    :    work(0), lwork(0), first(true), verbose(false),
       reusevector(false)
-  {}
+  {
+    L.Store = U.Store = nullptr;
+  }
   template<typename M>
   void SuperLU<M>::setVerbosity(bool v)
   {
@@ -442,9 +459,7 @@ namespace Dune
   template<typename M>
   void SuperLU<M>::setMatrix(const Matrix& mat_)
   {
-    if(mat.N()+mat.M()>0) {
-      free();
-    }
+    free();
     lwork=0;
     work=0;
     //a=&mat_;
@@ -457,9 +472,7 @@ namespace Dune
   void SuperLU<M>::setSubMatrix(const Matrix& mat_,
                                                                 const S& mrs)
   {
-    if(mat.N()+mat.M()>0) {
-      free();
-    }
+    free();
     lwork=0;
     work=0;
     //a=&mat_;
@@ -472,6 +485,9 @@ namespace Dune
   {
 
     first = true;
+    // there is nothing to decompose
+    if(mat.N()+mat.M()==0)
+      return;
     perm_c = new int[mat.M()];
     perm_r = new int[mat.N()];
     etree  = new int[mat.M()];
@@ -530,6 +546,14 @@ namespace Dune
       if ( options.PrintStat ) StatPrint(&stat);
     }
     StatFree(&stat);
+    // running out of memory leaves no factorization
+    if(info<0 || info>int(mat.M())+1) {
+      free();
+      if(info>0)
+        throw std::bad_alloc();
+      DUNE_THROW(ISTLError, "SuperLU rejects argument " << -info << " of the factorization!");
+    }
+    factorInfo = info;
     /*
        NCformat* Ustore = (NCformat *) U.Store;
        int k=0;
@@ -568,6 +592,14 @@ namespace Dune
       DUNE_THROW(ISTLError, "Size of solution vector x does not match the number of matrix columns!");
     if (mat.M()+mat.N()==0)
       DUNE_THROW(ISTLError, "Matrix of SuperLU is null!");
+    if (!L.Store || !U.Store)
+      DUNE_THROW(ISTLError, "SuperLU has no decomposed matrix!");
+    if (!hasFactorization()) {
+      // U is singular: the system cannot be solved
+      res.iterations=1;
+      res.converged=false;
+      return;
+    }
 
     SuperMatrix* mB = &B;
     SuperMatrix* mX = &X;
@@ -619,7 +651,7 @@ namespace Dune
        res.conv_rate = res.reduction;
        res.converged=(res.reduction<1e-10||d.two_norm()<1e-18);
      */
-    res.converged=true;
+    res.converged=(info==0 || info==int(mat.M())+1);
 
     if(verbose) {
 
@@ -653,6 +685,8 @@ namespace Dune
   {
     if(mat.N()+mat.M()==0)
       DUNE_THROW(ISTLError, "Matrix of SuperLU is null!");
+    if (!L.Store || !U.Store || !hasFactorization())
+      DUNE_THROW(ISTLError, "SuperLU has no decomposition of a regular matrix!");
 
     SuperMatrix* mB = &B;
     SuperMatrix* mX = &X;
diff --git a/dune/istl/supermatrix.hh b/dune/istl/supermatrix.hh
index 419b001..f0c0ec0 100644
--- a/dune/istl/supermatrix.hh
+++ b/dune/istl/supermatrix.hh
@@ -283,8 +283,9 @@ namespace Dune
     {
       if(this->N_+this->M_+this->Nnz_!=0)
         free();
-      this->N_=mrs.size()*MatrixDimension<typename Matrix::block_type>::rowdim(*(mat[0].begin()));
-      this->M_=mrs.size()*MatrixDimension<typename Matrix::block_type>::coldim(*(mat[0].begin()));
+      // the first row of the matrix may be empty
+      this->N_=mrs.size()*MatrixDimension<Matrix>::rowdim(mat)/mat.N();
+      this->M_=mrs.size()*MatrixDimension<Matrix>::coldim(mat)/mat.M();
       SuperMatrixInitializer<Matrix> initializer(*this);
 
       copyToBCCSMatrix(initializer, ISTL::Impl::MatrixRowSubset<Matrix,std::set<std::size_t> >(mat,mrs));
-- 
2.43.0


From 20ba55ffa3a11ec29f458264b03e37689604b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 51/77] fix: UMFPack reports singular matrices and errors, and
 loaded decompositions can be used

The status of UMFPACK was ignored, so that a singular matrix or a failing
allocation were reported as convergence and failing decompositions leaked.
A decomposition loaded from a file lacked the matrix and could never be
applied, and a damaged file was taken for a decomposition. The solution
of an empty system was not reported as converged.
---
 dune/istl/umfpack.hh | 108 ++++++++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 43 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 416d7af..36c3283 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -8,6 +8,7 @@
 #if HAVE_SUITESPARSE_UMFPACK || defined DOXYGEN
 
 #include<complex>
+#include<new>
 #include<type_traits>
 
 #include<umfpack.h>
@@ -74,6 +75,11 @@ namespace Dune {
       umfpack_dl_free_symbolic(args...);
     }
     template<typename... A>
+    static int get_lunz(A... args)
+    {
+      return umfpack_dl_get_lunz(args...);
+    }
+    template<typename... A>
     static int load_numeric(A... args)
     {
       return umfpack_dl_load_numeric(args...);
@@ -132,6 +138,11 @@ namespace Dune {
       umfpack_zl_free_symbolic(args...);
     }
     template<typename... A>
+    static int get_lunz(A... args)
+    {
+      return umfpack_zl_get_lunz(args...);
+    }
+    template<typename... A>
     static int load_numeric(A... args)
     {
       return umfpack_zl_load_numeric(args...);
@@ -287,12 +298,8 @@ namespace Dune {
      *  @param matrix the matrix to solve for
      *  @param verbose [0..2] set the verbosity level, defaults to 0
      */
-    UMFPack(const Matrix& matrix, int verbose=0) : matrixIsLoaded_(false)
+    UMFPack(const Matrix& matrix, int verbose=0) : UMFPack()
     {
-      //check whether T is a supported type
-      static_assert((std::is_same<T,double>::value) || (std::is_same<T,std::complex<double> >::value),
-                    "Unsupported Type in UMFPack (only double and std::complex<double> supported)");
-      Caller::defaults(UMF_Control);
       setVerbosity(verbose);
       setMatrix(matrix);
     }
@@ -305,12 +312,8 @@ namespace Dune {
      * @param matrix the matrix to solve for
      * @param verbose [0..2] set the verbosity level, defaults to 0
      */
-    UMFPack(const Matrix& matrix, int verbose, bool) : matrixIsLoaded_(false)
+    UMFPack(const Matrix& matrix, int verbose, bool) : UMFPack()
     {
-      //check whether T is a supported type
-      static_assert((std::is_same<T,double>::value) || (std::is_same<T,std::complex<double> >::value),
-                    "Unsupported Type in UMFPack (only double and std::complex<double> supported)");
-      Caller::defaults(UMF_Control);
       setVerbosity(verbose);
       setMatrix(matrix);
     }
@@ -348,15 +351,11 @@ namespace Dune {
      * Thus, if you always use this you will only compute the decomposition once (and when you manually
      * deleted the decomposition file).
      */
-    UMFPack(const Matrix& mat_, const char* file, int verbose=0)
+    UMFPack(const Matrix& mat_, const char* file, int verbose=0) : UMFPack()
     {
-      //check whether T is a supported type
-      static_assert((std::is_same<T,double>::value) || (std::is_same<T,std::complex<double> >::value),
-                    "Unsupported Type in UMFPack (only double and std::complex<double> supported)");
-      Caller::defaults(UMF_Control);
       setVerbosity(verbose);
       int errcode = Caller::load_numeric(&UMF_Numeric, const_cast<char*>(file));
-      if ((errcode == UMFPACK_ERROR_out_of_memory) || (errcode == UMFPACK_ERROR_file_IO))
+      if (errcode != UMFPACK_OK)
       {
         matrixIsLoaded_ = false;
         setMatrix(mat_);
@@ -365,6 +364,8 @@ namespace Dune {
       else
       {
         matrixIsLoaded_ = true;
+        // the matrix itself is needed to solve
+        copyMatrix(mat_);
         std::cout << "UMFPack decomposition successfully loaded from " << file << std::endl;
       }
     }
@@ -375,26 +376,28 @@ namespace Dune {
      * @throws Dune::Exception When not being able to load the file. Does not need knowledge of the
      * actual matrix!
      */
-    UMFPack(const char* file, int verbose=0)
+    UMFPack(const char* file, int verbose=0) : UMFPack()
     {
-      //check whether T is a supported type
-      static_assert((std::is_same<T,double>::value) || (std::is_same<T,std::complex<double> >::value),
-                    "Unsupported Type in UMFPack (only double and std::complex<double> supported)");
-      Caller::defaults(UMF_Control);
       int errcode = Caller::load_numeric(&UMF_Numeric, const_cast<char*>(file));
       if (errcode == UMFPACK_ERROR_out_of_memory)
         DUNE_THROW(Dune::Exception, "ran out of memory while loading UMFPack decomposition");
       if (errcode == UMFPACK_ERROR_file_IO)
         DUNE_THROW(Dune::Exception, "IO error while loading UMFPack decomposition");
+      if (errcode != UMFPACK_OK)
+        DUNE_THROW(Dune::Exception, "The file does not contain a valid UMFPack decomposition");
       matrixIsLoaded_ = true;
+      SuiteSparse_long lnz, unz, rows, columns, nzUdiag;
+      Caller::get_lunz(&lnz, &unz, &rows, &columns, &nzUdiag, UMF_Numeric);
+      umfpackMatrix_.setSize(rows, columns);
+      // iterative refinement needs the matrix, which is not part of the file
+      UMF_Control[UMFPACK_IRSTEP] = 0;
       std::cout << "UMFPack decomposition successfully loaded from " << file << std::endl;
       setVerbosity(verbose);
     }
 
     virtual ~UMFPack()
     {
-      if ((umfpackMatrix_.N() + umfpackMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
     }
 
     /**
@@ -407,7 +410,11 @@ namespace Dune {
       if (umfpackMatrix_.M() != x.dim())
         DUNE_THROW(Dune::ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       if (b.size() == 0)
+      {
+        res.iterations = 1;
+        res.converged = true;
         return;
+      }
 
       // we have to convert x and b into flat structures
       // however, this is linear in time
@@ -442,7 +449,8 @@ namespace Dune {
 
       //this is a direct solver
       res.iterations = 1;
-      res.converged = true;
+      // a singular matrix or an error leave x without a solution
+      res.converged = (UMF_Apply_Info[UMFPACK_STATUS] == UMFPACK_OK);
       res.elapsed = UMF_Apply_Info[UMFPACK_SOLVE_WALLTIME];
 
       printOnApply(UMF_Apply_Info);
@@ -519,14 +527,19 @@ namespace Dune {
     template<class BitVector = Impl::NoBitVector>
     void setMatrix(const Matrix& matrix, const BitVector& bitVector = {})
     {
-      if ((umfpackMatrix_.N() + umfpackMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
+      free();
+      copyMatrix(matrix, bitVector);
+      decompose();
+    }
+
+    private:
+    //! copy (the active part of) a matrix to the format used by UMFPACK
+    template<class BitVector = Impl::NoBitVector>
+    void copyMatrix(const Matrix& matrix, const BitVector& bitVector = {})
+    {
       if (matrix.N() == 0 or matrix.M() == 0)
         return;
 
-      if (umfpackMatrix_.N() + umfpackMatrix_.M() + umfpackMatrix_.nonzeroes() != 0)
-        umfpackMatrix_.free();
-
       constexpr bool useBitVector = not std::is_same_v<BitVector,Impl::NoBitVector>;
 
       // use a dynamic flat vector for the bitset
@@ -639,10 +652,10 @@ namespace Dune {
         // increase the number of picked elements in this column
         colPosition[colIdx]++;
       });
-
-      decompose();
     }
 
+    public:
+
     // Keep legacy version using a set of scalar indices
     // The new version using a bitVector type for marking the active matrix indices is
     // directly given in `setMatrix` with an additional BitVector argument.
@@ -650,11 +663,7 @@ namespace Dune {
     template<typename S>
     void setSubMatrix(const Matrix& _mat, const S& rowIndexSet)
     {
-      if ((umfpackMatrix_.N() + umfpackMatrix_.M() > 0) || matrixIsLoaded_)
-        free();
-
-      if (umfpackMatrix_.N() + umfpackMatrix_.M() + umfpackMatrix_.nonzeroes() != 0)
-        umfpackMatrix_.free();
+      free();
 
       umfpackMatrix_.setSize(rowIndexSet.size()*MatrixDimension<Matrix>::rowdim(_mat) / _mat.N(),
                              rowIndexSet.size()*MatrixDimension<Matrix>::coldim(_mat) / _mat.M());
@@ -708,11 +717,8 @@ namespace Dune {
      */
     void free()
     {
-      if (!matrixIsLoaded_)
-      {
-        Caller::free_symbolic(&UMF_Symbolic);
-        umfpackMatrix_.free();
-      }
+      Caller::free_symbolic(&UMF_Symbolic);
+      umfpackMatrix_.free();
       Caller::free_numeric(&UMF_Numeric);
       matrixIsLoaded_ = false;
     }
@@ -726,9 +732,23 @@ namespace Dune {
     friend class SeqOverlappingSchwarz;
     friend struct SeqOverlappingSchwarzAssemblerHelper<UMFPack<Matrix>,true>;
 
+    //! throw an exception if there is no result of the decomposition
+    void checkDecomposition(double status)
+    {
+      // warnings, for instance about a singular matrix, leave a decomposition
+      if (status >= UMFPACK_OK)
+        return;
+      free();
+      if (status == UMFPACK_ERROR_out_of_memory)
+        throw std::bad_alloc();
+      DUNE_THROW(ISTLError, "UMFPack decomposition failed with status " << status);
+    }
+
     /** @brief computes the LU Decomposition */
     void decompose()
     {
+      if (umfpackMatrix_.N() == 0)
+        return;
       double UMF_Decomposition_Info[UMFPACK_INFO];
       Caller::symbolic(static_cast<SuiteSparse_long>(umfpackMatrix_.N()),
                        static_cast<SuiteSparse_long>(umfpackMatrix_.N()),
@@ -738,6 +758,7 @@ namespace Dune {
                        &UMF_Symbolic,
                        UMF_Control,
                        UMF_Decomposition_Info);
+      checkDecomposition(UMF_Decomposition_Info[UMFPACK_STATUS]);
       Caller::numeric(umfpackMatrix_.getColStart(),
                       umfpackMatrix_.getRowIndex(),
                       reinterpret_cast<double*>(umfpackMatrix_.getValues()),
@@ -746,6 +767,7 @@ namespace Dune {
                       UMF_Control,
                       UMF_Decomposition_Info);
       Caller::report_status(UMF_Control,UMF_Decomposition_Info[UMFPACK_STATUS]);
+      checkDecomposition(UMF_Decomposition_Info[UMFPACK_STATUS]);
       if (verbosity_ == 1)
       {
         std::cout << "[UMFPack Decomposition]" << std::endl;
@@ -777,8 +799,8 @@ namespace Dune {
     UMFPackMatrix umfpackMatrix_;
     bool matrixIsLoaded_;
     int verbosity_;
-    void *UMF_Symbolic;
-    void *UMF_Numeric;
+    void *UMF_Symbolic = nullptr;
+    void *UMF_Numeric = nullptr;
     double UMF_Control[UMFPACK_CONTROL];
   };
 
-- 
2.43.0


From bb898610e9c734eeedd1e8745bb43a47c9e7b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 52/77] fix: the dimension of a matrix of numbers does not
 depend on its pattern

Rows without entries were not counted, and a column without entries
counted as the largest possible number of columns.
---
 dune/istl/matrixutils.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c5d93ef..79cd40d 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -266,6 +266,9 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
+      // the size of numbers is known even if the row is empty
+      if constexpr (IsNumber<block_type>::value)
+        return 1;
       const B* row = A.r[i].getptr();
       if(row)
         return MatrixDimension<block_type>::rowdim(*row);
@@ -275,6 +278,9 @@ namespace Dune
 
     static size_type coldim (const Matrix& A, size_type c)
     {
+      // the size of numbers is known even if the column is empty
+      if constexpr (IsNumber<block_type>::value)
+        return 1;
       // find an entry in column c
       if (A.nnz_ > 0)
       {
@@ -309,6 +315,8 @@ namespace Dune
     }
 
     static size_type coldim (const Matrix& A){
+      if constexpr (IsNumber<block_type>::value)
+        return A.M();
       typedef typename Matrix::ConstRowIterator ConstRowIterator;
       typedef typename Matrix::ConstColIterator ConstColIterator;
 
@@ -328,7 +336,7 @@ namespace Dune
       for (typename std::vector<size_type>::iterator it=coldims.begin();
            it!=coldims.end(); ++it)
         // skip rows for which no coldim could be determined
-        if ((*it)>=0)
+        if ((*it)!=std::numeric_limits<size_type>::max())
           sum += *it;
 
       return sum;
-- 
2.43.0


From f4a0e332cbac06d654068dd3ee486e5195bd44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 53/77] fix: a TwoLevelMethod that was already applied can be
 copied

---
 dune/istl/paamg/twolevelmethod.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..26c4da4 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -301,8 +301,9 @@ private:
         amg_.post(x_);
     }
     AMGInverseOperator(const AMGInverseOperator& other)
-    : x_(other.x_), amg_(other.amg_), first_(other.first_)
+    : x_(other.x_), amg_(other.amg_), first_(true)
     {
+      // the copy of the AMG has no work vectors yet
     }
   private:
     X x_;
-- 
2.43.0


From 7e247a2b865d1022b48e32e99054eba8171663e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 54/77] fix: KAMG does not keep the solvers of earlier calls or
 of the object it was copied from

---
 dune/istl/paamg/kamg.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 28b0809..0dfa8dd 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -259,6 +259,9 @@ namespace Dune
     void KAMG<M,X,S,P,K,A>::pre(Domain& x, Range& b)
     {
       amg.pre(x,b);
+      // forget the solvers of earlier calls, or those of the object this one was copied from
+      ksolvers.clear();
+      scalarproducts.clear();
       scalarproducts.reserve(amg.levels());
       ksolvers.reserve(amg.levels());
 
-- 
2.43.0


From 5d4161b9244a23c331031c613c62d618134dc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 55/77] fix: W-cycles of FastAMG do not leave the hierarchy of
 parallel information

---
 dune/istl/paamg/fastamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 3fcd30f..054f590 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -601,7 +601,7 @@ namespace Dune
         //prolongate and add the correction (update is in coarse left hand side)
         --levelContext.matrix;
         --levelContext.residual;
-
+        --levelContext.pinfo;
       }
 
       typename Hierarchy<Domain,A>::Iterator coarseLhs = levelContext.lhs--;
-- 
2.43.0


From e12f6fba459f8664b89286720946a067d0c985cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 56/77] fix: solver factory keeps a passed preconditioner
 neither globally nor beyond the call

---
 dune/istl/solverfactory.hh | 50 ++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/dune/istl/solverfactory.hh b/dune/istl/solverfactory.hh
index ba368ec..c99b8d7 100644
--- a/dune/istl/solverfactory.hh
+++ b/dune/istl/solverfactory.hh
@@ -122,6 +122,45 @@ namespace Dune{
     }
   } // end anonymous namespace
 
+  namespace Impl {
+
+    /** \brief Hands a preconditioner to the creator of a solver
+
+       The preconditioner is visible to getPreconditionerFromFactory in the
+       same thread as long as the object lives, and is not stored beyond that.
+     */
+    template<class Operator>
+    class PassPreconditionerAtRuntime
+    {
+      using Prec = std::shared_ptr<Preconditioner<typename Operator::domain_type,
+                                                  typename Operator::range_type>>;
+    public:
+      explicit PassPreconditionerAtRuntime(Prec prec)
+        : previous_(std::move(current()))
+      {
+        current() = std::move(prec);
+      }
+
+      PassPreconditionerAtRuntime(const PassPreconditionerAtRuntime&) = delete;
+      PassPreconditionerAtRuntime& operator=(const PassPreconditionerAtRuntime&) = delete;
+
+      ~PassPreconditionerAtRuntime()
+      {
+        current() = std::move(previous_);
+      }
+
+      static Prec& current()
+      {
+        static thread_local Prec prec;
+        return prec;
+      }
+
+    private:
+      Prec previous_;
+    };
+
+  } // end namespace Impl
+
   /**
      \brief Instantiates an `InverseOperator` from an Operator and a
      configuration given as a ParameterTree.
@@ -152,10 +191,7 @@ namespace Dune{
                        std::shared_ptr<Preconditioner<typename Operator::domain_type, typename Operator::range_type>> prec = nullptr)
   {
     if(prec){
-      PreconditionerFactory<Operator>::instance().define("__passed at runtime__",
-                                                         [=](auto...){
-                                                           return prec;
-                                                         });
+      Impl::PassPreconditionerAtRuntime<Operator> passed(prec);
       ParameterTree config_tmp = config;
       config_tmp.sub("preconditioner")["type"] = std::string("__passed at runtime__");
       return SolverFactory<Operator>::instance().
@@ -178,7 +214,11 @@ namespace Dune{
     using Range = typename Operator::range_type;
     std::string prec_type = config.get<std::string>("type");
     std::shared_ptr<Preconditioner<typename Operator::domain_type,
-                                 typename Operator::range_type>> prec = PreconditionerFactory<Operator>::instance().create(prec_type, op, config);
+                                 typename Operator::range_type>> prec;
+    if(prec_type == "__passed at runtime__")
+      prec = Impl::PassPreconditionerAtRuntime<Operator>::current();
+    if(!prec)
+      prec = PreconditionerFactory<Operator>::instance().create(prec_type, op, config);
     if constexpr (OperatorTraits<Operator>::isParallel){
       using Comm = typename OperatorTraits<Operator>::comm_type;
       const Comm& comm = OperatorTraits<Operator>::getCommOrThrow(op);
-- 
2.43.0


From 6a76908195e21822b438d8a57cc95cc896ebdbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 57/77] fix: a failed decomposition or solve does not go
 unnoticed in the array version of UMFPack::apply

---
 dune/istl/umfpack.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 36c3283..aa08ece 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -395,6 +395,10 @@ namespace Dune {
       setVerbosity(verbose);
     }
 
+    //! The decomposition belongs to this object and cannot be copied
+    UMFPack(const UMFPack&) = delete;
+    UMFPack& operator=(const UMFPack&) = delete;
+
     virtual ~UMFPack()
     {
       free();
@@ -484,6 +488,10 @@ namespace Dune {
                     UMF_Control,
                     UMF_Apply_Info);
       printOnApply(UMF_Apply_Info);
+      if (UMF_Apply_Info[UMFPACK_STATUS] == UMFPACK_ERROR_out_of_memory)
+        throw std::bad_alloc();
+      if (UMF_Apply_Info[UMFPACK_STATUS] < UMFPACK_OK)
+        DUNE_THROW(ISTLError, "UMFPack did not solve the system, status " << UMF_Apply_Info[UMFPACK_STATUS]);
     }
 
     /** @brief Set UMFPack-specific options
-- 
2.43.0


From 4606376cc66df075c72eddb1cf7533acff7ea685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 58/77] fix: direct solvers cannot be copied, the copies
 released the decomposition twice

---
 dune/istl/ldl.hh     | 4 ++++
 dune/istl/spqr.hh    | 4 ++++
 dune/istl/superlu.hh | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/dune/istl/ldl.hh b/dune/istl/ldl.hh
index f1c0aff..21698f1 100644
--- a/dune/istl/ldl.hh
+++ b/dune/istl/ldl.hh
@@ -144,6 +144,10 @@ namespace Dune {
     LDL() : matrixIsLoaded_(false), verbose_(0)
     {}
 
+    //! The decomposition belongs to this object and cannot be copied
+    LDL(const LDL&) = delete;
+    LDL& operator=(const LDL&) = delete;
+
     /** @brief Default constructor. */
     virtual ~LDL()
     {
diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 8834d10..50b0a7f 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -142,6 +142,10 @@ namespace Dune {
       cholmod_l_start(cc_);
     }
 
+    //! The decomposition belongs to this object and cannot be copied
+    SPQR(const SPQR&) = delete;
+    SPQR& operator=(const SPQR&) = delete;
+
     /** @brief Destructor. */
     virtual ~SPQR()
     {
diff --git a/dune/istl/superlu.hh b/dune/istl/superlu.hh
index 0f5a719..8255c4b 100644
--- a/dune/istl/superlu.hh
+++ b/dune/istl/superlu.hh
@@ -330,6 +330,10 @@ namespace Dune
      */
     SuperLU();
 
+    //! The decomposition belongs to this object and cannot be copied
+    SuperLU(const SuperLU&) = delete;
+    SuperLU& operator=(const SuperLU&) = delete;
+
     ~SuperLU();
 
     /**
-- 
2.43.0


From 55ee986c4654a1060fc884e2ebfb650de898664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 59/77] fix: the overlapping Schwarz methods release their
 temporaries when a subdomain solver throws

---
 dune/istl/overlappingschwarz.hh | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 8b52620..a38a01c 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -1240,6 +1240,13 @@ namespace Dune
 
     OverlappingAssigner<TD> assigner(maxlength, mat, b, x);
 
+    // release the temporaries of the assigner, even if an exception is thrown
+    struct Deallocate
+    {
+      OverlappingAssigner<TD>& assigner;
+      ~Deallocate() { assigner.deallocate(); }
+    } deallocate{assigner};
+
     domain_iterator domain=IteratorDirectionSelector<solver_vector,subdomain_vector,forward>::begin(subDomains);
     iterator solver = IteratorDirectionSelector<solver_vector,subdomain_vector,forward>::begin(solvers);
     X v(x); // temporary for the update
@@ -1270,7 +1277,6 @@ namespace Dune
     }
 
     adder.axpy();
-    assigner.deallocate();
   }
 
   template<class K, class Al, class X, class Y>
@@ -1278,13 +1284,15 @@ namespace Dune
   ::OverlappingAssignerHelper(std::size_t maxlength, const BCRSMatrix<K, Al>& mat_,
                         const X& b_, Y& x_) :
     mat(&mat_),
-    rhs_( new DynamicVector<field_type>(maxlength, 42) ),
-    lhs_( new DynamicVector<field_type>(maxlength, -42) ),
     b(&b_),
     x(&x_),
     i(0),
     maxlength_(maxlength)
-  {}
+  {
+    auto rhs = std::make_unique<DynamicVector<field_type>>(maxlength, 42);
+    lhs_ = new DynamicVector<field_type>(maxlength, -42);
+    rhs_ = rhs.release();
+  }
 
   template<class K, class Al, class X, class Y>
   void
@@ -1396,9 +1404,9 @@ namespace Dune
       b(&b_),
       x(&x_), i(0), maxlength_(maxlength)
   {
-    rhs_ = new field_type[maxlength];
+    auto rhs = std::make_unique<field_type[]>(maxlength);
     lhs_ = new field_type[maxlength];
-
+    rhs_ = rhs.release();
   }
 
   template<template<class> class S, typename T, typename A>
@@ -1488,8 +1496,9 @@ namespace Dune
       b(&b_),
       x(&x_), i(0)
   {
-    rhs_= new Y(maxlength);
+    auto rhs = std::make_unique<Y>(maxlength);
     lhs_ = new X(maxlength);
+    rhs_ = rhs.release();
   }
 
   template<class M, class X, class Y>
-- 
2.43.0


From 76966495d0ce1d4748ff5330190036cd585ac86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 60/77] fix: ILUNSubdomainSolver compiles and sets up its
 decomposition in row-wise mode

---
 dune/istl/ilusubdomainsolver.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/ilusubdomainsolver.hh b/dune/istl/ilusubdomainsolver.hh
index 1ea13df..a1f8293 100644
--- a/dune/istl/ilusubdomainsolver.hh
+++ b/dune/istl/ilusubdomainsolver.hh
@@ -228,8 +228,8 @@ namespace Dune {
   template<class S>
   void ILUNSubdomainSolver<M,X,Y>::setSubMatrix(const M& A, S& rowSet)
   {
-    std::size_t offset=copyToLocalMatrix(A,rowSet);
-    RILU.setSize(rowSet.size(),rowSet.size(), (1+2*offset)*rowSet.size());
+    std::size_t offset=this->copyToLocalMatrix(A,rowSet);
+    RILU.setSize(rowSet.size(),rowSet.size());
     RILU.setBuildMode(matrix_type::row_wise);
     ILU::blockILUDecomposition(this->ILU, (offset+1)/2, RILU);
   }
-- 
2.43.0


From 6c1be9c96491bb7b381469d68532178cafeae801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 61/77] fix: TwoLevelMethod releases its coarse solver and
 policy when its construction fails

---
 dune/istl/paamg/twolevelmethod.hh | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 26c4da4..eb8d0fa 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_ISTL_TWOLEVELMETHOD_HH
 #define DUNE_ISTL_TWOLEVELMETHOD_HH
 
+#include <memory>
 #include <tuple>
 
 #include<dune/istl/operators.hh>
@@ -411,24 +412,18 @@ public:
     : operator_(&op), smoother_(smoother),
       preSteps_(preSteps), postSteps_(postSteps)
   {
-    policy_ = policy.clone();
+    policy_.reset(policy.clone());
     policy_->createCoarseLevelSystem(*operator_);
-    coarseSolver_=coarsePolicy.createCoarseLevelSolver(*policy_);
+    coarseSolver_.reset(coarsePolicy.createCoarseLevelSolver(*policy_));
   }
 
   TwoLevelMethod(const TwoLevelMethod& other)
-  : operator_(other.operator_), coarseSolver_(new CoarseLevelSolver(*other.coarseSolver_)),
-    smoother_(other.smoother_), policy_(other.policy_->clone()),
+  : operator_(other.operator_), smoother_(other.smoother_),
+    policy_(other.policy_->clone()), // Each instance has its own policy.
+    coarseSolver_(new CoarseLevelSolver(*other.coarseSolver_)),
     preSteps_(other.preSteps_), postSteps_(other.postSteps_)
   {}
 
-  ~TwoLevelMethod()
-  {
-    // Each instance has its own policy.
-    delete policy_;
-    delete coarseSolver_;
-  }
-
   void pre(FineDomainType& x, FineRangeType& b) override
   {
     smoother_->pre(x,b);
@@ -503,12 +498,12 @@ private:
     const FineOperatorType* matrix;
   };
   const FineOperatorType* operator_;
-  /** @brief The coarse level solver. */
-  CoarseLevelSolver* coarseSolver_;
   /** @brief The fine level smoother. */
   std::shared_ptr<S> smoother_;
   /** @brief Policy for prolongation, restriction, and coarse level system creation. */
-  LevelTransferPolicy<FO,typename CSP::Operator>* policy_;
+  std::unique_ptr<LevelTransferPolicy<FO,typename CSP::Operator>> policy_;
+  /** @brief The coarse level solver. */
+  std::unique_ptr<CoarseLevelSolver> coarseSolver_;
   /** @brief The number of presmoothing steps to apply. */
   std::size_t preSteps_;
   /** @brief The number of postsmoothing steps to apply. */
-- 
2.43.0


From 0fa18436e1f3f922198c2d67534a13b43613428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 62/77] fix: the set-up of the AMG hierarchy releases its
 temporaries when it is left by an exception

---
 dune/istl/paamg/aggregates.hh      |  5 ++--
 dune/istl/paamg/galerkin.hh        | 25 ++++++++---------
 dune/istl/paamg/graph.hh           |  7 +++--
 dune/istl/paamg/graphcreator.hh    | 15 +++++-----
 dune/istl/paamg/matrixhierarchy.hh | 45 ++++++++++++++++++------------
 5 files changed, 55 insertions(+), 42 deletions(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..ce59d7b 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -24,6 +24,7 @@
 #include <complex>
 #include <limits>
 #include <ostream>
+#include <memory>
 #include <tuple>
 
 namespace Dune
@@ -2406,7 +2407,8 @@ namespace Dune
 
       graph_ = &graph;
 
-      aggregate_ = new Aggregate<G,VertexSet>(graph, aggregates, connected_, front_);
+      auto aggregate = std::make_unique<Aggregate<G,VertexSet>>(graph, aggregates, connected_, front_);
+      aggregate_ = aggregate.get();
 
       Timer watch;
       watch.reset();
@@ -2538,7 +2540,6 @@ namespace Dune
                    <<minA<<" max size="<<maxA
                    <<" avg="<<avg/(conAggregates+isoAggregates)<<std::endl;
 
-      delete aggregate_;
       return std::make_tuple(conAggregates+isoAggregates,isoAggregates,
                              oneAggregates,skippedAggregates);
     }
diff --git a/dune/istl/paamg/galerkin.hh b/dune/istl/paamg/galerkin.hh
index 6de6abe..ed260db 100644
--- a/dune/istl/paamg/galerkin.hh
+++ b/dune/istl/paamg/galerkin.hh
@@ -9,6 +9,7 @@
 #include "pinfo.hh"
 #include <dune/common/poolallocator.hh>
 #include <dune/common/enumset.hh>
+#include <memory>
 #include <set>
 #include <limits>
 #include <algorithm>
@@ -570,13 +571,13 @@ namespace Dune
 
       std::size_t count;
 
-      const OverlapVertex* overlapVertices = buildOverlapVertices(fineGraph,
-                                                                  pinfo,
-                                                                  aggregates,
-                                                                  overlap,
-                                                                  count);
+      std::unique_ptr<const OverlapVertex[]> overlapVertices(buildOverlapVertices(fineGraph,
+                                                                                  pinfo,
+                                                                                  aggregates,
+                                                                                  overlap,
+                                                                                  count));
       typedef typename G::MutableMatrix M;
-      M* coarseMatrix = new M(size, size, M::row_wise);
+      auto coarseMatrix = std::make_unique<M>(size, size, M::row_wise);
 
       // Reset the visited flags of all vertices.
       // As the isolated nodes will be skipped we simply mark them as visited
@@ -593,8 +594,8 @@ namespace Dune
 
       ConnectivityConstructor<G,T>::examine(fineGraph, visitedMap, pinfo,
                                             aggregates, overlap,
-                                            overlapVertices,
-                                            overlapVertices+count,
+                                            overlapVertices.get(),
+                                            overlapVertices.get()+count,
                                             sparsityBuilder);
 
       dinfo<<pinfo.communicator().rank()<<": Matrix ("<<coarseMatrix->N()<<"x"<<coarseMatrix->M()<<" row: min="<<sparsityBuilder.minRowSize()<<" max="
@@ -602,9 +603,7 @@ namespace Dune
            <<static_cast<double>(sparsityBuilder.sumRowSize())/coarseMatrix->N()
            <<std::endl;
 
-      delete[] overlapVertices;
-
-      return coarseMatrix;
+      return coarseMatrix.release();
     }
 
     template<class G, class V, class Set>
@@ -616,7 +615,7 @@ namespace Dune
                                                   [[maybe_unused]] const Set& overlap)
     {
       typedef typename G::MutableMatrix M;
-      M* coarseMatrix = new M(size, size, M::row_wise);
+      auto coarseMatrix = std::make_unique<M>(size, size, M::row_wise);
 
       // Reset the visited flags of all vertices.
       // As the isolated nodes will be skipped we simply mark them as visited
@@ -635,7 +634,7 @@ namespace Dune
       dinfo<<"Matrix row: min="<<sparsityBuilder.minRowSize()<<" max="
            <<sparsityBuilder.maxRowSize()<<" average="
            <<static_cast<double>(sparsityBuilder.sumRowSize())/coarseMatrix->N()<<std::endl;
-      return coarseMatrix;
+      return coarseMatrix.release();
     }
 
     template<class M, class V, class P, class O>
diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 3be6952..abc8886 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -6,6 +6,7 @@
 #define DUNE_AMG_GRAPH_HH
 
 #include <cstddef>
+#include <memory>
 #include <algorithm>
 #include <vector>
 #include <cassert>
@@ -1982,9 +1983,11 @@ namespace Dune
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
       : excluded_(excluded), noVertices_(0), endVertex_(0), noEdges_(0), maxVertex_(graph.maxVertex())
     {
-      start_ = new std::ptrdiff_t[graph.noVertices()];
-      end_ = new std::ptrdiff_t[graph.noVertices()];
+      auto start = std::make_unique<std::ptrdiff_t[]>(graph.noVertices());
+      auto end = std::make_unique<std::ptrdiff_t[]>(graph.noVertices());
       edges_ = new VertexDescriptor[graph.noEdges()];
+      start_ = start.release();
+      end_ = end.release();
 
       VertexDescriptor* edge=edges_;
 
diff --git a/dune/istl/paamg/graphcreator.hh b/dune/istl/paamg/graphcreator.hh
index 2aff2a6..3c6f6a1 100644
--- a/dune/istl/paamg/graphcreator.hh
+++ b/dune/istl/paamg/graphcreator.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_AMG_GRAPHCREATOR_HH
 #define DUNE_AMG_GRAPHCREATOR_HH
 
+#include <memory>
 #include <tuple>
 
 #include "graph.hh"
@@ -37,7 +38,7 @@ namespace Dune
       static GraphTuple create(const M& matrix, T& excluded,
                                PI& pinfo, const OF& of)
       {
-        MatrixGraph* mg = new MatrixGraph(matrix.getmat());
+        auto mg = std::make_unique<MatrixGraph>(matrix.getmat());
         typedef typename PI::ParallelIndexSet ParallelIndexSet;
         typedef typename ParallelIndexSet::const_iterator IndexIterator;
         IndexIterator iend = pinfo.indexSet().end();
@@ -45,9 +46,9 @@ namespace Dune
         for(IndexIterator index = pinfo.indexSet().begin(); index != iend; ++index)
           excluded[index->local()] = of.contains(index->local().attribute());
 
-        SubGraph* sg= new SubGraph(*mg, excluded);
-        PropertiesGraph* pg = new PropertiesGraph(*sg, IdentityMap(), sg->getEdgeIndexMap());
-        return GraphTuple(mg,pg,sg);
+        auto sg = std::make_unique<SubGraph>(*mg, excluded);
+        auto pg = std::make_unique<PropertiesGraph>(*sg, IdentityMap(), sg->getEdgeIndexMap());
+        return GraphTuple(mg.release(),pg.release(),sg.release());
       }
 
       static void free(GraphTuple& graphs)
@@ -78,9 +79,9 @@ namespace Dune
                                [[maybe_unused]] const SequentialInformation& pinfo,
                                const OF&)
       {
-        MatrixGraph* mg = new MatrixGraph(matrix.getmat());
-        PropertiesGraph* pg = new PropertiesGraph(*mg, IdentityMap(), IdentityMap());
-        return GraphTuple(mg,pg);
+        auto mg = std::make_unique<MatrixGraph>(matrix.getmat());
+        auto pg = std::make_unique<PropertiesGraph>(*mg, IdentityMap(), IdentityMap());
+        return GraphTuple(mg.release(),pg.release());
       }
 
       static void free(GraphTuple& graphs)
diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index b0ff767..3532d5c 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -6,6 +6,7 @@
 #define DUNE_AMG_MATRIXHIERARCHY_HH
 
 #include <algorithm>
+#include <memory>
 #include <tuple>
 #include "aggregates.hh"
 #include "graph.hh"
@@ -511,11 +512,28 @@ namespace Dune
 
         std::vector<bool> excluded(matrix->getmat().N(), false);
 
-        GraphTuple graphs = GraphCreator::create(*matrix, excluded, *info, OverlapFlags());
+        // Owns the graphs, however the set-up of this level ends
+        struct Graphs
+        {
+          GraphTuple graphs;
+          bool hasProperties = true;
+          void freeProperties()
+          {
+            if(hasProperties)
+              GraphCreator::free(graphs);
+            hasProperties = false;
+          }
+          ~Graphs()
+          {
+            freeProperties();
+            delete std::get<0>(graphs);
+          }
+        } graphOwner{GraphCreator::create(*matrix, excluded, *info, OverlapFlags())};
+        GraphTuple& graphs = graphOwner.graphs;
 
+        aggregatesMaps_.push_back(nullptr);
         AggregatesMap* aggregatesMap=new AggregatesMap(std::get<1>(graphs)->maxVertex()+1);
-
-        aggregatesMaps_.push_back(aggregatesMap);
+        aggregatesMaps_.back() = aggregatesMap;
 
         Timer watch;
         watch.reset();
@@ -632,7 +650,7 @@ namespace Dune
                                    *infoLevel,
                                    noAggregates,
                                    criterion.useFixedOrder());
-        GraphCreator::free(graphs);
+        graphOwner.freeProperties();
 
         if(criterion.debugLevel()>2) {
           if(rank==0)
@@ -673,7 +691,6 @@ namespace Dune
         watch.reset();
         info->freeGlobalLookup();
 
-        delete std::get<0>(graphs);
         productBuilder.calculate(matrix->getmat(), *aggregatesMap, *coarseMatrix, *infoLevel, OverlapFlags());
 
         if(criterion.debugLevel()>2) {
@@ -693,8 +710,8 @@ namespace Dune
       infoLevel->freeGlobalLookup();
 
       built_=true;
-      AggregatesMap* aggregatesMap=new AggregatesMap(0);
-      aggregatesMaps_.push_back(aggregatesMap);
+      aggregatesMaps_.push_back(nullptr);
+      aggregatesMaps_.back() = new AggregatesMap(0);
 
       if(criterion.debugLevel()>0) {
         if(level==criterion.maxLevel()) {
@@ -844,17 +861,9 @@ namespace Dune
     template<class M, class IS, class A>
     MatrixHierarchy<M,IS,A>::~MatrixHierarchy()
     {
-      typedef typename AggregatesMapList::reverse_iterator AggregatesMapIterator;
-      typedef typename ParallelMatrixHierarchy::Iterator Iterator;
-      typedef typename ParallelInformationHierarchy::Iterator InfoIterator;
-
-      AggregatesMapIterator amap = aggregatesMaps_.rbegin();
-      InfoIterator info = parallelInformation_.coarsest();
-      for(Iterator level=matrices_.coarsest(), finest=matrices_.finest(); level != finest;  --level, --info, ++amap) {
-        (*amap)->free();
-        delete *amap;
-      }
-      delete *amap;
+      // the set-up might not have been completed
+      for(AggregatesMap* amap : aggregatesMaps_)
+        delete amap;
     }
 
     template<class M, class IS, class A>
-- 
2.43.0


From 826a99efe786bf6de947ae1fbd97f8650d668c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 63/77] fix: KAMG and one-level FastAMG report a coarse solver
 that failed

---
 dune/istl/paamg/amg.hh     |  2 ++
 dune/istl/paamg/fastamg.hh | 32 ++++++++++++++++++++++++--------
 dune/istl/paamg/kamg.hh    |  2 ++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index da577c2..bdc43c5 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -940,6 +940,8 @@ namespace Dune
       levelContext.lhs = lhs_->finest();
       levelContext.update = update_->finest();
       levelContext.rhs = rhs_->finest();
+      // an earlier application may have been left by an exception before this was reset
+      coarsesolverconverged = true;
     }
 
     template<class M, class X, class S, class PI, class A>
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 054f590..dca246e 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -238,6 +238,14 @@ namespace Dune
       /** @brief Multigrid cycle on a level. */
       void mgc(LevelContext& levelContext, Domain& x, const Range& b);
 
+      /**
+       * @brief Throw on all processes if the coarse solver failed on any.
+       *
+       * Does nothing if the current level is not the finest one.
+       * @param levelContext the iterators of the current level.
+       */
+      void checkCoarseSolver(LevelContext& levelContext);
+
       /**
        * @brief Apply pre smoothing on the current level.
        * @param levelContext The context with the iterators for the level.
@@ -538,6 +546,8 @@ namespace Dune
       levelContext.residual = residual_->finest();
       levelContext.rhs = rhs_->finest();
       levelContext.level=0;
+      // an earlier application may have been left by an exception before this was reset
+      coarsesolverconverged = true;
     }
 
     template<class M, class X, class PI, class A>
@@ -682,6 +692,8 @@ namespace Dune
         // printvector(std::cout, *rhs, "coarse level rhs", "rhs", 10, 10, 10);
         if (!res.converged)
           coarsesolverconverged = false;
+
+        checkCoarseSolver(levelContext);
       }else{
         // presmoothing
         presmooth(levelContext, v, b);
@@ -701,18 +713,22 @@ namespace Dune
         *lhs=0;
 #endif
 
-        if(levelContext.matrix == matrices_->matrices().finest()) {
-          bool converged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
-          // do not let a failure affect later applications
-          coarsesolverconverged = true;
-          if(!converged)
-            DUNE_THROW(MathError, "Coarse solver did not converge");
-        }
-
+        checkCoarseSolver(levelContext);
         postsmooth(levelContext, v, b);
       }
     }
 
+    template<class M, class X, class PI, class A>
+    void FastAMG<M,X,PI,A>::checkCoarseSolver(LevelContext& levelContext){
+      if(levelContext.matrix == matrices_->matrices().finest()) {
+        bool converged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
+        // do not let a failure affect later applications
+        coarsesolverconverged = true;
+        if(!converged)
+          DUNE_THROW(MathError, "Coarse solver did not converge");
+      }
+    }
+
 
     /** \copydoc Preconditioner::post */
     template<class M, class X, class PI, class A>
diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 0dfa8dd..6813664 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -324,6 +324,8 @@ namespace Dune
         for(Iter solver=ksolvers.begin(); solver!=ksolvers.end(); ++solver)
           (*solver)->setLevelContext(levelContext);
         ksolvers.back()->apply(v,d);
+        // the cycles in between do not look at the success of the coarse solver
+        amg.checkCoarseSolver(*levelContext);
       }
     }
 
-- 
2.43.0


From 24f6353aa33872ff3ef48a2c2982d1e50d9fa534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 64/77] fix: subdomains of overlapping Schwarz smoothers do not
 survive from the finer level and are never empty

---
 dune/istl/paamg/smoother.hh | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 7783913..5fa225b 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -751,7 +751,10 @@ namespace Dune
 
         std::set<std::pair<size_type,size_type> > pairs;
         int total=0;
-        for(VIter v=graph.begin(), ve=graph.end(); ve != v; ++v)
+        for(VIter v=graph.begin(), ve=graph.end(); ve != v; ++v) {
+          // a vertex without neighbours is a subdomain of its own
+          if(!(v.begin()!=v.end()))
+            pairs.insert(std::make_pair(*v,*v));
           for(EIter e = v.begin(), ee=v.end(); ee!=e; ++e)
           {
             ++total;
@@ -760,8 +763,11 @@ namespace Dune
             else
               pairs.insert(std::make_pair(e.target(),e.source()));
           }
+        }
 
 
+        // reset the subdomains, the arguments are used for all levels
+        subdomains.clear();
         subdomains.resize(pairs.size());
         Dune::dinfo <<std::endl<< "Created "<<pairs.size()<<" ("<<total<<") pair domains"<<std::endl<<std::endl;
         typedef typename std::set<std::pair<size_type,size_type> >::const_iterator SIter;
@@ -792,18 +798,18 @@ namespace Dune
       {
         // count  number ag aggregates. We assume that the
         // aggregates are numbered consecutively from 0 except
-        // for the isolated ones. All isolated vertices form
-        // one aggregate, here.
+        // for the isolated ones. Each isolated vertex gets
+        // its own subdomain behind those of the aggregates.
         int isolated=0;
-        AggregateDescriptor maxAggregate=0;
+        AggregateDescriptor noAggregates=0;
 
         for(std::size_t i=0; i < amap.noVertices(); ++i)
           if(amap[i]==AggregatesMap::ISOLATED)
             isolated++;
           else
-            maxAggregate = std::max(maxAggregate, amap[i]);
+            noAggregates = std::max<AggregateDescriptor>(noAggregates, amap[i]+1);
 
-        subdomains.resize(maxAggregate+1+isolated);
+        subdomains.resize(noAggregates);
 
         // reset the subdomains
         for(typename Vector::size_type i=0; i < subdomains.size(); ++i)
-- 
2.43.0


From 55b44ef368e530d2a19f5733a872d93dc11c349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 65/77] fix: commGraphRepartition releases all its gather
 arrays

---
 dune/istl/repartition.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 9d53321..2da475e 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1157,6 +1157,10 @@ namespace Dune
           delete[] gpart;
           delete[] noedges;
           delete[] displ;
+          delete[] xdispl;
+          delete[] noxs;
+          delete[] vdispl;
+          delete[] novs;
         }
 
 
-- 
2.43.0


From bce6e5402fb69c63fe925dd8ce760899c8667378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 66/77] fix: redistributing a nonoverlapping matrix releases
 its remote indices

---
 dune/istl/matrixredistribute.hh | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index f4a5d63..92cdbc8 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -696,13 +696,13 @@ namespace Dune
 
     // build copy to owner interface to get missing matrix values for novlp case
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
+      RemoteIndices<IndexSet> ris(origComm.indexSet(),
+                                 newComm.indexSet(),
+                                 origComm.communicator());
+      ris.template rebuild<true>();
 
       ri.getInterface().free();
-      ri.getInterface().build(*ris,copyflags,ownerflags);
+      ri.getInterface().build(ris,copyflags,ownerflags);
 
       // get copy rowsizes
       CommMatrixRowSize<M,RI> commRowSize_copy(origMatrix, ri);
@@ -790,11 +790,11 @@ namespace Dune
       ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow_copy,
                                                                     newrow_copy);
       ri.getInterface().free();
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
-      ri.getInterface().build(*ris,ownerflags,ownerflags);
+      RemoteIndices<IndexSet> ris(origComm.indexSet(),
+                                 newComm.indexSet(),
+                                 origComm.communicator());
+      ris.template rebuild<true>();
+      ri.getInterface().build(ris,ownerflags,ownerflags);
     }
 
     CommMatrixRow<M,IndexSet>
-- 
2.43.0


From 21cfcaf18f45707edde2a0eda144299202630eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 67/77] fix: exchanges and scalar products notice a changed
 index set

The cached interfaces and the mask of owned entries were kept when the
index set was resized after their first use. Later exchanges and scalar
products then used the attributes and local indices of the old set.
---
 dune/istl/owneroverlapcopy.hh | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 601dc4e..dcd6605 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -230,6 +230,24 @@ namespace Dune {
       }
     };
 
+    // The interfaces and the mask describe the index set as it was when they
+    // were set up. Forget them if it was resized since then.
+    void discardOutdatedCaches () const
+    {
+      if (cachesSeqNo == pis.seqNo())
+        return;
+      if (OwnerToAllInterfaceBuilt) OwnerToAllInterface.free();
+      if (OwnerOverlapToAllInterfaceBuilt) OwnerOverlapToAllInterface.free();
+      if (OwnerCopyToAllInterfaceBuilt) OwnerCopyToAllInterface.free();
+      if (OwnerCopyToOwnerCopyInterfaceBuilt) OwnerCopyToOwnerCopyInterface.free();
+      if (CopyToAllInterfaceBuilt) CopyToAllInterface.free();
+      OwnerToAllInterfaceBuilt = OwnerOverlapToAllInterfaceBuilt = false;
+      OwnerCopyToAllInterfaceBuilt = OwnerCopyToOwnerCopyInterfaceBuilt = false;
+      CopyToAllInterfaceBuilt = false;
+      mask.clear();
+      cachesSeqNo = pis.seqNo();
+    }
+
     void buildOwnerOverlapToAllInterface () const
     {
       if (OwnerOverlapToAllInterfaceBuilt)
@@ -310,6 +328,7 @@ namespace Dune {
     template<class T>
     void copyOwnerToAll (const T& source, T& dest) const
     {
+      discardOutdatedCaches();
       if (!OwnerToAllInterfaceBuilt)
         buildOwnerToAllInterface ();
       BC communicator;
@@ -327,6 +346,7 @@ namespace Dune {
     template<class T>
     void copyCopyToAll (const T& source, T& dest) const
     {
+      discardOutdatedCaches();
       if (!CopyToAllInterfaceBuilt)
         buildCopyToAllInterface ();
       BC communicator;
@@ -344,6 +364,7 @@ namespace Dune {
     template<class T>
     void addOwnerOverlapToAll (const T& source, T& dest) const
     {
+      discardOutdatedCaches();
       if (!OwnerOverlapToAllInterfaceBuilt)
         buildOwnerOverlapToAllInterface ();
       BC communicator;
@@ -361,6 +382,7 @@ namespace Dune {
     template<class T>
     void addOwnerCopyToAll (const T& source, T& dest) const
     {
+      discardOutdatedCaches();
       if (!OwnerCopyToAllInterfaceBuilt)
         buildOwnerCopyToAllInterface ();
       BC communicator;
@@ -378,6 +400,7 @@ namespace Dune {
     template<class T>
     void addOwnerCopyToOwnerCopy (const T& source, T& dest) const
     {
+      discardOutdatedCaches();
       if (!OwnerCopyToOwnerCopyInterfaceBuilt)
         buildOwnerCopyToOwnerCopyInterface ();
       BC communicator;
@@ -398,6 +421,7 @@ namespace Dune {
     void dot (const T1& x, const T1& y, T2& result) const
     {
       using real_type = typename FieldTraits<typename T1::field_type>::real_type;
+      discardOutdatedCaches();
       // set up mask vector
       if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()))
       {
@@ -426,6 +450,7 @@ namespace Dune {
     {
       using real_type = typename FieldTraits<typename T1::field_type>::real_type;
 
+      discardOutdatedCaches();
       // set up mask vector
       if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()))
       {
@@ -687,6 +712,7 @@ namespace Dune {
     mutable IF CopyToAllInterface;
     mutable bool CopyToAllInterfaceBuilt;
     mutable std::vector<double> mask;
+    mutable int cachesSeqNo = -1;
     int oldseqNo;
     GlobalLookupIndexSet* globalLookup_;
     const SolverCategory::Category category_;
-- 
2.43.0


From 4ec62af774b018597aeacbfc3153a0ecd0bc6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 68/77] fix: OwnerOverlapCopyCommunication reports remote
 indices without local index on an empty index set

The search for the local index belonging to a remote index looked at the
element behind the last one before it compared with the end.
---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index dcd6605..a6f9ad3 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -651,7 +651,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From a882e43176bdf8f9baa7bb027a45f5368848decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:18 +0000
Subject: [PATCH 69/77] fix: the numbers of the coarsest aggregates exist for a
 hierarchy with one level

MatrixHierarchy::getCoarsestAggregatesOnFinest followed a null pointer
when nothing had been coarsened.
---
 dune/istl/paamg/matrixhierarchy.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 3532d5c..f5ceec8 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <memory>
+#include <numeric>
 #include <tuple>
 #include "aggregates.hh"
 #include "graph.hh"
@@ -782,6 +783,12 @@ namespace Dune
     {
       int levels=aggregatesMaps().size();
       int maxlevels=parallelInformation_.finest()->communicator().max(levels);
+      if(levels<=1) {
+        // There are no aggregates, the unknowns themselves are the coarsest ones.
+        data.resize(matrices_.finest()->getmat().N());
+        std::iota(data.begin(), data.end(), std::size_t(0));
+        return;
+      }
       std::size_t size=(*(aggregatesMaps().begin()))->noVertices();
       // We need an auxiliary vector for the consecutive prolongation.
       std::vector<std::size_t> tmp;
-- 
2.43.0


From 1129c62017fcb82f52ed61c6813389951bfdb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 70/77] fix: a Matrix Market file with more entries than
 announced is not taken for an intact one

---
 dune/istl/matrixmarket.hh | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 69e58e7..4335cc0 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -891,6 +891,25 @@ namespace Dune
       }
     }
 
+    // A file that holds more than the announced entries is damaged
+    template<typename T, typename A>
+    void checkNothingLeft(const Dune::BCRSMatrix<T,A>&, std::istream& file,
+                          const std::string& filename)
+    {
+      if(!file.eof() && file.peek()!=std::istream::traits_type::eof()) {
+        file >> std::ws;
+        if(!file.eof() && !file.bad())
+          DUNE_THROW(MatrixMarketFormatError, "More entries than announced in file " << filename);
+      }
+      if(file.bad())
+        DUNE_THROW(IOError, "Could not read file: " << filename);
+    }
+
+    // Of several columns only those are read that fit into the vector
+    template<typename T, typename A>
+    void checkNothingLeft(const Dune::BlockVector<T,A>&, std::istream&, const std::string&)
+    {}
+
   } // end namespace MatrixMarketImpl
 
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
@@ -1359,6 +1378,7 @@ namespace Dune
       }
     }
     readMatrixMarket(matrix,file);
+    MatrixMarketImpl::checkNothingLeft(matrix,file,rfilename);
     file.close();
 
     if(!readIndices)
@@ -1447,6 +1467,7 @@ namespace Dune
       }
     }
     readMatrixMarket(matrix,file);
+    MatrixMarketImpl::checkNothingLeft(matrix,file,rfilename);
     file.close();
   }
 
-- 
2.43.0


From 0eb09bd732d85452122407fc2f82ed15ebdba6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 71/77] fix: assigning a TwoLevelMethod gives it a policy and a
 coarse solver of its own

The compiler generated assignment shared the pointers, both objects
deleted them.
---
 dune/istl/paamg/twolevelmethod.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index eb8d0fa..29a8688 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -424,6 +424,18 @@ public:
     preSteps_(other.preSteps_), postSteps_(other.postSteps_)
   {}
 
+  TwoLevelMethod& operator=(const TwoLevelMethod& other)
+  {
+    TwoLevelMethod tmp(other);
+    operator_ = tmp.operator_;
+    smoother_ = std::move(tmp.smoother_);
+    policy_ = std::move(tmp.policy_);
+    coarseSolver_ = std::move(tmp.coarseSolver_);
+    preSteps_ = tmp.preSteps_;
+    postSteps_ = tmp.postSteps_;
+    return *this;
+  }
+
   void pre(FineDomainType& x, FineRangeType& b) override
   {
     smoother_->pre(x,b);
-- 
2.43.0


From 55f60cc6113fb528a1e12204037c9add9c6a8f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 72/77] fix: drop shared indices of an empty BCRSMatrix whose
 assignment ran out of memory

---
 dune/istl/bcrsmatrix.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index a32a5b8..7f17df9 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2206,10 +2206,13 @@ namespace Dune {
       if (notAllocated)
         return;
 
+      // the indices may be shared with another matrix even if
+      // there is no memory for entries
+      j_.reset();
+
       if (allocationSize_>0)
       {
-        // a,j_ have been allocated as one long vector
-        j_.reset();
+        // a has been allocated as one long vector
         if (a)
           {
             for(B *aiter=a+(allocationSize_-1), *aend=a-1; aiter!=aend; --aiter)
-- 
2.43.0


From 8462aec83ef57e329ab0e51628080cb265037bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 73/77] fix: measure the initial defect of MINRES like the
 later ones

---
 dune/istl/solvers.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7b2043d..fec3f91 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -643,14 +643,18 @@ namespace Dune {
 
       // calculate preconditioned defect
       _prec->apply(z,b); // r = W^-1 (b - Ax)
-      real_type def = _sp->norm(z);
+      // beta is real and positive in exact arithmetic
+      // since it is the norm of the basis vectors (in unpreconditioned case).
+      // The residuals of the iterations below are measured in the same norm
+      field_type beta = sqrt(_sp->dot(b,z));
+      real_type def = abs(beta);
       if (iteration.step(0, def)){
         _prec->post(x);
         return;
       }
 
       // recurrence coefficients as computed in Lanczos algorithm
-      field_type alpha, beta;
+      field_type alpha;
         // diagonal entries of givens rotation
       std::array<real_type,2> c{{0.0,0.0}};
         // off-diagonal entries of givens rotation
@@ -662,9 +666,6 @@ namespace Dune {
       // the rhs vector of the min problem
       std::array<field_type,2> xi{{1.0,0.0}};
 
-      // beta is real and positive in exact arithmetic
-      // since it is the norm of the basis vectors (in unpreconditioned case)
-      beta = sqrt(_sp->dot(b,z));
       field_type beta0 = beta;
 
       // the search directions
-- 
2.43.0


From 8c30c8d0687004e207423c0f0f6eb2131e14b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:37 +0000
Subject: [PATCH 74/77] fix: Givens rotations of MINRES and GMRES must not
 depend on the scale of the matrix

---
 dune/istl/solvers.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index fec3f91..a200dc3 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -10,6 +10,7 @@
 #include <cmath>
 #include <complex>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <type_traits>
 #include <vector>
@@ -772,10 +773,12 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
+      // relative threshold, the entries scale with the matrix
+      const real_type eps = norm_max*real_type(1e-15)
+        + real_type(std::numeric_limits<Simd::Scalar<real_type>>::min());
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
@@ -1081,10 +1084,12 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
+      // relative threshold, the entries scale with the matrix
+      const real_type eps = norm_max*real_type(1e-15)
+        + real_type(std::numeric_limits<Simd::Scalar<real_type>>::min());
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-- 
2.43.0


From 558d0384bcac969096640dc3b612364e26d76a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 75/77] fix: MINRES with several right hand sides, one of them
 solved already

---
 dune/istl/solvers.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index a200dc3..2b10719 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -745,7 +745,9 @@ namespace Dune {
         p[i2] = dummy;
         p[i2].axpy(-T[1],p[i1]);
         p[i2].axpy(-T[0],p[i0]);
-        p[i2] *= real_type(1.0)/T[2];
+        p[i2] *= Simd::cond(def==field_type(0.),
+                            field_type(0.),
+                            real_type(1.0)/T[2]);
 
         // apply correction/update solution
         x.axpy(beta0*xi[(i+1)%2],p[i2]);
-- 
2.43.0


From b9219a40bab7a550b24b0d3465fd9ee7e3d25eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:37 +0000
Subject: [PATCH 76/77] fix: generalized PCG and flexible CG with several right
 hand sides, one of them solved already

---
 dune/istl/solvers.hh | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 2b10719..6a588e2 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1432,7 +1432,7 @@ private:
       rho = _sp->dot(*(p[0]),b);             // orthogonalization
       _op->apply(*(p[0]),q);                 // q=Ap
       pp[0] = _sp->dot(*(p[0]),q);           // scalar product
-      lambda = rho/pp[0];         // minimization
+      lambda = Simd::cond(rho==field_type(0.), field_type(0.), rho/pp[0]);         // minimization
       x.axpy(lambda,*(p[0]));               // update solution
       b.axpy(-lambda,q);              // update defect
 
@@ -1458,7 +1458,8 @@ private:
           _op->apply(prec_res, q);
 
           for(int j=0; j<ii; ++j) {
-            rho =_sp->dot(q,*(p[j]))/pp[j];
+            rho =_sp->dot(q,*(p[j]));
+            rho = Simd::cond(rho==field_type(0.), field_type(0.), rho/pp[j]);
             p[ii]->axpy(-rho, *(p[j]));
           }
 
@@ -1466,7 +1467,7 @@ private:
           _op->apply(*(p[ii]),q);                     // q=Ap
           pp[ii] = _sp->dot(*(p[ii]),q);               // scalar product
           rho = _sp->dot(*(p[ii]),b);                 // orthogonalization
-          lambda = rho/pp[ii];             // minimization
+          lambda = Simd::cond(rho==field_type(0.), field_type(0.), rho/pp[ii]);             // minimization
           x.axpy(lambda,*(p[ii]));                   // update solution
           b.axpy(-lambda,q);                  // update defect
 
@@ -1634,7 +1635,8 @@ private:
           //saving interim values for future calculating
           _op->apply(d[i_bounded], Ad[i_bounded]);                    // save Ad[i]
           ddotAd[i_bounded]=_sp->dot(d[i_bounded],Ad[i_bounded]);    // save <d[i],Ad[i]>
-          alpha = _sp->dot(d[i_bounded], b)/ddotAd[i_bounded];      // <d[i],b>/<d[i],Ad[i]>
+          alpha = _sp->dot(d[i_bounded], b);
+          alpha = Simd::cond(alpha==field_type(0.), field_type(0.), alpha/ddotAd[i_bounded]);      // <d[i],b>/<d[i],Ad[i]>
 
           //update solution and defect
           x.axpy(alpha, d[i_bounded]);
@@ -1662,7 +1664,9 @@ private:
     virtual void orthogonalizations(const int& i_bounded,const std::vector<X>& Ad, const X& w, const std::vector<field_type,ReboundAllocatorType<X,field_type>>& ddotAd,std::vector<X>& d) {
       // The RestartedFCGSolver uses only values with lower array index;
       for (int k = 0; k < i_bounded; k++) {
-        d[i_bounded].axpy(-_sp->dot(Ad[k], w) / ddotAd[k], d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
+        field_type beta = _sp->dot(Ad[k], w);
+        beta = Simd::cond(beta==field_type(0.), field_type(0.), beta/ddotAd[k]);
+        d[i_bounded].axpy(-beta, d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
       }
     }
 
@@ -1720,8 +1724,11 @@ private:
     void orthogonalizations(const int& i_bounded,const std::vector<X>& Ad, const X& w, const std::vector<field_type,ReboundAllocatorType<X,field_type>>& ddotAd,std::vector<X>& d) override {
       // This FCGSolver uses values with higher array indexes too, if existent.
       for (int k = 0; k < _k_limit; k++) {
-        if(i_bounded!=k)
-          d[i_bounded].axpy(-_sp->dot(Ad[k], w) / ddotAd[k], d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
+        if(i_bounded!=k) {
+          field_type beta = _sp->dot(Ad[k], w);
+          beta = Simd::cond(beta==field_type(0.), field_type(0.), beta/ddotAd[k]);
+          d[i_bounded].axpy(-beta, d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
+        }
       }
       // The loop limit increase, if array is not completely filled.
       if(_k_limit<=i_bounded)
-- 
2.43.0


From 337144028bcbad80c664be6e95660b1dd5c4c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:37 +0000
Subject: [PATCH 77/77] fix: GMRES with several right hand sides must not
 extend those that have converged by rounding errors

---
 dune/istl/solvers.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 6a588e2..068107a 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -956,6 +956,7 @@ namespace Dune {
       // calculate preconditioned defect
       v[0] = 0.0; _prec->apply(v[0],b); // r = W^-1 b
       norm = _sp->norm(v[0]);
+      const real_type norm0 = norm;
       if(iteration.step(0, norm)){
         _prec->post(x);
         return;
@@ -994,7 +995,7 @@ namespace Dune {
 
           // normalize new vector
           v[i+1] = w;
-          v[i+1] *= Simd::cond(norm==real_type(0.),
+          v[i+1] *= Simd::cond(norm==real_type(0.) || H[i+1][i]==field_type(0.),
                                field_type(0.),
                                real_type(1.0)/H[i+1][i]);
 
@@ -1011,7 +1012,13 @@ namespace Dune {
           // norm of the defect is the last component the vector s
           norm = abs(s[i+1]);
 
-          iteration.step(j, norm);
+          if(!iteration.step(j, norm)) {
+            // right hand sides that have converged before the others must
+            // not be extended by directions made of rounding errors
+            const auto converged = norm < norm0*_reduction;
+            s[i+1] = Simd::cond(converged, field_type(0.), s[i+1]);
+            norm = Simd::cond(converged, real_type(0.), norm);
+          }
 
         } // end for
 
-- 
2.43.0

