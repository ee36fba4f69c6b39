From 2e8d2698bda2659074e56e0254e1b85a089b79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 01/78] fix: ConvexObjective::addMax must add the epigraph
 variable to the objective and own it

---
 trajopt_sco/src/modeling.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..bf10823 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,6 +75,8 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
+  exprInc(quad_, m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
-- 
2.43.0


From d6b08d16d35b1ae13036bd3e3a05612b3ca7d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 02/78] fix: an affine objective must replace a previous
 quadratic objective of the BPMPD model

---
 trajopt_sco/src/bpmpd_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..68e2e32 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -540,7 +540,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
-- 
2.43.0


From 6de0ecb22e7585ebd46090d14909321a4180efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 03/78] fix: pass problems larger than a pipe buffer to and
 from the BPMPD process completely

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 41 ++++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..8be99c7 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -3,6 +3,7 @@
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
 #include <cassert>
+#include <cerrno>
 #include <cstdint>
 #include <cstdlib>
 #include <unistd.h>
@@ -16,6 +17,38 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write all of the bytes: a pipe may take only part of a large buffer at once */
+inline ssize_t writeAll(int fp, const void* data, std::size_t size)
+{
+  std::size_t done = 0;
+  while (done < size)
+  {
+    const ssize_t n = write(fp, static_cast<const char*>(data) + done, size - done);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      break;
+    done += static_cast<std::size_t>(n);
+  }
+  return static_cast<ssize_t>(done);
+}
+
+/** @brief Read all of the bytes: a pipe may deliver only part of a large buffer at once */
+inline ssize_t readAll(int fp, void* data, std::size_t size)
+{
+  std::size_t done = 0;
+  while (done < size)
+  {
+    const ssize_t n = read(fp, static_cast<char*>(data) + done, size - done);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      break;
+    done += static_cast<std::size_t>(n);
+  }
+  return static_cast<ssize_t>(done);
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,14 +57,14 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
+      const ssize_t n = writeAll(fp, &xcopy, sizeof(T));
       assert(n == sizeof(T));
       UNUSED(n);
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
+      const ssize_t n = readAll(fp, &x, sizeof(T));
       assert(n == sizeof(T));
       UNUSED(n);
       break;
@@ -48,7 +81,7 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
+      const long n = writeAll(fp, x.data(), sizeof(T) * size);
       assert(static_cast<unsigned long>(n) == sizeof(T) * size);
       UNUSED(n);
       break;
@@ -56,7 +89,7 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
+      const long n = readAll(fp, x.data(), sizeof(T) * size);
       assert(static_cast<unsigned long>(n) == sizeof(T) * size);
       UNUSED(n);
       break;
-- 
2.43.0


From f2538b2c5e6a3e4f6cbaec1c7b76101babeb27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 04/78] fix: getClosestFeasiblePoint must respect lower limits
 and narrow ranges

---
 trajopt_sco/src/modeling.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index bf10823..20f349d 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -266,8 +266,12 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   for (std::size_t i = 0; i < x.size(); i++)
   {
     // Force it a tiny bit inside the bounds
-    y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    const double lower = lower_bounds_[i] + delta;
+    const double upper = upper_bounds_[i] - delta;
+    if (lower > upper)  // the range is narrower than the margins, e.g. a fixed variable
+      y[i] = (lower_bounds_[i] + upper_bounds_[i]) / 2;
+    else
+      y[i] = fmin(upper, fmax(lower, x[i]));
   }
   return y;
 }
-- 
2.43.0


From b66230ddf86fc2287d131cc51b129adfacc8a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 05/78] fix: list the solver names in the order of the solver
 enumeration

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..a936f5e 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
-- 
2.43.0


From 3d56c5de6d011d9e21cd4a3744ab5db351b513e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 06/78] fix: refuse to print the first solver value past the
 named ones

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index a936f5e..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From e5e868da15ef4175bff78916bf31d10df300b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 07/78] fix: compare whole index arrays when deciding whether
 the OSQP workspace can be updated

memcmp was given the number of elements instead of the number of bytes, so that matrices with another
sparsity pattern were taken for equal and their values written to the old positions (and a null pointer
was passed when a matrix is empty).
---
 trajopt_sco/src/osqp_interface.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..eb3f0b7 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -195,10 +195,8 @@ bool OSQPModel::updateObjective(bool check_sparsity)
   eigenToCSC(triangular_sm, P_row_indices_, P_column_pointers_, P_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), P_column_pointers_.data(), static_cast<size_t>(P_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), P_row_indices_.data(), static_cast<size_t>(P_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == P_column_pointers_ && prev_row_indices == P_row_indices_;
 
   P_.reset(OSQPCscMatrix_new(n_,
                              n_,
@@ -265,10 +263,8 @@ bool OSQPModel::updateConstraints(bool check_sparsity)
   eigenToCSC(sm, A_row_indices_, A_column_pointers_, A_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), A_column_pointers_.data(), static_cast<size_t>(A_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), A_row_indices_.data(), static_cast<size_t>(A_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == A_column_pointers_ && prev_row_indices == A_row_indices_;
 
   A_.reset(OSQPCscMatrix_new(m_,
                              n_,
-- 
2.43.0


From 166a2f39195bd9b094e69bc2ee66b6d694069c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 08/78] fix: an affine objective must replace a previous
 quadratic objective of the OSQP and qpOASES models

---
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index eb3f0b7..3a34ed8 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -609,7 +609,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From 4286c98d21b63843dc6e3b80ac984b88eb735fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 09/78] fix: give the cold start of qpOASES its full iteration
 budget after a failed hot start

---
 trajopt_sco/src/qpoases_interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..95522f7 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -240,6 +240,8 @@ CvxOptStatus qpOASESModel::optimize()
     //      tests pass.
     createSolver();
 
+    // a failed hotstart leaves the number of iterations it performed in nWSR
+    nWSR = 255;
     val = qpoases_problem_->init(&H_, g_.data(), &A_, lb_.data(), ub_.data(), lbA_.data(), ubA_.data(), nWSR, nullptr);
   }
 
-- 
2.43.0


From c962a9cd0157d92dbb6b543d44d6a444709b870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 10/78] fix: do not close SQP log files that could not be
 opened

optimize() checks every log stream before writing to it but passed the
null pointers of streams that failed to open to fclose, which crashed
when log_dir is not writable.
---
 trajopt_sco/src/optimizers.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index fce8e57..94f56b1 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -980,10 +980,14 @@ cleanup:
   // NOLINTBEGIN(clang-analyzer-core.NonNullParamChecker)
   if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
   {
-    std::fclose(log_solver_stream);
-    std::fclose(log_vars_stream);
-    std::fclose(log_costs_stream);
-    std::fclose(log_constraints_stream);
+    if (log_solver_stream != nullptr)
+      std::fclose(log_solver_stream);
+    if (log_vars_stream != nullptr)
+      std::fclose(log_vars_stream);
+    if (log_costs_stream != nullptr)
+      std::fclose(log_costs_stream);
+    if (log_constraints_stream != nullptr)
+      std::fclose(log_constraints_stream);
   }
   // NOLINTEND(clang-analyzer-core.NonNullParamChecker)
 
-- 
2.43.0


From 26f3cd59d6fe53381e6ebe66ac40d0db9fea1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 11/78] fix: do not report convergence on a time limit before
 anything was evaluated

With the time limit hit before the first evaluation the violation vector
is empty, which was taken to mean that there are no constraints, so
OPT_CONVERGED was returned for a point that may violate them.
---
 trajopt_sco/src/optimizers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 94f56b1..61d07b0 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -742,7 +742,9 @@ OptStatus BasicTrustRegionSQP::optimize()
         LOG_INFO("Elapsed time %f has exceeded max time %f", elapsed_time, param_.max_time);
         retval = OPT_TIME_LIMIT;
 
-        if (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance)
+        // Without an evaluation (limit hit before the first iteration) nothing is known about the constraints
+        const bool evaluated = constraints.empty() || !results_.cnt_viols.empty();
+        if (evaluated && (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance))
         {
           retval = OPT_CONVERGED;
           if (!results_.cnt_viols.empty())
-- 
2.43.0


From 28ec8b963a16287f6e2bc92bf82e5120f2e4187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 12/78] fix: lock the solver models in setVarBounds

addVar(name, lb, ub) calls setVarBounds after addVar has released the
mutex, so threads convexifying costs concurrently wrote bounds while
others grew the bound vectors (lost bounds, use after reallocation).
---
 trajopt_sco/src/bpmpd_interface.cpp   | 1 +
 trajopt_sco/src/osqp_interface.cpp    | 1 +
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 68e2e32..8fd87c4 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -332,6 +332,7 @@ void BPMPDModel::update()
 
 void BPMPDModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(m_mutex);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     auto varind = static_cast<std::size_t>(vars[i].var_rep->index);
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 3a34ed8..2ac6825 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -415,6 +415,7 @@ void OSQPModel::update()
 
 void OSQPModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 95522f7..22d07b4 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -199,6 +199,7 @@ void qpOASESModel::update()
 
 void qpOASESModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (std::size_t i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
-- 
2.43.0


From 922e486c50e95eb74a3a3fd6c71599512dfacb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 13/78] fix: serialise the use of the shared BPMPD process

All BPMPD models of a program talk to one solver process over one pair of
pipes. Models used in different threads started it twice and mixed their
requests and replies.
---
 trajopt_sco/src/bpmpd_interface.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 8fd87c4..8ae6478 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -204,6 +204,8 @@ pid_t popen2(const char* command, int* infp, int* outfp)
   return pid;
 }
 
+// The solver process is shared by every model: one request at a time
+static std::mutex gMutex;  // NOLINT
 static pid_t gPID = 0;    // NOLINT
 static int gPipeIn = 0;   // NOLINT
 static int gPipeOut = 0;  // NOLINT
@@ -217,6 +219,7 @@ void fexit()
 
 BPMPDModel::BPMPDModel()
 {
+  const std::scoped_lock lock(gMutex);
   if (gPID == 0)
   {
     atexit(fexit);
@@ -519,12 +522,15 @@ CvxOptStatus BPMPDModel::optimize()
                            obj,
                            lbound,
                            ubound);
-  bpmpd_io::ser(gPipeIn, bi, bpmpd_io::SER);
+  bpmpd_io::bpmpd_output bo;
+  {
+    const std::scoped_lock lock(gMutex);
+    bpmpd_io::ser(gPipeIn, bi, bpmpd_io::SER);
 
-  // std::cout << "serialization time:" << end-start << '\n';
+    // std::cout << "serialization time:" << end-start << '\n';
 
-  bpmpd_io::bpmpd_output bo;
-  bpmpd_io::ser(gPipeOut, bo, bpmpd_io::DESER);
+    bpmpd_io::ser(gPipeOut, bo, bpmpd_io::DESER);
+  }
 
   m_soln = DblVec(bo.primal.begin(), bo.primal.begin() + static_cast<long int>(n));
   const int retcode = bo.code;
-- 
2.43.0


From 800db9d111f8850cc848f6579eccfdc8dacf2426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 14/78] fix: use the expanded coefficients when a joint range
 is split into two inequalities

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From e9afb6aa81ca279ab216b0f021750f663bb7b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 15/78] fix: the cost function of a Problem and its gradient
 must consider every cost term

---
 trajopt_ifopt/src/core/problem.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..b07a364 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,11 +68,8 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
-  if (hasCostTerms())
-    g = costs_.getValues();
-
-  return g(0);
+  // The costs are stacked, one row per cost term
+  return hasCostTerms() ? costs_.getValues().sum() : 0.0;
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -105,7 +102,8 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
   }
 
-  return jac.row(0).transpose();
+  // The costs are stacked, one row per cost term
+  return jac.transpose() * Eigen::VectorXd::Ones(jac.rows());
 }
 
 std::vector<Bounds> Problem::getBoundsOnConstraints() const { return constraints_.getBounds(); }
-- 
2.43.0


From e56f8e5e955d0d040e3f0a2ad686cefb99e56b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 16/78] fix: a composite that sums its components has a single
 row

---
 trajopt_ifopt/src/core/composite.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/trajopt_ifopt/src/core/composite.cpp b/trajopt_ifopt/src/core/composite.cpp
index a249331..65231c0 100644
--- a/trajopt_ifopt/src/core/composite.cpp
+++ b/trajopt_ifopt/src/core/composite.cpp
@@ -36,7 +36,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 namespace trajopt_ifopt
 {
 CompositeDifferentiable::CompositeDifferentiable(std::string name, Eigen::Index num_vars, Mode mode, bool dynamic)
-  : Differentiable(std::move(name), 0, mode, dynamic), num_vars_(num_vars)
+  : Differentiable(std::move(name), mode == Mode::kSumToScalar ? 1 : 0, mode, dynamic), num_vars_(num_vars)
 {
 }
 
@@ -45,7 +45,10 @@ void CompositeDifferentiable::addComponent(Differentiable::Ptr c)
   // at this point the number of rows must be specified.
   assert(c->getRows() != -1);
 
-  rows_ += c->getRows();
+  // a sum has a single row, whatever is added
+  assert(mode_ == Mode::kStackRows || c->getRows() == 1);
+  if (mode_ == Mode::kStackRows)
+    rows_ += c->getRows();
   components_.push_back(std::move(c));
 }
 
@@ -54,7 +57,7 @@ const CompositeDifferentiable::ComponentVec& CompositeDifferentiable::getCompone
 void CompositeDifferentiable::clearComponents()
 {
   components_.clear();
-  rows_ = 0;
+  rows_ = (mode_ == Mode::kSumToScalar) ? 1 : 0;
 }
 
 Differentiable::Ptr CompositeDifferentiable::getComponent(const std::string& name) const
@@ -71,11 +74,13 @@ bool CompositeDifferentiable::empty() const { return components_.empty(); }
 
 int CompositeDifferentiable::update()
 {
-  int rows{ 0 };
+  int rows{ mode_ == Mode::kSumToScalar ? 1 : 0 };
   Eigen::Index non_zeros{ 0 };
   for (auto& c : components_)
   {
-    rows += c->update();
+    const int c_rows = c->update();
+    if (mode_ == Mode::kStackRows)
+      rows += c_rows;
     non_zeros += c->getNonZeros();
     assert(c->getRows() >= 0);
     assert(c->getNonZeros() >= 0);
@@ -148,6 +153,9 @@ Jacobian CompositeDifferentiable::getJacobian() const
 
 std::vector<Bounds> CompositeDifferentiable::getBounds() const
 {
+  if (mode_ == Mode::kSumToScalar)
+    return { NoBound };
+
   std::vector<Bounds> bounds;
   bounds.reserve(static_cast<std::size_t>(rows_));
   for (const auto& c : components_)
-- 
2.43.0


From 0e69ef9a7c666292dc7023f4ba2c3e33aa17bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 17/78] fix: a composite of fixed size must know its non-zeros
 after an update

---
 trajopt_ifopt/src/core/composite.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/core/composite.cpp b/trajopt_ifopt/src/core/composite.cpp
index 65231c0..b4e7a74 100644
--- a/trajopt_ifopt/src/core/composite.cpp
+++ b/trajopt_ifopt/src/core/composite.cpp
@@ -86,11 +86,9 @@ int CompositeDifferentiable::update()
     assert(c->getNonZeros() >= 0);
   }
 
+  non_zeros_ = non_zeros;
   if (dynamic_)
-  {
     rows_ = rows;
-    non_zeros_ = non_zeros;
-  }
 
   assert(rows_ == rows);
   return rows_;
-- 
2.43.0


From fc3144fc1a875732eb83212130cbcadc16919a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 18/78] fix: keep the linear term of quadratic expressions
 whose Hessian is zero

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..271dbc2 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -181,8 +181,7 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(static_cast<Eigen::Index>(func_hessians.size()) == m);
   assert(x.size() == n);
 
-  linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  linear_coeffs = func_jacobian;  // rows with no Hessian stay affine
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
-- 
2.43.0


From 5c1d3ebc39ec692fabd655c4cf5fb516a6bb78be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 19/78] fix: evaluate quadratic expressions of a single
 variable as documented

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index 271dbc2..346d079 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -105,6 +105,10 @@ void AffExprs::square(QuadExprs& quad_expr, const Eigen::Ref<const Eigen::Vector
       continue;
     }
 
+    // With a single variable a row cannot be told from an n×n matrix, so Q_i itself is stored
+    if (n == 1)
+      scratch_qi_trips_.front() = { 0, 0, scratch_qi_trips_.front().value() * scratch_qi_trips_.front().value() };
+
     Qi.resize(1, n);
     Qi.setFromTriplets(scratch_qi_trips_.begin(), scratch_qi_trips_.end());
     Qi.makeCompressed();
@@ -145,7 +149,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
     if (Q.rows() == 0)
       continue;
 
-    if (Q.rows() == 1)
+    if (Q.rows() == 1 && Q.cols() > 1)
     {
       // Encoded q_i (1×n): add (q_i * x)^2
       double t = 0.0;
-- 
2.43.0


From 5c7f3793d266f6f7aed6d108c80ce59fb998ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 20/78] fix: weight the exact costs of IfoptQPProblem like its
 convex costs

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..5aab89b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,13 +62,13 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
-      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From 0aab0043df9a3c00b1ee1c5cd093c8942b446279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 21/78] fix: do not accumulate names when IfoptQPProblem is set
 up again

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 5aab89b..2f8a933 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From e41a0542358541586beee8e063785f8b3a2d4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 22/78] fix: an empty dynamic constraint must not shift the
 merit coefficients of those after it

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..de66594 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -746,7 +746,11 @@ void TrajOptQPProblem::Implementation::convexify()
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
     if (info.rows == 0)
+    {
+      if (info.type == ComponentInfoType::kMeritConstraint)
+        ++merit_constraint_index;
       continue;
+    }
 
     // Linearize Constraints
     const trajopt_ifopt::Jacobian jac = cnt->getJacobian();
-- 
2.43.0


From 35580e2c5c9bc15b919aa6a6bae70d418224e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 23/78] fix: TrajOptQPProblem must be usable after it was set
 up again

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index de66594..24881c9 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -567,6 +567,8 @@ void TrajOptQPProblem::Implementation::update()
 
 void TrajOptQPProblem::Implementation::setup()
 {
+  initialized = false;
+
   objective_terms.clear();
   objective_terms.insert(objective_terms.end(), squared_costs.begin(), squared_costs.end());
   objective_terms.insert(objective_terms.end(), dyn_squared_costs.begin(), dyn_squared_costs.end());
-- 
2.43.0


From dcf334d12101b3388f7df2f44795c97fbf0b848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 24/78] fix: weight hinge and absolute costs of
 TrajOptQPProblem by their coefficients

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 24881c9..06fa1d7 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -191,7 +191,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = err.dot(c_info.coeffs);
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1019,7 +1019,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = err.dot(c->getCoefficients());
   }
 
   return g;
-- 
2.43.0


From 945406bb157d2f631c8d47f253e3a85977b42fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 25/78] fix: the convex hinge and absolute costs must not
 vanish in the slack variables

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 06fa1d7..683d44b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -130,7 +130,6 @@ struct ConvexProblem
 
 Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& var_vals) const
 {
-  /** @note The legacy trajop appears to use all variables include slack for convex cost evaluation */
   const auto total_cost = static_cast<Eigen::Index>(objective_term_infos.size() + penalty_constraint_infos.size());
 
   if (total_cost == 0)
@@ -172,7 +171,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    // The slack variables hold the violation, it is gone once they are included
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -185,8 +185,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     auto err = scratch_err.head(c_info.rows);
 
     // scratch_val = constant + jac * var_vals
-    val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val = constant;                    // copy into scratch (but no alloc)
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
-- 
2.43.0


From 71c13466041655eda4b373b483ff9dd8d9abcb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:30 +0000
Subject: [PATCH 26/78] fix: give every cost of IfoptQPProblem its own convex
 model

---
 .../include/trajopt_sqp/ifopt_qp_problem.h    |  5 +++
 .../trajopt_sqp/src/ifopt_qp_problem.cpp      | 45 ++++++++++++-------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
index f7a12e6..db3b3a4 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
@@ -114,6 +114,8 @@ protected:
   trajopt_ifopt::Jacobian hessian_;
   Eigen::VectorXd gradient_;
   Eigen::VectorXd cost_constant_;
+  std::vector<trajopt_ifopt::Jacobian> cost_hessians_;  // the part of each cost in hessian_
+  std::vector<Eigen::VectorXd> cost_gradients_;         // the part of each cost in gradient_
 
   /** @brief Raw constraint sets underlying each SquaredCost, saved for Hessian/gradient computation */
   std::vector<std::shared_ptr<trajopt_ifopt::ConstraintSet>> cost_constraints_;
@@ -191,6 +193,9 @@ protected:
   /** @brief This calculates the constant expression in the quadratic expression for the constraints */
   void updateConstraintsConstantExpression();
 
+  /** @brief Evaluate the linear and quadratic expression of each cost at the NLP variables */
+  Eigen::VectorXd evaluateCostModels(const Eigen::Ref<const Eigen::VectorXd>& x) const;
+
   /** @brief This calculates the constant expression in the quadratic expression for the costs */
   void updateCostsConstantExpression();
 };
diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 2f8a933..3102adb 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -181,6 +181,7 @@ void IfoptQPProblem::updateHessian()
   ////////////////////////////////////////////////////////
   hessian_.resize(num_qp_vars_, num_qp_vars_);
   hessian_.setZero();
+  cost_hessians_.assign(cost_constraints_.size(), trajopt_ifopt::Jacobian(num_nlp_vars_, num_nlp_vars_));
 
   if (cost_constraints_.empty())
     return;
@@ -189,8 +190,9 @@ void IfoptQPProblem::updateHessian()
   trajopt_ifopt::Jacobian H_nlp(num_nlp_vars_, num_nlp_vars_);
 
   bool first = true;
-  for (const auto& c : cost_constraints_)
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
   {
+    const auto& c = cost_constraints_[i];
     const trajopt_ifopt::Jacobian J = c->getJacobian();  // m_i × n
     const Eigen::VectorXd w = c->getCoefficients();      // m_i weights
 
@@ -208,6 +210,7 @@ void IfoptQPProblem::updateHessian()
 
     // Evaluate product into row-major temp (Eigen requires matching storage order for +=)
     trajopt_ifopt::Jacobian JtWJ = Jw.transpose() * Jw;
+    cost_hessians_[i] = JtWJ;
     if (first)
     {
       H_nlp = JtWJ;
@@ -261,9 +264,12 @@ void IfoptQPProblem::updateGradient()
   //   q = 2 * J^T W e  -  2 * (J^T W J) * x0
   ////////////////////////////////////////////////////////
   gradient_ = Eigen::VectorXd::Zero(num_qp_vars_);
+  cost_gradients_.assign(cost_constraints_.size(), Eigen::VectorXd::Zero(num_nlp_vars_));
 
-  for (const auto& c : cost_constraints_)
+  const Eigen::VectorXd x_initial = nlp_->getVariableValues().head(num_nlp_vars_);
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
   {
+    const auto& c = cost_constraints_[i];
     const trajopt_ifopt::Jacobian J = c->getJacobian();  // m × n
     const Eigen::VectorXd w = c->getCoefficients();      // m weights
 
@@ -276,15 +282,16 @@ void IfoptQPProblem::updateGradient()
 
     // g += 2 * J^T * diag(w) * e
     Eigen::VectorXd we = (w.array() * errors.array()).matrix();  // w .* e
-    gradient_.head(num_nlp_vars_) += 2.0 * (J.transpose() * we);
+    const Eigen::VectorXd g = 2.0 * (J.transpose() * we);
+    gradient_.head(num_nlp_vars_) += g;
+    cost_gradients_[i] = g - 2.0 * (cost_hessians_[i] * x_initial);
   }
 
   // Hessian correction: q = g - 2 * H * x0
   // (hessian_ stores J^T W J = half-Hessian, so multiply by 2)
   if (hessian_.nonZeros() > 0)
   {
-    const Eigen::VectorXd x0 = nlp_->getVariableValues().head(num_nlp_vars_);
-    gradient_.head(num_nlp_vars_) -= 2.0 * (hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x0);
+    gradient_.head(num_nlp_vars_) -= 2.0 * (hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial);
   }
 
   ////////////////////////////////////////////////////////
@@ -386,19 +393,28 @@ void IfoptQPProblem::updateCostsConstantExpression()
   // When convexifying the function it need to produce the same cost values at the values used to calculate
   // the Jacobian and Hessian, so f(x_initial) = a + b * x + c * x^2 = cost_initial_value.
   // Therefore a = cost_initial_value - b * x - c * x^2
-  //     where: b = gradient_
-  //            c = hessian_
+  //     where: b = cost_gradients_
+  //            c = cost_hessians_
   //            x = x_initial
   //            a = quadratic constant (cost_constant_)
   //
   // Note: This is not used by the QP solver directly but by the Trust Regions Solver
   //       to calculate the merit of the solve.
 
-  // The block excludes the slack variables
-  /** @todo I am not sure this is correct because the gradient_ is not each individual cost function gradient */
-  const double result_quad = x_initial.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial;
-  const double result_lin = x_initial.dot(gradient_.head(num_nlp_vars_));
-  cost_constant_ = cost_initial_value.array() - result_quad - result_lin;
+  cost_constant_ = cost_initial_value - evaluateCostModels(x_initial);
+}
+
+Eigen::VectorXd IfoptQPProblem::evaluateCostModels(const Eigen::Ref<const Eigen::VectorXd>& x) const
+{
+  // Cost terms the NLP had before are not modelled, they stay constant
+  Eigen::VectorXd costs = Eigen::VectorXd::Zero(num_nlp_costs_);
+  const Eigen::Index offset = num_nlp_costs_ - static_cast<Eigen::Index>(cost_gradients_.size());
+  for (std::size_t i = 0; i < cost_gradients_.size(); ++i)
+  {
+    const Eigen::VectorXd h = cost_hessians_[i] * x;
+    costs(offset + static_cast<Eigen::Index>(i)) = x.dot(h) + x.dot(cost_gradients_[i]);
+  }
+  return costs;
 }
 
 void IfoptQPProblem::updateConstraintsConstantExpression()
@@ -518,10 +534,7 @@ Eigen::VectorXd IfoptQPProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen
   if (num_nlp_costs_ == 0)
     return {};
 
-  auto var_block = var_vals.head(num_nlp_vars_);
-  const double result_quad = var_block.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * var_block;
-  const double result_lin = var_block.dot(gradient_.head(num_nlp_vars_));
-  return cost_constant_.array() + result_lin + result_quad;
+  return cost_constant_ + evaluateCostModels(var_vals.head(num_nlp_vars_));
 }
 
 double IfoptQPProblem::getTotalExactCost() const { return nlp_->evaluateCostFunction(); }
-- 
2.43.0


From 6139d8abde38793252e310d7fb784eec00698e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 27/78] fix: evaluate the convex costs when no squared cost has
 rows

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 683d44b..141dfdf 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -151,7 +151,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       scratch_val.resize(n_objective_terms);
 
     auto sq_costs = scratch_val.head(n_objective_terms);
-    squared_objective_nlp.values(sq_costs, var_block);
+    if (n_objective_terms > 0)  // otherwise it was not updated
+      squared_objective_nlp.values(sq_costs, var_block);
 
     assert(!(sq_costs.array() < -1e-8).any());
     for (const auto& c_info : objective_term_infos)
-- 
2.43.0


From 96d7cb84860d31808ef1f18c73d81c0c523655b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 28/78] fix: end the SQP run when a callback stops it or the QP
 solver failed too often

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..eacbd56 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -121,8 +121,16 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
 
       if (stepSQPSolver())
         break;
+
+      // The step was ended by a callback or because the QP solver failed too often
+      if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
+        break;
     }
 
+    // A callback asked to stop or the QP solver failed too often, this ends the optimization
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
-- 
2.43.0


From faa1a859de5135ae19594a63ab7494044de223c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 29/78] fix: print the step of a problem without constraints

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eacbd56..47fd15a 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -569,7 +569,10 @@ void TrustRegionSQPSolver::printStepInfo() const
 
   // Constraint
   const std::string constraints_satisfied =
-      (results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ? "True" : "False";
+      (results_.new_constraint_violations.size() == 0 ||
+       results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ?
+          "True" :
+          "False";
   std::printf("| %s |\n", std::string(88, '=').c_str());
   std::printf("| %10s | %10.3e | %10.3e | %10.3e | %10s | %10s | %10s | SUM CONSTRAINTS (WITHOUT MERIT), Satisfied "
               "(%s)\n",
-- 
2.43.0


From edacdd1b079c60f8343f49fe79aabf5493790cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 30/78] fix: store the rows of BasicArray::middleRows from its
 first row on

---
 trajopt_common/include/trajopt_common/basic_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_common/include/trajopt_common/basic_array.hpp b/trajopt_common/include/trajopt_common/basic_array.hpp
index d2995bd..98d3e40 100644
--- a/trajopt_common/include/trajopt_common/basic_array.hpp
+++ b/trajopt_common/include/trajopt_common/basic_array.hpp
@@ -71,7 +71,7 @@ struct BasicArray
     {
       for (int j = 0; j < m_nCol; ++j)
       {
-        out(i, j) = at(i, j);
+        out(i - start, j) = at(i, j);
       }
     }
     return out;
-- 
2.43.0


From 92ac4b8c4c74ba1852c42f449eb831cf3e152329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 31/78] fix: report a JSON value of the wrong type as what was
 expected instead of jsoncpp's error

---
 trajopt/src/json_marshal.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trajopt/src/json_marshal.cpp b/trajopt/src/json_marshal.cpp
index db10516..0ec6510 100644
--- a/trajopt/src/json_marshal.cpp
+++ b/trajopt/src/json_marshal.cpp
@@ -1,7 +1,7 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <json/json.h>
-#include <stdexcept>
+#include <exception>
 TRAJOPT_IGNORE_WARNINGS_POP
 
 #include <trajopt/json_marshal.hpp>
@@ -13,7 +13,7 @@ void fromJson(const Json::Value& v, bool& ref)
   {
     ref = v.asBool();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("bool") % (v));
   }
@@ -25,7 +25,7 @@ void fromJson(const Json::Value& v, int& ref)
   {
     ref = v.asInt();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("int") % (v));
   }
@@ -37,7 +37,7 @@ void fromJson(const Json::Value& v, double& ref)
   {
     ref = v.asDouble();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("double") % (v));
   }
@@ -49,7 +49,7 @@ void fromJson(const Json::Value& v, std::string& ref)
   {
     ref = v.asString();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("string") % (v));
   }
-- 
2.43.0


From 98123bb0046727e983b2ee59982e3e936ed00426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 32/78] fix: check voxel indices against the size of their own
 axis

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index 4ec3af0..ad882ad 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -252,15 +252,15 @@ public:
   unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k)
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   const unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k) const
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   size_t GetNPrimitivesOnSurf() const { return m_numVoxelsOnSurface; }
-- 
2.43.0


From 731359cd1ee7f956153b3f1c7d1e4d8bfb27bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 33/78] fix: size the voxel grid by the longest side also when
 two sides are equal

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index ad882ad..abab004 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -377,14 +377,14 @@ void Volume::Voxelize(const T* const points,
 
   double d[3] = { m_maxBB[0] - m_minBB[0], m_maxBB[1] - m_minBB[1], m_maxBB[2] - m_minBB[2] };
   double r;
-  if (d[0] > d[1] && d[0] > d[2])
+  if (d[0] >= d[1] && d[0] >= d[2])
   {
     r = d[0];
     m_dim[0] = dim;
     m_dim[1] = 2 + static_cast<size_t>(dim * d[1] / d[0]);
     m_dim[2] = 2 + static_cast<size_t>(dim * d[2] / d[0]);
   }
-  else if (d[1] > d[0] && d[1] > d[2])
+  else if (d[1] >= d[0] && d[1] >= d[2])
   {
     r = d[1];
     m_dim[1] = dim;
-- 
2.43.0


From 676fab8f0f13a3fc53e399cb0abc631439500061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 34/78] fix: delete the vertex added last when the next one
 hides it from the hull

---
 trajopt_ext/vhacd/src/vhacdICHull.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index 8ef3d0b..fa3a118 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -754,6 +754,8 @@ bool ICHull::CleanVertices(uint32_t& addedPoints)
       v = v->GetPrev();
     }
   } while (v->GetData().m_tag && v != vHead);
+  // the loop stops short of the vertex added last
+  vHead->GetData().m_onHull = false;
   return true;
 }
 void ICHull::Clear()
-- 
2.43.0


From 11dc52788ea61aee7a2609e353acbc068b21c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 35/78] fix: free the volume, parts and hulls of a
 decomposition when it is released or redone

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
index ea98573..e6b3e64 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
@@ -69,7 +69,7 @@ public:
     Init();
   }
   //! Destructor.
-  ~VHACD(void) {}
+  ~VHACD(void) { Clean(); }
   uint32_t GetNConvexHulls() const override { return (uint32_t)m_convexHulls.Size(); }
   void Cancel() override { SetCancel(true); }
   void GetConvexHull(const uint32_t index, ConvexHull& ch) const override
@@ -325,7 +325,7 @@ private:
                   const uint32_t nTriangles,
                   const Parameters& params)
   {
-    Init();
+    Clean();
     if (params.m_projectHullVertices)
     {
       mRaycastMesh = RaycastMesh::createRaycastMesh(nPoints, points, nTriangles, (const uint32_t*)triangles);
-- 
2.43.0


From 4f4bd2279978b2b83ce1875686fc9dcf64e7b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 36/78] fix: make the cancel flags of a decomposition atomic,
 another thread sets them

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h | 3 ++-
 trajopt_ext/vhacd/src/VHACD.cpp                  | 7 ++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
index e6b3e64..a03e508 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
@@ -40,6 +40,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include "vhacdMutex.h"
 #include "vhacdVolume.h"
 #include "vhacdRaycastMesh.h"
+#include <atomic>
 #include <vector>
 
 #define USE_THREAD 1
@@ -368,7 +369,7 @@ private:
   Volume* m_volume;
   PrimitiveSet* m_pset;
   Mutex m_cancelMutex;
-  bool m_cancel;
+  std::atomic<bool> m_cancel;
   int32_t m_ompNumProcessors;
 #ifdef CL_VERSION_1_1
   cl_device_id* m_oclDevice;
diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index 96e0213..502c06d 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -27,6 +27,7 @@
 #define _CRT_SECURE_NO_WARNINGS
 #endif
 #include <trajopt_common/macros.h>
+#include <atomic>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 
 #include <algorithm>
@@ -794,7 +795,7 @@ void VHACD::ComputeBestClippingPlane(const PrimitiveSet* inputPSet,
       (nPrimitives > OCL_MIN_NUM_PRIMITIVES && params.m_oclAcceleration && params.m_mode == 0) ? true : false;
   int32_t iBest = -1;
   int32_t nPlanes = static_cast<int32_t>(planes.Size());
-  bool cancel = false;
+  std::atomic<bool> cancel{ false };
   int32_t done = 0;
   double minTotal = MAX_DOUBLE;
   double minBalance = MAX_DOUBLE;
@@ -894,7 +895,6 @@ void VHACD::ComputeBestClippingPlane(const PrimitiveSet* inputPSet,
     int32_t threadID = 0;
 #if USE_THREAD == 1 && _OPENMP
     threadID = omp_get_thread_num();
-#pragma omp flush(cancel)
 #endif
     if (!cancel)
     {
@@ -902,9 +902,6 @@ void VHACD::ComputeBestClippingPlane(const PrimitiveSet* inputPSet,
       if (GetCancel())
       {
         cancel = true;
-#if USE_THREAD == 1 && _OPENMP
-#pragma omp flush(cancel)
-#endif
       }
       Plane plane = planes[x];
 
-- 
2.43.0


From 618dd11fd6507d9269a663fe4f3327866e57970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 37/78] fix: clip with as many threads as buffers were
 allocated for

---
 trajopt_ext/vhacd/src/VHACD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index 502c06d..de0ef2c 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -888,7 +888,7 @@ void VHACD::ComputeBestClippingPlane(const PrimitiveSet* inputPSet,
 #endif  // DEBUG_TEMP
 
 #if USE_THREAD == 1 && _OPENMP
-#pragma omp parallel for
+#pragma omp parallel for num_threads(m_ompNumProcessors)
 #endif
   for (int32_t x = 0; x < nPlanes; ++x)
   {
-- 
2.43.0


From 9e7debeec38adf1697f58c2efd8f6312a576437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 38/78] fix: stop the background decomposition before its
 buffers are released

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 6759e97..cef8d49 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -22,8 +22,8 @@ public:
   MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
   virtual ~MyHACD_API(void)
   {
+    Cancel();  // the background thread uses the buffers and writes the hulls
     releaseHACD();
-    Cancel();
     mVHACD->Release();
   }
 
-- 
2.43.0


From 3b1aa80fbe9a8bae50b543285d7f4027fb78ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 39/78] fix: set the callbacks of a background decomposition
 before its thread starts

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index cef8d49..9eaeeaf 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -43,6 +43,8 @@ public:
     mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
     memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
     memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
     mRunning = true;
     mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
       ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
@@ -50,6 +52,8 @@ public:
     });
 #else
     releaseHACD();
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
     ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
 #endif
     return true;
@@ -64,8 +68,6 @@ public:
     uint32_t ret = 0;
 
     mHullCount = 0;
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
 
     IVHACD::Parameters desc = _desc;
     // Set our intercepting callback interfaces if non-null
-- 
2.43.0


From 2d4b2ca9a7fb6acc2fd9ed2036f045755aef576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 40/78] fix: send messages of a background decomposition
 without holding their lock

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 9eaeeaf..2427bb3 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -249,17 +249,24 @@ public:
     if (mHaveUpdateMessage && mCallback)
     {
       mMessageMutex.lock();
-      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
+      const double overall_progress = mOverallProgress;
+      const double stage_progress = mStageProgress;
+      const double operation_progress = mOperationProgress;
+      const std::string stage = mStage;
+      const std::string operation = mOperation;
       mHaveUpdateMessage = false;
       mMessageMutex.unlock();
+      // The callback may cancel, which waits for the thread and logs, so the lock is not held here
+      mCallback->Update(overall_progress, stage_progress, operation_progress, stage.c_str(), operation.c_str());
     }
     // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
     if (mHaveLogMessage && mLogger)
     {
       mMessageMutex.lock();
-      mLogger->Log(mMessage.c_str());
+      const std::string message = mMessage;
       mHaveLogMessage = false;
       mMessageMutex.unlock();
+      mLogger->Log(message.c_str());
     }
   }
 
-- 
2.43.0


From 717c85f7c6c906161ba7182c8015904d6acd1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 41/78] fix: count the allocations of convex hulls atomically,
 threads allocate at the same time

---
 trajopt_ext/vhacd/src/btAlignedAllocator.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trajopt_ext/vhacd/src/btAlignedAllocator.cpp b/trajopt_ext/vhacd/src/btAlignedAllocator.cpp
index 9a2629a..673e654 100644
--- a/trajopt_ext/vhacd/src/btAlignedAllocator.cpp
+++ b/trajopt_ext/vhacd/src/btAlignedAllocator.cpp
@@ -17,6 +17,7 @@ software.
 */
 
 #include <trajopt_common/macros.h>
+#include <atomic>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 
 #include "vhacd/inc/btAlignedAllocator.h"
@@ -25,9 +26,9 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #pragma warning(disable : 4311 4302)
 #endif
 
-int32_t gNumAlignedAllocs = 0;
-int32_t gNumAlignedFree = 0;
-int32_t gTotalBytesAlignedAllocs = 0;  // detect memory leaks
+std::atomic<int32_t> gNumAlignedAllocs{ 0 };
+std::atomic<int32_t> gNumAlignedFree{ 0 };
+std::atomic<int32_t> gTotalBytesAlignedAllocs{ 0 };  // detect memory leaks
 
 static void* btAllocDefault(size_t size) { return malloc(size); }
 static void btFreeDefault(void* ptr) { free(ptr); }
@@ -117,7 +118,7 @@ void* btAlignedAllocInternal(size_t size, int32_t alignment, int32_t line, char*
     ret = (void*)(real);  //??
   }
 
-  printf("allocation#%d at address %x, from %s,line %d, size %d\n", gNumAlignedAllocs, real, filename, line, size);
+  printf("allocation#%d at address %x, from %s,line %d, size %d\n", gNumAlignedAllocs.load(), real, filename, line, size);
 
   int32_t* ptr = (int32_t*)ret;
   *ptr = 12;
@@ -135,7 +136,7 @@ void btAlignedFreeInternal(void* ptr, int32_t line, char* filename)
     int32_t size = *((int32_t*)(ptr)-2);
     gTotalBytesAlignedAllocs -= size;
 
-    printf("free #%d at address %x, from %s,line %d, size %d\n", gNumAlignedFree, real, filename, line, size);
+    printf("free #%d at address %x, from %s,line %d, size %d\n", gNumAlignedFree.load(), real, filename, line, size);
 
     sFreeFunc(real);
   }
-- 
2.43.0


From c230316fca31a8e9ec684bdf399e0782ed314357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 42/78] fix: judge what is flat in an incremental hull by the
 size of its points

---
 .../vhacd/include/vhacd/inc/vhacdICHull.h     |  4 +++
 trajopt_ext/vhacd/src/vhacdICHull.cpp         | 26 ++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
index 1c34422..40b0f8d 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
@@ -97,6 +97,8 @@ private:
   bool CleanUp(uint32_t& addedPoints);
   //!
   bool MakeCCW(CircularListElement<TMMTriangle>* f, CircularListElement<TMMEdge>* e, CircularListElement<TMMVertex>* v);
+  //!    Computes what counts as flat from the size of the points, the rounding errors grow with it
+  void ComputeTolerance();
   void Clear();
 
 private:
@@ -107,6 +109,8 @@ private:
   SArray<CircularListElement<TMMTriangle>*> m_trianglesToDelete;
   Vec3<double> m_normal;
   bool m_isFlat;
+  double m_areaEps{ 0 };
+  double m_volumeEps{ sc_eps };
   ICHull(const ICHull& rhs);
 };
 }  // namespace VHACD
diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index fa3a118..7e7f4f9 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -61,6 +61,20 @@ bool ICHull::AddPoint(const Vec3<double>& point, int32_t id)
   return false;
 }
 
+void ICHull::ComputeTolerance()
+{
+  CircularListElement<TMMVertex>* v = m_mesh.GetVertices().GetHead();
+  Vec3<double> bmin = v->GetData().m_pos;
+  Vec3<double> bmax = v->GetData().m_pos;
+  for (size_t i = 0; i < m_mesh.GetNVertices(); ++i)
+  {
+    v->GetData().m_pos.UpdateMinMax(bmin, bmax);
+    v = v->GetNext();
+  }
+  const double size = (bmax - bmin).GetNorm();
+  m_areaEps = 1.0e-10 * size * size;
+  m_volumeEps = 1.0e-12 * size * size * size;
+}
 ICHullError ICHull::Process()
 {
   uint32_t addedPoints = 0;
@@ -96,6 +110,7 @@ ICHullError ICHull::Process()
     m_mesh.m_triangles.Clear();
     m_isFlat = false;
   }
+  ComputeTolerance();
   if (m_mesh.GetNTriangles() == 0)  // we have to create the first polyhedron
   {
     ICHullError res = DoubleTriangle();
@@ -243,6 +258,7 @@ ICHullError ICHull::Process(const uint32_t nPointsCH, const double minVolume)
     m_isFlat = false;
   }
 
+  ComputeTolerance();
   if (m_mesh.GetNTriangles() == 0)  // we have to create the first polyhedron
   {
     ICHullError res = DoubleTriangle();
@@ -400,7 +416,9 @@ ICHullError ICHull::DoubleTriangle()
   m_isFlat = false;
   CircularList<TMMVertex>& vertices = m_mesh.GetVertices();
   CircularListElement<TMMVertex>* v0 = vertices.GetHead();
-  while (Colinear(v0->GetData().m_pos, v0->GetNext()->GetData().m_pos, v0->GetNext()->GetNext()->GetData().m_pos))
+  while (((v0->GetNext()->GetData().m_pos - v0->GetData().m_pos) ^
+          (v0->GetNext()->GetNext()->GetData().m_pos - v0->GetData().m_pos))
+             .GetNorm() <= m_areaEps)
   {
     if ((v0 = v0->GetNext()) == vertices.GetHead())
     {
@@ -421,12 +439,12 @@ ICHullError ICHull::DoubleTriangle()
   vertices.GetHead() = v3;
 
   double vol = ComputeVolume4(v0->GetData().m_pos, v1->GetData().m_pos, v2->GetData().m_pos, v3->GetData().m_pos);
-  while (fabs(vol) < sc_eps && !v3->GetNext()->GetData().m_tag)
+  while (fabs(vol) < m_volumeEps && !v3->GetNext()->GetData().m_tag)
   {
     v3 = v3->GetNext();
     vol = ComputeVolume4(v0->GetData().m_pos, v1->GetData().m_pos, v2->GetData().m_pos, v3->GetData().m_pos);
   }
-  if (fabs(vol) < sc_eps)
+  if (fabs(vol) < m_volumeEps)
   {
     // compute the barycenter
     Vec3<double> bary(0.0, 0.0, 0.0);
@@ -561,7 +579,7 @@ bool ICHull::ComputePointVolume(double& totalVolume, bool markVisibleFaces)
     ver2.Y() = f->GetData().m_vertices[2]->GetData().m_pos.Y();
     ver2.Z() = f->GetData().m_vertices[2]->GetData().m_pos.Z();
     vol = ComputeVolume4(ver0, ver1, ver2, pos0);
-    if (vol < -sc_eps)
+    if (vol < -m_volumeEps)
     {
       vol = fabs(vol);
       totalVolume += vol;
-- 
2.43.0


From 09ae18b14926411b4f23e64418a00824d4cc61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 43/78] fix: a successful OSQP solve ends the failed status

---
 trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 248674d..70d733f 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -169,6 +169,7 @@ bool OSQPEigenSolver::solve()
     {
       std::cout << "OSQP Solution: " << solver_->getSolution().transpose().format(format) << '\n';
     }
+    solver_status_ = QPSolverStatus::kInitialized;
     return true;
   }
 
-- 
2.43.0


From a24c6f4076df3bcb14a745bbd6d32312ff44a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 44/78] fix: one-sided bounds may be given to OSQP before the
 first solve

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 70d733f..79888ab 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -242,13 +242,21 @@ bool OSQPEigenSolver::updateGradient(const Eigen::Ref<const Eigen::VectorXd>& gr
 bool OSQPEigenSolver::updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& lowerBound)
 {
   bounds_lower_ = lowerBound.cwiseMax(Eigen::VectorXd::Ones(num_cnts_) * -OSQP_INFTY);
-  return solver_->updateLowerBound(bounds_lower_);
+
+  if (solver_->isInitialized())
+    return solver_->updateLowerBound(bounds_lower_);
+
+  return solver_->data()->setLowerBound(bounds_lower_);
 }
 
 bool OSQPEigenSolver::updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& upperBound)
 {
   bounds_upper_ = upperBound.cwiseMin(Eigen::VectorXd::Ones(num_cnts_) * OSQP_INFTY);
-  return solver_->updateUpperBound(bounds_upper_);
+
+  if (solver_->isInitialized())
+    return solver_->updateUpperBound(bounds_upper_);
+
+  return solver_->data()->setUpperBound(bounds_upper_);
 }
 
 bool OSQPEigenSolver::updateBounds(const Eigen::Ref<const Eigen::VectorXd>& lowerBound,
-- 
2.43.0


From 15e9bcd73e2f4b3c73428332ef0256aee49f2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 45/78] fix: data of another size must not invalidate what OSQP
 was given

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp       | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 79888ab..f7d5527 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -220,6 +220,10 @@ Eigen::VectorXd OSQPEigenSolver::getSolution() { return solver_->getSolution();
 
 bool OSQPEigenSolver::updateHessianMatrix(const trajopt_ifopt::Jacobian& hessian)
 {
+  // Keep what was given before if this does not fit
+  if (hessian.rows() != num_vars_ || hessian.cols() != num_vars_)
+    return false;
+
   // Also multiply by 2 because OSQP is multiplying by (1/2) for the objective fuction
   auto h2 = 2.0 * hessian; /** @todo This should be handled already by who is calling this function */
   if (solver_->isInitialized())
@@ -231,6 +235,10 @@ bool OSQPEigenSolver::updateHessianMatrix(const trajopt_ifopt::Jacobian& hessian
 
 bool OSQPEigenSolver::updateGradient(const Eigen::Ref<const Eigen::VectorXd>& gradient)
 {
+  // OSQP refers to the stored gradient, keep it if this does not fit
+  if (gradient.size() != num_vars_)
+    return false;
+
   gradient_ = (gradient.array().abs() < 1e-7).select(0.0, gradient.array());
 
   if (solver_->isInitialized())
@@ -241,6 +249,9 @@ bool OSQPEigenSolver::updateGradient(const Eigen::Ref<const Eigen::VectorXd>& gr
 
 bool OSQPEigenSolver::updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& lowerBound)
 {
+  if (lowerBound.size() != num_cnts_)
+    return false;
+
   bounds_lower_ = lowerBound.cwiseMax(Eigen::VectorXd::Ones(num_cnts_) * -OSQP_INFTY);
 
   if (solver_->isInitialized())
@@ -251,6 +262,9 @@ bool OSQPEigenSolver::updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>&
 
 bool OSQPEigenSolver::updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& upperBound)
 {
+  if (upperBound.size() != num_cnts_)
+    return false;
+
   bounds_upper_ = upperBound.cwiseMin(Eigen::VectorXd::Ones(num_cnts_) * OSQP_INFTY);
 
   if (solver_->isInitialized())
@@ -262,6 +276,9 @@ bool OSQPEigenSolver::updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>&
 bool OSQPEigenSolver::updateBounds(const Eigen::Ref<const Eigen::VectorXd>& lowerBound,
                                    const Eigen::Ref<const Eigen::VectorXd>& upperBound)
 {
+  if (lowerBound.size() != num_cnts_ || upperBound.size() != num_cnts_)
+    return false;
+
   bounds_lower_ = lowerBound.cwiseMax(Eigen::VectorXd::Ones(num_cnts_) * -OSQP_INFTY);
   bounds_upper_ = upperBound.cwiseMin(Eigen::VectorXd::Ones(num_cnts_) * OSQP_INFTY);
 
-- 
2.43.0


From 2b609c9bb799ae347271c9a1e35fceb85d0cb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 46/78] fix: warm start the slack variables with what their
 rows need

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp     | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index f7d5527..f3b96cb 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -320,14 +320,23 @@ bool OSQPEigenSolver::setWarmStart(const QPProblem& qp_problem)
   // If there are slack variables, compute them from constraint violations
   if (num_slacks > 0)
   {
-    // Evaluate constraint violations at current NLP variables
-    const Eigen::VectorXd violations = qp_problem.evaluateConvexConstraintViolations(nlp_vars);
-
-    // Get the constraint matrix (row-major)
+    // Get the constraint matrix (row-major) and the limits of its rows
     const trajopt_ifopt::Jacobian& constraint_matrix = qp_problem.getConstraintMatrix();
+    const Eigen::VectorXd& bounds_lower = qp_problem.getBoundsLower();
+    const Eigen::VectorXd& bounds_upper = qp_problem.getBoundsUpper();
+
+    // Evaluate every row at the current NLP variables, the slack variables are still zero
+    const Eigen::VectorXd row_values = constraint_matrix * x0_;
 
-    for (Eigen::Index k = 0; k < violations.size(); ++k)
+    for (Eigen::Index k = 0; k < row_values.size(); ++k)
     {
+      // What is missing for the row to be within its limits
+      double missing = 0.0;
+      if (row_values(k) < bounds_lower(k))
+        missing = bounds_lower(k) - row_values(k);
+      else if (row_values(k) > bounds_upper(k))
+        missing = bounds_upper(k) - row_values(k);
+
       for (trajopt_ifopt::Jacobian::InnerIterator it(constraint_matrix, k); it; ++it)
       {
         const Eigen::Index col_idx = it.col();
@@ -336,10 +345,10 @@ bool OSQPEigenSolver::setWarmStart(const QPProblem& qp_problem)
         // Slack variables start at index num_nlp_vars
         if (col_idx >= num_nlp_vars && std::abs(coeff) > 1e-14)
         {
-          // Slack is computed as: slack = violation / coefficient
-          double slack = violations(k) / coeff;
-          // Enforce non-negativity constraint on slack variables
-          x0_(col_idx) = std::max(0.0, slack);
+          // Slack is computed as: slack = missing / coefficient
+          const double slack = missing / coeff;
+          // Enforce non-negativity constraint on slack variables, the rows holding their limits need nothing
+          x0_(col_idx) = std::max(x0_(col_idx), slack);
         }
       }
     }
-- 
2.43.0


From 9d1ecd17ed8a3dfefa3565df72d52f207e47b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 47/78] fix: numerical collision constraints take a bound per
 row

setBounds() of the two numerical constraints accepted a single bound only, whatever the number of rows asked for.
---
 .../collision/continuous_collision_numerical_constraint.cpp     | 2 +-
 .../collision/discrete_collision_numerical_constraint.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 3bad743..e493724 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -229,7 +229,7 @@ Eigen::VectorXd ContinuousCollisionNumericalConstraint::getCoefficients() const
 
 void ContinuousCollisionNumericalConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 1);
+  assert(bounds.size() == rows_);
   bounds_ = bounds;
 }
 
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
index 367b736..78c89fb 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
@@ -135,7 +135,7 @@ DiscreteCollisionNumericalConstraint::calcValues(const Eigen::Ref<const Eigen::V
 
 void DiscreteCollisionNumericalConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 1);
+  assert(bounds.size() == rows_);
   bounds_ = bounds;
 }
 
-- 
2.43.0


From 8d92cfc68a44bc45f8029654acb3e3216268b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 48/78] fix: keep the worst link pairs whichever of their links
 moves

SingleTimestepCollisionEvaluator sorted the contacts by the error of the first link of the pair alone. A pair of which only
the second link belongs to the manipulator has none, so such pairs came last and were the first to be dropped.
---
 .../src/constraints/collision/discrete_collision_evaluators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 4d80d56..d848865 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -142,7 +142,7 @@ void SingleTimestepCollisionEvaluator::calcCollisions(trajopt_common::CollisionC
     std::sort(collision_data.gradient_results_sets.begin(),
               collision_data.gradient_results_sets.end(),
               [](const trajopt_common::GradientResultsSet& a, const trajopt_common::GradientResultsSet& b) {
-                return a.max_error[0].error > b.max_error[0].error;
+                return a.getMaxErrorWithBuffer() > b.getMaxErrorWithBuffer();
               });
   }
 }
-- 
2.43.0


From 6d076ea88ee483dbe6b0cc51f08f374f3d45cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 49/78] fix: contacts of different shapes must not be merged

cantorHash() gave a shape without subshapes the value of a subshape of another shape (3 and the first part of 2, say), so that
their contacts were taken for contacts of one shape.
---
 trajopt_common/src/collision_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_common/src/collision_utils.cpp b/trajopt_common/src/collision_utils.cpp
index 65772ec..611b654 100644
--- a/trajopt_common/src/collision_utils.cpp
+++ b/trajopt_common/src/collision_utils.cpp
@@ -64,10 +64,10 @@ std::size_t getHash(const void* parent,
 std::size_t cantorHash(int shape_id, int subshape_id)
 {
   assert(shape_id >= 0);
-  if (subshape_id < 0)
-    return static_cast<std::size_t>(shape_id);
+  // A shape without subshapes takes the first place, so that no two pairs of ids share a value
+  const int part_id = (subshape_id < 0) ? 0 : subshape_id + 1;
 
-  return static_cast<std::size_t>(1 / 2.0 * (shape_id + subshape_id) * (shape_id + subshape_id + 1) + subshape_id);
+  return static_cast<std::size_t>(1 / 2.0 * (shape_id + part_id) * (shape_id + part_id + 1) + part_id);
 }
 
 void removeInvalidContactResults(tesseract::collision::ContactResultVector& contact_results,
-- 
2.43.0


From abf105a5b97d7b129891fb3d9566dbadb344cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 50/78] fix: differences of the continuous collision constraint
 for its second state

ContinuousCollisionNumericalConstraint::getJacobian() put the changed second state in the place of the first, so that the
differences for the second state were those between two unrelated motions, over 1e-8.
---
 .../continuous_collision_numerical_constraint.cpp      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index e493724..86725d7 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -171,7 +171,7 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
   const double margin_buffer = collision_evaluator_->getCollisionMarginBuffer();
 
   // Calculate collisions
-  Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
+  const Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
   const Eigen::VectorXd joint_vals1 = position_vars_[1]->value();
 
   trajopt_common::CollisionCacheData collision_data_delta;
@@ -183,8 +183,12 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
     for (int j = 0; j < n_dof_; j++)
     {
       jv(j) += delta;
-      collision_evaluator_->calcCollisionData(
-          collision_data_delta, jv, joint_vals1, vars0_fixed_, vars1_fixed_, bounds_.size());
+      collision_evaluator_->calcCollisionData(collision_data_delta,
+                                              (p == 0) ? jv : joint_vals0,
+                                              (p == 1) ? jv : joint_vals1,
+                                              vars0_fixed_,
+                                              vars1_fixed_,
+                                              bounds_.size());
 
       for (int i = 0; i < static_cast<int>(cnt); ++i)
       {
-- 
2.43.0


From f3cd2ae55ece780988b10e5b01e9bd884f9b269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 51/78] fix: contacts at the end of the last cast are contacts
 at the end

LVSContinuousCollisionEvaluator gave the index of the last state for that of the last cast, which is one less. Contacts at the
end of the motion were taken for contacts on the way and were kept although the end is fixed.
---
 .../constraints/collision/continuous_collision_evaluators.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
index 67d67eb..ad680bf 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
@@ -230,8 +230,9 @@ void LVSContinuousCollisionEvaluator::calcCollisionsHelper(tesseract::collision:
       contact_manager_->contactTest(contacts, collision_check_config_.contact_request);
       if (!contacts.empty())
       {
+        // There is one cast less than there are states
         dist_results.addInterpolatedCollisionResults(
-            contacts, i, last_state_idx, manip_active_link_names_, dt, false, filter);
+            contacts, i, last_state_idx - 1, manip_active_link_names_, dt, false, filter);
       }
       contacts.clear();
     }
-- 
2.43.0


From fe2a6925bb353628c59f4717fc3ab8ded808fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 52/78] fix: a contact at the edge of the margin buffer is no
 reason to abort

The weighted averages asserted that the largest error with the buffer is positive. Contacts whose distance is exactly the
margin and its buffer are kept by the evaluators and have an error of zero.
---
 .../constraints/collision/weighted_average_methods.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp b/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
index dd10a1a..5e5e71a 100644
--- a/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
+++ b/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
@@ -36,7 +36,10 @@ Eigen::VectorXd getWeightedAvgGradientT0(const trajopt_common::GradientResultsSe
   if (grad_results_set.results.empty())
     return grad_vec;
 
-  assert(max_error_with_buffer > 0);
+  // All contacts are exactly at the edge of the margin and its buffer, where they start to count
+  if (!(max_error_with_buffer > 0))
+    return grad_vec;
+
   double total_weight = 0;
   long cnt{ 0 };
   for (const auto& grad : grad_results_set.results)
@@ -75,7 +78,10 @@ Eigen::VectorXd getWeightedAvgGradientT1(const trajopt_common::GradientResultsSe
   if (grad_results_set.results.empty())
     return grad_vec;
 
-  assert(max_error_with_buffer > 0);
+  // All contacts are exactly at the edge of the margin and its buffer, where they start to count
+  if (!(max_error_with_buffer > 0))
+    return grad_vec;
+
   double total_weight = 0;
   long cnt{ 0 };
   for (const auto& grad : grad_results_set.results)
-- 
2.43.0


From ca509bb7ff2e1d0964d6a9771ee03a9de514c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 53/78] fix: refuse collision constraints which lack one of
 their variables

The constructors looked for both variables missing and dereferenced the one that is.
---
 .../constraints/collision/continuous_collision_constraint.cpp | 4 ++--
 .../collision/continuous_collision_numerical_constraint.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
index 8303d7f..abcfb44 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
@@ -54,7 +54,7 @@ ContinuousCollisionConstraint::ContinuousCollisionConstraint(
   , collision_evaluator_(std::move(collision_evaluator))
   , fixed_sparsity_(fixed_sparsity)
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
@@ -257,7 +257,7 @@ ContinuousCollisionConstraintD::ContinuousCollisionConstraintD(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 86725d7..cab7a41 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -52,7 +52,7 @@ ContinuousCollisionNumericalConstraint::ContinuousCollisionNumericalConstraint(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("position_vars contains a nullptr!");
 
   // Set n_dof_ for convenience
-- 
2.43.0


From 087ad8a79e1d885e248d17b2f07763e98632e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 54/78] fix: print the quadratic terms of an expression doubled
 inside [ ] / 2

operator<< of a QuadExpr, and with it the model the OSQP back end writes to a
file, put the coefficients as they are inside '[ ... ] /2', which in the LP
format stands for half of them.
---
 trajopt_sco/src/solver_interface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index 36f1c16..cf7ea51 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -192,9 +192,10 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
     if (e.coeffs[i] != 0)
     {
       o << op;
-      if (e.coeffs[i] != 1)
+      // The terms in brackets are divided by two
+      if (e.coeffs[i] != 0.5)
       {
-        o << e.coeffs[i] << " ";
+        o << 2 * e.coeffs[i] << " ";
       }
       if (e.vars1[i].var_rep->name == e.vars2[i].var_rep->name)
       {
-- 
2.43.0


From 805a2b88ad336e699bfd87d5160f76365189ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 55/78] fix: the Jacobian of a Cartesian line constraint has a
 row per index

---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 609ecc0..c5be392 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -176,14 +176,14 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       dof_vals_pert(i) = joint_vals(i);
     }
 
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
       {
         // Each jac_block will be for a single variable but for all timesteps. Therefore we must index down to the
         // correct timestep for this variable
-        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0.coeffRef(info_.indices[i], j);
+        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0(i, j);
       }
     }
   }
@@ -235,7 +235,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     //    Jacobian jac_block = jac0.sparseView();
 
     // This does work but could be faster
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
-- 
2.43.0


From efa0e49ec826dcf965119a14d775e4628e59db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 56/78] fix: a Cartesian line constraint takes a bound per row

---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index c5be392..b118732 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -147,7 +147,7 @@ std::vector<Bounds> CartLineConstraint::getBounds() const { return bounds_; }
 
 void CartLineConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 6);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
-- 
2.43.0


From d9939ef507160564315d6e578d3612a00e7ead33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 57/78] fix: the nearest point and orientation on a Cartesian
 line

---
 .../constraints/cartesian_line_constraint.cpp | 32 +++++++------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index b118732..31222d3 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -36,6 +36,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <tesseract/kinematics/joint_group.h>
 #include <tesseract/common/utils.h>
 #include <console_bridge/console.h>
+#include <algorithm>
 #include <cassert>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -272,31 +273,22 @@ Eigen::Isometry3d CartLineConstraint::getLinePoint(const Eigen::Isometry3d& sour
                                                    const Eigen::Isometry3d& target_tf1,
                                                    const Eigen::Isometry3d& target_tf2) const
 {
-  // distance 1; distance from new pose to first point on line
-  const Eigen::Vector3d d1 = (source_tf.translation() - target_tf1.translation()).array().abs();
-
   // Get the line
   const Eigen::Vector3d line = target_tf2.translation() - target_tf1.translation();
+  const double length_squared = line.squaredNorm();
 
-  // Point D, the nearest point on line AB to point C, can be found with:
-  // (AC - (AC * AB)) * AB
-  Eigen::Isometry3d line_point;
-  const Eigen::Vector3d line_norm = line.normalized();
-  const double mag = d1.dot(line_norm);
+  // Fraction of the line AB at which point D, the nearest point to point C, is found: (AC * AB) / (AB * AB)
+  double mag = 0;
+  if (length_squared > 0)
+    mag = (source_tf.translation() - target_tf1.translation()).dot(line) / length_squared;
 
   // If point C is not between the line endpoints, set nearest point to endpoint
-  if (mag > 1.0)
-  {
-    line_point.translation() = info_.target_frame_offset2.translation();
-  }
-  else if (mag < 0)
-  {
-    line_point.translation() = info_.target_frame_offset1.translation();
-  }
-  else
-  {
-    line_point.translation() = info_.target_frame_offset1.translation() + mag * line_norm;
-  }
+  mag = std::min(std::max(mag, 0.0), 1.0);
+
+  Eigen::Isometry3d line_point;
+  line_point.translation() =
+      info_.target_frame_offset1.translation() +
+      mag * (info_.target_frame_offset2.translation() - info_.target_frame_offset1.translation());
 
   // The orientation of the line_point is found using quaternion SLERP
   const Eigen::Quaterniond quat_a(target_tf1.rotation());
-- 
2.43.0


From 507bd95f8520b2e69eeffa76200fc0b123adde5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 58/78] fix: do the work of the singularity terms of a subgroup
 outside of assertions

---
 trajopt/src/kinematic_terms.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/kinematic_terms.cpp b/trajopt/src/kinematic_terms.cpp
index dd20e24..4fa91d5 100644
--- a/trajopt/src/kinematic_terms.cpp
+++ b/trajopt/src/kinematic_terms.cpp
@@ -643,10 +643,11 @@ MatrixXd AvoidSingularityJacCalculator::operator()(const VectorXd& var_vals) con
 
 VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Get the subset of the input variable values
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  const bool found = getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals);
+  assert(found);
+  UNUSED(found);
 
   // Return the cost using the base class
   return AvoidSingularityErrCalculator::operator()(subset_var_vals);
@@ -654,10 +655,11 @@ VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_val
 
 MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Calculate the gradient using the subset kinematics
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  const bool found = getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals);
+  assert(found);
+  UNUSED(found);
   MatrixXd subset_jac = AvoidSingularityJacCalculator::operator()(subset_var_vals);
 
   // Create an all-zero gradient that is the size of the superset joints
@@ -666,9 +668,10 @@ MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_val
 
   // Update the all-zero superset gradient with the values from the subset gradient
   VectorXd tmp(superset_kin_->numJoints());
-  assert(updateFromSubset(
-             superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp) ==
-         true);
+  const bool updated = updateFromSubset(
+      superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp);
+  assert(updated);
+  UNUSED(updated);
 
   // Create the output gradient
   MatrixXd jac(1, superset_kin_->numJoints());
-- 
2.43.0


From 671903bccbdece381b139e7b713bcdc86f8fdd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 59/78] fix: contacts at the end of the last cast of a
 collision term are contacts at the end

CastCollisionEvaluator gave the index of the last state for that of the last cast, which is one less. Contacts at the end of the
motion were taken for contacts on the way and were kept although the end is fixed.
---
 trajopt/src/collision_terms.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 23cd58b..acf649d 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -1147,8 +1147,9 @@ void CastCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Vector
 
       if (!contacts.empty())
       {
+        // There is one cast less than there are states
         dist_results.addInterpolatedCollisionResults(
-            contacts, i, last_state_idx, manip_active_link_names_, dt, false, filter);
+            contacts, i, last_state_idx - 1, manip_active_link_names_, dt, false, filter);
       }
       contacts.clear();
     }
-- 
2.43.0


From c0a6ca82451e3315ee2e6452821496ddd24db366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 60/78] fix: two moving links may touch at different times of a
 motion

The check of the removed contacts in debug builds expected contacts to be removed when one of the links touches at the fixed state,
while trajopt_common::removeInvalidContactResults keeps them unless all do, and aborted.
---
 trajopt/src/collision_terms.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index acf649d..dc5ca09 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -568,20 +568,22 @@ void CollisionEvaluator::removeInvalidContactResults(tesseract::collision::Conta
           }
           case CollisionExpressionEvaluatorType::START_FIXED_END_FREE:
           {
-            if (r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_Time0)
-              return true;
-
-            if (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time0)
+            // A contact is at the fixed state if none of its links touches at another time
+            if ((r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_None ||
+                 r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_Time0) &&
+                (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_None ||
+                 r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time0))
               return true;
 
             break;
           }
           case CollisionExpressionEvaluatorType::START_FREE_END_FIXED:
           {
-            if (r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_Time1)
-              return true;
-
-            if (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time1)
+            // A contact is at the fixed state if none of its links touches at another time
+            if ((r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_None ||
+                 r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_Time1) &&
+                (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_None ||
+                 r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time1))
               return true;
 
             break;
-- 
2.43.0


From ecb79556d6a3c2db9508fd2732ab1e2b060a790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 61/78] fix: plot the way out of a collision from the touching
 point of the link

SingleTimestepCollisionEvaluator::Plot used the touching point in the world as if it was given in the frame of the link.
---
 trajopt/src/collision_terms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index dc5ca09..6f8e5ba 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -720,13 +720,13 @@ void SingleTimestepCollisionEvaluator::Plot(const std::shared_ptr<tesseract::vis
 
     if (manip_->isActiveLinkName(res.link_names[0]))
     {
-      Eigen::MatrixXd jac = manip_->calcJacobian(dofvals, res.link_names[0], res.nearest_points[0]);
+      Eigen::MatrixXd jac = manip_->calcJacobian(dofvals, res.link_names[0], res.nearest_points_local[0]);
 
       const Eigen::VectorXd dist_grad = -res.normal.transpose() * jac.topRows(3);
 
       const Eigen::Isometry3d pose2 = manip_->calcFwdKin(dofvals + dist_grad)[res.link_names[0]];
 
-      tesseract::visualization::ArrowMarker am(res.nearest_points[0], pose2 * res.nearest_points[0]);
+      tesseract::visualization::ArrowMarker am(res.nearest_points[0], pose2 * res.nearest_points_local[0]);
       am.material = std::make_shared<tesseract::scene_graph::Material>("collision_error_material");
       am.material->color << 1, 1, 1, 1;
       plotter->plotMarker(am);
-- 
2.43.0


From be4ed70f1cb280a1d71f1f3ce72e38709ce2f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 62/78] fix: the cached contact results stay as long as
 somebody holds them

GetContactResultVectorCached returned a vector of references into a map which only the cache held, and which was destroyed as soon
as results for two other points had been asked for.
---
 trajopt/src/collision_terms.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 6f8e5ba..e5be482 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -450,17 +450,14 @@ CollisionEvaluator::GetContactResultCached(const DblVec& x)
 
   LOG_DEBUG("not using cached collision check\n")
 
-  // A per-call local moved into make_shared avoids the deep copy that the
-  // previous thread_local approach required on every cache miss.
-  tesseract::collision::ContactResultMap dist_map;
+  // The vector refers to the results in the map, so both live as long as either of them is held
+  auto results = std::make_shared<std::pair<tesseract::collision::ContactResultMap, ContactResultVectorWrapper>>();
 
-  CalcCollisions(x, dist_map);
+  CalcCollisions(x, results->first);
+  results->first.flattenWrapperResults(results->second);
 
-  auto dist_map_ptr = std::make_shared<tesseract::collision::ContactResultMap>(std::move(dist_map));
-  auto dist_vec_ptr = std::make_shared<ContactResultVectorWrapper>();
-  dist_map_ptr->flattenWrapperResults(*dist_vec_ptr);
-
-  auto pair = std::make_pair(dist_map_ptr, dist_vec_ptr);
+  auto pair = std::make_pair(ContactResultMapConstPtr(results, &results->first),
+                             ContactResultVectorConstPtr(results, &results->second));
   m_cache.put(key, pair);
   return pair;
 }
-- 
2.43.0


From c7fd3eae91d04101ef670ea19aaec961db34a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 63/78] fix: a cart_vel term may reach to the last step of the
 trajectory

fromJson accepts last_step = n_steps - 1 but hatch then asked for the row after
the last one and threw std::out_of_range.
---
 trajopt/src/problem_description.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 6e77143..d98ab79 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1022,7 +1022,8 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_COST) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    // The velocity of a step is the way to the next one, which the last step of the trajectory does not have
+    for (int iStep = first_step; iStep <= std::min(last_step, prob.GetNumSteps() - 2); ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
@@ -1037,7 +1038,8 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_CNT) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    // The velocity of a step is the way to the next one, which the last step of the trajectory does not have
+    for (int iStep = first_step; iStep <= std::min(last_step, prob.GetNumSteps() - 2); ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
-- 
2.43.0


From f25bd1b2aceed2a39f0d64ea1aa7cc299dc8079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 64/78] fix: a cart_vel constraint has the name it was given

---
 trajopt/src/problem_description.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index d98ab79..64de9e5 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1049,7 +1049,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
           trajopt_common::concat(prob.GetVarRow(iStep, 0, n_dof), prob.GetVarRow(iStep + 1, 0, n_dof)),
           Eigen::VectorXd::Ones(0),
           sco::INEQ,
-          "CartVel"));
+          name));
     }
   }
   else
-- 
2.43.0


From f6cf15f2c21ba5976f5b0d6a87d9d1060a87ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 65/78] fix: accept the safety_margin_buffer of a collision
 term

The parameter is read, but was refused as an invalid field.
---
 trajopt/src/problem_description.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 64de9e5..20ef4bf 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1707,6 +1707,7 @@ void CollisionTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value
                                "fixed_steps",
                                "contact_test_type",
                                "longest_valid_segment_length",
+                               "safety_margin_buffer",
                                "coeffs",
                                "dist_pen",
                                "pairs" };
-- 
2.43.0


From d4fd04123b9ea1f8922aa3f1fd7c5e22aa857307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 66/78] fix: a joint_jerk term at a single step needs three
 further steps

It took four, so that it also covered the jerk of the next step, and reached
beyond the trajectory (std::out_of_range) when it was at the last step a jerk
can be computed for.
---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 20ef4bf..5e5f7eb 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1533,9 +1533,9 @@ void JointJerkTermInfo::hatch(TrajOptProb& prob)
     first_step = prob.GetNumSteps() - 4;
   if ((prob.GetNumSteps() - 1) <= last_step)
     last_step = prob.GetNumSteps() - 1;
-  // If only one time step is desired, calculate velocity with next step (5 steps are needed for 1 jerk calculation)
+  // If only one time step is desired, calculate jerk with the next steps (4 steps are needed for 1 jerk calculation)
   if (last_step == first_step)
-    last_step += 4;
+    last_step += 3;
   if (last_step < first_step)
   {
     const int tmp = first_step;
-- 
2.43.0


From 0d5e489df84c0b85829bd2d29c1a67e1b1dca7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 67/78] fix: refuse fixed timesteps and dofs outside the
 trajectory

An index of n_steps or n_dof, or a negative one, passed the check and read
outside the initial trajectory; a fixed dof of n_dof fixed the time steps when
the problem has time.
---
 trajopt/src/problem_description.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 5e5f7eb..1c2552a 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -486,7 +486,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& t_idx : bi.fixed_timesteps)
     {
-      if (init_traj.rows() < t_idx)
+      if (t_idx < 0 || t_idx >= init_traj.rows())
       {
         PRINT_AND_THROW("Fixed timestep index is outside the bounds of the initial trajectory.");
       }
@@ -510,9 +510,9 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& dof_ind : bi.fixed_dofs)
     {
-      if (static_cast<int>(n_dof) < dof_ind)
+      if (dof_ind < 0 || dof_ind >= static_cast<int>(n_dof))
       {
-        PRINT_AND_THROW("DOF(aka Joint) indice is greater than the number of DOF available.");
+        PRINT_AND_THROW("DOF(aka Joint) indice is outside the number of DOF available.");
       }
       /** @todo Should this be added to trajopt_ifopt OSQP_COMPARE_DEBUG_MODE */
       for (int i = 0; i < prob->GetNumSteps(); ++i)
-- 
2.43.0


From b158a9a8ff4cfe1656cf8fe019df22aa28064eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 68/78] fix: refuse a joint_vel term where there are no two
 steps

A problem of a single step, or a negative first step, only hit an assertion.
---
 trajopt/src/problem_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 1c2552a..9f61cba 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1230,8 +1230,9 @@ void JointVelTermInfo::hatch(TrajOptProb& prob)
   checkParameterSize(targets, n_dof, "JointVelTermInfo targets", true);
   checkParameterSize(upper_tols, n_dof, "JointVelTermInfo upper_tols", true);
   checkParameterSize(lower_tols, n_dof, "JointVelTermInfo lower_tols", true);
+  if (first_step < 0)
+    PRINT_AND_THROW(boost::format("JointVelTermInfo %s needs two time steps of the trajectory") % name);
   assert(last_step > first_step);
-  assert(first_step >= 0);
 
   // Check if tolerances are all zeros
   const bool is_upper_zeros =
-- 
2.43.0


From ea36058f1b3a79a38488a347f11d294fd9f0f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 69/78] fix: refuse two adjacent fixed steps in a collision
 term

The check could not be reached; the second of the two steps was taken as free.
---
 trajopt/src/problem_description.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 9f61cba..7a35116 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1737,11 +1737,11 @@ void CollisionTermInfo::hatch(TrajOptProb& prob)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FREE;
         }
-        else if (current_fixed)
+        else if (current_fixed && !next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FIXED_END_FREE;
         }
-        else if (next_fixed)
+        else if (!current_fixed && next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FIXED;
         }
@@ -1797,11 +1797,11 @@ void CollisionTermInfo::hatch(TrajOptProb& prob)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FREE;
         }
-        else if (current_fixed)
+        else if (current_fixed && !next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FIXED_END_FREE;
         }
-        else if (next_fixed)
+        else if (!current_fixed && next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FIXED;
         }
-- 
2.43.0


From 33a784d497096731e27386649861cb86856c5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 70/78] fix: refuse a total_time term when the problem has no
 time

It took the values of the last joint for the time steps.
---
 trajopt/src/problem_description.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 7a35116..daeadf5 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1854,6 +1854,9 @@ void TotalTimeTermInfo::fromJson(ProblemConstructionInfo& /*pci*/, const Json::V
 
 void TotalTimeTermInfo::hatch(TrajOptProb& prob)
 {
+  if (!prob.GetHasTime())
+    PRINT_AND_THROW(boost::format("%s is a total_time term, but the problem does not have time") % name);
+
   Eigen::VectorXd coeff_vec(1);
   coeff_vec[0] = coeff;
 
-- 
2.43.0


From b3bed1c041cf802d61633d9caf757bdce825710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 71/78] fix: keep the joint names a plot callback was given

PlotProbCallback kept a reference to the names, which getJointNames() returns
by value, so that the callback read names that no longer existed.
---
 trajopt/src/plot_callback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 8825b16..967e583 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -110,7 +110,7 @@ sco::Optimizer::Callback PlotProbCallback(const std::shared_ptr<tesseract::visua
                                           const tesseract::scene_graph::StateSolver& state_solver,
                                           const std::vector<std::string>& joint_names)
 {
-  return [plotter, &state_solver, &joint_names](sco::OptProb* opt_problem, sco::OptResults& opt_results) {
+  return [plotter, &state_solver, joint_names](sco::OptProb* opt_problem, sco::OptResults& opt_results) {
     PlotProb(plotter, state_solver, joint_names, opt_problem, opt_results);
   };
 }
-- 
2.43.0


From e7c86343b471a80265c0390e7c7beaad399d3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 72/78] fix: plot only the joints of a trajectory with time

With time variables every state plotted had one value more than it had joint
names.
---
 trajopt/src/plot_callback.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 967e583..1b9a18c 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -43,10 +43,12 @@ void PlotCosts(const std::shared_ptr<tesseract::visualization::Visualization>& p
     }
   }
 
+  // The variables of a time step may include the time, which is not a joint
   auto traj = getTraj(results.x, vars);
+  const auto n_joints = static_cast<Eigen::Index>(joint_names.size());
   tesseract::common::JointTrajectory joint_trajectory;
   for (long i = 0; i < traj.rows(); ++i)
-    joint_trajectory.states.emplace_back(joint_names, traj.row(i));
+    joint_trajectory.states.emplace_back(joint_names, traj.row(i).head(n_joints));
 
   plotter->plotTrajectory(joint_trajectory, state_solver);
   plotter->waitForInput();
-- 
2.43.0


From 5a537c1231b0467f7fd0502bf179b0e7d6860dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 73/78] fix: write the poses of a trajectory with time

The time of a step was passed to the forward kinematics as if it were a joint.
---
 trajopt/src/file_write_callback.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/file_write_callback.cpp b/trajopt/src/file_write_callback.cpp
index 289c146..e39b45e 100644
--- a/trajopt/src/file_write_callback.cpp
+++ b/trajopt/src/file_write_callback.cpp
@@ -41,7 +41,7 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
   for (auto i = 0; i < traj.rows(); i++)
   {
     // Calc/Write joint values
-    Eigen::VectorXd joint_angles(traj.cols());
+    Eigen::VectorXd joint_angles(manip->numJoints());
     for (auto j = 0; j < traj.cols(); j++)
     {
       if (j != 0)
@@ -50,7 +50,9 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
       }
       *file << traj(i, j);
 
-      joint_angles(j) = traj(i, j);
+      // The variables of a time step may include the time, which is not a joint
+      if (j < joint_angles.size())
+        joint_angles(j) = traj(i, j);
     }
 
     // Calc cartesian pose
@@ -111,6 +113,10 @@ std::function<void(sco::OptProb*, sco::OptResults&)> WriteCallback(std::shared_p
     }
     *file << joint_names[i];
   }
+  if (prob->GetHasTime())
+  {
+    *file << ",dt";
+  }
 
   // Write cartesian pose labels
   const std::vector<std::string> pose_str = std::vector<std::string>{ "x", "y", "z", "q_w", "q_x", "q_y", "q_z" };
-- 
2.43.0


From 639a7b5a8306dcc6a9402c8eaf25927baca1b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 74/78] fix: name the joints that are written to the file

The header listed all active joints of the environment, the rows hold the
manipulator's joints.
---
 trajopt/src/file_write_callback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/file_write_callback.cpp b/trajopt/src/file_write_callback.cpp
index e39b45e..b796b15 100644
--- a/trajopt/src/file_write_callback.cpp
+++ b/trajopt/src/file_write_callback.cpp
@@ -104,7 +104,7 @@ std::function<void(sco::OptProb*, sco::OptResults&)> WriteCallback(std::shared_p
   }
 
   // Write joint names
-  std::vector<std::string> joint_names = prob->GetEnv()->getActiveJointNames();
+  std::vector<std::string> joint_names = prob->GetKin()->getJointNames();
   for (std::size_t i = 0; i < joint_names.size(); i++)
   {
     if (i != 0)
-- 
2.43.0


From f33f6b6e8603e74d77af4913a0c23b459d5d9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 75/78] fix: plot the contacts of collision constraints

CollisionConstraint declared Plot but neither defined it nor was a Plotter, so
plotting showed collision costs only.
---
 trajopt/include/trajopt/collision_terms.hpp | 4 ++--
 trajopt/src/collision_terms.cpp             | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/trajopt/include/trajopt/collision_terms.hpp b/trajopt/include/trajopt/collision_terms.hpp
index 6253827..7bc45ef 100644
--- a/trajopt/include/trajopt/collision_terms.hpp
+++ b/trajopt/include/trajopt/collision_terms.hpp
@@ -457,7 +457,7 @@ private:
   CollisionEvaluator::Ptr m_calc;
 };
 
-class CollisionConstraint : public sco::IneqConstraint
+class CollisionConstraint : public sco::IneqConstraint, public Plotter
 {
 public:
   /* constructor for single timestep */
@@ -476,7 +476,7 @@ public:
                       bool discrete);
   sco::ConvexConstraints::Ptr convex(const DblVec& x, sco::Model* model) override;
   DblVec value(const DblVec&) override;
-  void Plot(const DblVec& x);
+  void Plot(const std::shared_ptr<tesseract::visualization::Visualization>& plotter, const DblVec& x) override;
   sco::VarVector getVars() override { return m_calc->GetVars(); }
 
 private:
diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index e5be482..4bfdd80 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -1410,4 +1410,10 @@ DblVec CollisionConstraint::value(const sco::DblVec& x)
   }
   return out;
 }
+
+void CollisionConstraint::Plot(const std::shared_ptr<tesseract::visualization::Visualization>& plotter,
+                               const sco::DblVec& x)
+{
+  m_calc->Plot(plotter, x);
+}
 }  // namespace trajopt
-- 
2.43.0


From 8dd3ae5f26b57c0529d1115f1694b4e696f0b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 76/78] fix: plot the target of a Cartesian constraint in the
 world frame

The callback drew the offset of the target in its frame as if that frame were
the world, so that the target and the arrow were elsewhere whenever it is not.
---
 .../constraints/cartesian_position_constraint.h           | 6 ++++++
 .../src/constraints/cartesian_position_constraint.cpp     | 8 ++++++++
 .../trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp | 2 +-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h b/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
index 624dc74..22e19e0 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
@@ -123,6 +123,12 @@ public:
    */
   Eigen::Isometry3d getCurrentPose() const;
 
+  /**
+   * @brief Returns the target pose in world frame given the input kinematic info and the current variable values
+   * @return The target pose given the input kinematic info and the current variable values
+   */
+  Eigen::Isometry3d getCurrentTargetPose() const;
+
   /** @brief If true, numeric differentiation will be used. Default: true
    *
    * Note: While the logic for using the jacobian from KDL will be used if set to false, this has been buggy. Set this
diff --git a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
index 6b6cad3..8d4c4e3 100644
--- a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
@@ -398,4 +398,12 @@ Eigen::Isometry3d CartPosConstraint::getCurrentPose() const
   return transforms_cache_[source_frame_] * source_frame_offset_;
 }
 
+Eigen::Isometry3d CartPosConstraint::getCurrentTargetPose() const
+{
+  transforms_cache_.clear();
+  manip_->calcFwdKin(transforms_cache_, position_var_->value());
+
+  return transforms_cache_[target_frame_] * target_frame_offset_;
+}
+
 }  // namespace trajopt_ifopt
diff --git a/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp b/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
index 157b729..e523c8c 100644
--- a/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
@@ -44,7 +44,7 @@ void CartesianErrorPlottingCallback::plot(const QPProblem& /*problem*/)
   for (const auto& cnt : cart_position_cnts_)
   {
     Eigen::Isometry3d current_pose = cnt->getCurrentPose();
-    Eigen::Isometry3d target_pose = cnt->getTargetPose();
+    Eigen::Isometry3d target_pose = cnt->getCurrentTargetPose();
 
     if (plotter_)
     {
-- 
2.43.0


From bb61a71c45feae0c4d65292087f7eab51ebca0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 77/78] fix: read the legacy name of the collision margin
 buffer

---
 trajopt_common/include/trajopt_common/yaml_extensions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_common/include/trajopt_common/yaml_extensions.h b/trajopt_common/include/trajopt_common/yaml_extensions.h
index 8f3a29c..4f83493 100644
--- a/trajopt_common/include/trajopt_common/yaml_extensions.h
+++ b/trajopt_common/include/trajopt_common/yaml_extensions.h
@@ -126,6 +126,8 @@ struct convert<trajopt_common::TrajOptCollisionConfig>
     // Accept both 'collision_margin_buffer' and legacy alias 'buffer'
     if (const YAML::Node& n = node["collision_margin_buffer"])
       rhs.collision_margin_buffer = n.as<double>();
+    else if (const YAML::Node& legacy = node["buffer"])
+      rhs.collision_margin_buffer = legacy.as<double>();
 
     if (const YAML::Node& n = node["max_num_cnt"])
       rhs.max_num_cnt = n.as<int>();
-- 
2.43.0


From 8d22b4e7b099dc40a1bf271e92b65118615b958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 78/78] fix: register the built-in terms once, whichever thread
 asks first

---
 trajopt/src/problem_description.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index daeadf5..1d58f0f 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -27,8 +27,6 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace
 {
-bool gRegisteredMakers = false;
-
 void ensure_only_members(const Json::Value& v, const char** fields, int nvalid)
 {
   for (Json::ValueConstIterator it = v.begin(); it != v.end(); ++it)
@@ -50,7 +48,7 @@ void ensure_only_members(const Json::Value& v, const char** fields, int nvalid)
   }
 }
 
-void RegisterMakers()
+bool RegisterMakers()
 {
   trajopt::TermInfo::RegisterMaker("dynamic_cart_pose", &trajopt::DynamicCartPoseTermInfo::create);
   trajopt::TermInfo::RegisterMaker("cart_pose", &trajopt::CartPoseTermInfo::create);
@@ -62,7 +60,7 @@ void RegisterMakers()
   trajopt::TermInfo::RegisterMaker("collision", &trajopt::CollisionTermInfo::create);
   trajopt::TermInfo::RegisterMaker("total_time", &trajopt::TotalTimeTermInfo::create);
 
-  gRegisteredMakers = true;
+  return true;
 }
 
 /**
@@ -105,8 +103,9 @@ void TermInfo::RegisterMaker(const std::string& type, MakerFunc f) { TermInfo::n
 
 TermInfo::Ptr TermInfo::fromName(const std::string& type)
 {
-  if (!gRegisteredMakers)
-    RegisterMakers();
+  // Initialized once, whichever thread asks first
+  static const bool registered_makers = RegisterMakers();
+  UNUSED(registered_makers);
 
   if (name2maker.find(type) != name2maker.end())
     return (*name2maker[type])();
-- 
2.43.0

