From aafb6fbd862e4b4afb5a2a406c6e37d0fe7da8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 01/94] fix: make the box-QP line search test a decrease and
 leave almost active bounds

The free-space gradient entered the Armijo test with the wrong sign, so that
steps increasing the cost were accepted and the iterates could cycle. Besides,
backtracking stalled when the projected path bends, at an almost active bound,
before the smallest step length.
---
 src/core/solvers/box-qp.cpp | 38 ++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..d5a46ac 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -8,6 +8,8 @@
 
 #include "crocoddyl/core/solvers/box-qp.hpp"
 
+#include <limits>
+
 namespace crocoddyl {
 
 BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
@@ -100,6 +102,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
   }
 
   // Start the numerical iterations
+  const double th_num = 1e2 * std::numeric_limits<double>::epsilon();
   for (std::size_t k = 0; k < maxiter_; ++k) {
     solution_.clamped_idx.clear();
     solution_.free_idx.clear();
@@ -159,11 +162,12 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     dx_.setZero();
     for (std::size_t i = 0; i < nf_; ++i) {
       dx_(solution_.free_idx[i]) = dxf(i);
-      g_(solution_.free_idx[i]) = -qf(i);
+      g_(solution_.free_idx[i]) = qf(i);
     }
 
     // Try different step lengths
-    fold_ = 0.5 * x_.dot(H * x_) + q.dot(x_);
+    fold_ = 0.5 * (x_.dot(H * x_) + reg_ * x_.squaredNorm()) + q.dot(x_);
+    bool accepted = false;
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       double steplength = *it;
@@ -171,13 +175,41 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
         xnew_(i) =
             std::max(std::min(x_(i) + steplength * dx_(i), ub(i)), lb(i));
       }
-      fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_);
+      fnew_ = 0.5 * (xnew_.dot(H * xnew_) + reg_ * xnew_.squaredNorm()) +
+              q.dot(xnew_);
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
+        accepted = true;
         break;
       }
     }
 
+    // The projected path might bend, at a bound that is almost active, before
+    // the smallest step length. In this case, we move until that bound
+    if (!accepted) {
+      double steplength = 1.;
+      std::size_t blocking = nx_;
+      for (std::size_t i = 0; i < nx_; ++i) {
+        const double dist = dx_(i) > 0. ? ub(i) - x_(i) : lb(i) - x_(i);
+        if (dx_(i) != 0. && dist != 0. && dist / dx_(i) < steplength) {
+          steplength = dist / dx_(i);
+          blocking = i;
+        }
+      }
+      if (blocking != nx_) {
+        for (std::size_t i = 0; i < nx_; ++i) {
+          xnew_(i) =
+              std::max(std::min(x_(i) + steplength * dx_(i), ub(i)), lb(i));
+        }
+        xnew_(blocking) = dx_(blocking) > 0. ? ub(blocking) : lb(blocking);
+        fnew_ = 0.5 * (xnew_.dot(H * xnew_) + reg_ * xnew_.squaredNorm()) +
+                q.dot(xnew_);
+        if (fnew_ - fold_ <= th_num * (1. + std::abs(fold_))) {
+          x_ = xnew_;
+        }
+      }
+    }
+
     // Check convergence
     if (qf.lpNorm<Eigen::Infinity>() <= th_grad_) {
       solution_.x = x_;
-- 
2.43.0


From fdcb1e601aa33a2c31fd3d39246673bbeb9dd13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/94] fix: stopwatch minimum, reset and pause

The first sample never updated the minimum, resetting left a minimum of zero
that no sample can undercut, and pausing read the CPU clock in ticks whatever
the timing mode.
---
 src/core/utils/stop-watch.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index d4051c7..939eb1a 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -152,8 +152,7 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
   // Update min/max time
   if (lapse >= perf_info.max_time)
     perf_info.max_time = lapse;
-  else if (lapse <= perf_info.min_time)
-    perf_info.min_time = lapse;
+  if (lapse <= perf_info.min_time) perf_info.min_time = lapse;
 
   // Update total time
   perf_info.total_time += lapse;
@@ -162,7 +161,7 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
 void Stopwatch::pause(const string& perf_name) {
   if (!active) return;
 
-  long double clock_end = (long double)clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -175,6 +174,8 @@ void Stopwatch::pause(const string& perf_name) {
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
   perf_info.last_time += lapse;
   perf_info.total_time += lapse;
@@ -226,8 +227,8 @@ void Stopwatch::reset(const string& perf_name) {
 
   perf_info.clock_start = 0;
   perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
+  perf_info.min_time = std::numeric_limits<long double>::max();
+  perf_info.max_time = std::numeric_limits<long double>::min();
   perf_info.last_time = 0;
   perf_info.paused = false;
   perf_info.stops = 0;
-- 
2.43.0


From 26d84cced510880ff47ed2af15e23c14df94e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 03/94] fix: keep the cost sum's counters and sets when a
 duplicate item is added or an inactive cost is removed

---
 include/crocoddyl/core/costs/cost-sum.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
@@ -71,7 +75,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From bdf35b06e0691e791ec31e71a2ae426e2ee88aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 04/94] fix: keep the constraint manager's bounds and buffers
 in step with its active constraints

---
 .../core/constraints/constraint-manager.hpp   | 11 +++++++
 .../core/constraints/constraint-manager.hxx   | 29 ++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 1c6d112..b5cea84 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -278,6 +278,11 @@ class ConstraintModelManagerTpl {
       std::ostream& os, const ConstraintModelManagerTpl<Scalar>& model);
 
  private:
+  /**
+   * @brief Stack the bounds of the active inequality constraints
+   */
+  void updateBounds();
+
   std::shared_ptr<StateAbstract> state_;  //!< State description
   ConstraintModelContainer constraints_;  //!< Stack of constraint items
   VectorXs lb_;                           //!< Lower bound of the constraint
@@ -363,6 +368,12 @@ struct ConstraintDataManagerTpl {
     const std::size_t nu = model->get_nu();
     const std::size_t ng = running_node ? model->get_ng() : model->get_ng_T();
     const std::size_t nh = running_node ? model->get_nh() : model->get_nh_T();
+    g_internal.conservativeResize(ng);
+    Gx_internal.conservativeResize(ng, ndx);
+    Gu_internal.conservativeResize(ng, nu);
+    h_internal.conservativeResize(nh);
+    Hx_internal.conservativeResize(nh, ndx);
+    Hu_internal.conservativeResize(nh, nu);
     new (&g) Eigen::Map<VectorXs>(g_internal.data(), ng);
     new (&Gx) Eigen::Map<MatrixXs>(Gx_internal.data(), ng, ndx);
     new (&Gu) Eigen::Map<MatrixXs>(Gu_internal.data(), ng, nu);
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index fde4255..c005d36 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -58,8 +58,7 @@ void ConstraintModelManagerTpl<Scalar>::addConstraint(
       nh_T_ += constraint->get_nh();
     }
     active_set_.insert(name);
-    lb_.resize(ng_);
-    ub_.resize(ng_);
+    updateBounds();
   } else if (!active) {
     inactive_set_.insert(name);
   }
@@ -77,13 +76,12 @@ void ConstraintModelManagerTpl<Scalar>::removeConstraint(
         ng_T_ -= it->second->constraint->get_ng();
         nh_T_ -= it->second->constraint->get_nh();
       }
-      lb_.resize(ng_);
-      ub_.resize(ng_);
       active_set_.erase(name);
     } else {
       inactive_set_.erase(name);
     }
     constraints_.erase(it);
+    updateBounds();
   } else {
     std::cout << "Warning: we couldn't remove the " << name
               << " constraint item, it doesn't exist." << std::endl;
@@ -105,8 +103,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.insert(name);
       inactive_set_.erase(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      updateBounds();
     } else if (!active && it->second->active) {
       ng_ -= it->second->constraint->get_ng();
       nh_ -= it->second->constraint->get_nh();
@@ -117,8 +114,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.erase(name);
       inactive_set_.insert(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      updateBounds();
     }
   } else {
     std::cout << "Warning: we couldn't change the status of the " << name
@@ -415,6 +411,23 @@ ConstraintModelManagerTpl<Scalar>::get_ub() const {
   return ub_;
 }
 
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::updateBounds() {
+  lb_.resize(ng_);
+  ub_.resize(ng_);
+  std::size_t ng_i = 0;
+  typename ConstraintModelContainer::const_iterator it, end;
+  for (it = constraints_.begin(), end = constraints_.end(); it != end; ++it) {
+    const std::shared_ptr<ConstraintItem>& item = it->second;
+    if (item->active) {
+      const std::size_t ng = item->constraint->get_ng();
+      lb_.segment(ng_i, ng) = item->constraint->get_lb();
+      ub_.segment(ng_i, ng) = item->constraint->get_ub();
+      ng_i += ng;
+    }
+  }
+}
+
 template <typename Scalar>
 bool ConstraintModelManagerTpl<Scalar>::getConstraintStatus(
     const std::string& name) const {
-- 
2.43.0


From 62f3a3cd5263513eb22d2eaf5bb5d31040f3ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 05/94] fix: exact second derivatives of the smooth norms,
 weighted barrier and weighted quadratic activations

---
 .../core/activations/smooth-1norm.hpp         |  2 +-
 .../core/activations/smooth-2norm.hpp         |  4 +++-
 .../weighted-quadratic-barrier.hpp            |  2 +-
 .../core/activations/weighted-quadratic.hpp   | 22 ++-----------------
 4 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/include/crocoddyl/core/activations/smooth-1norm.hpp b/include/crocoddyl/core/activations/smooth-1norm.hpp
index 9ccb0ff..c2843ea 100644
--- a/include/crocoddyl/core/activations/smooth-1norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-1norm.hpp
@@ -103,7 +103,7 @@ class ActivationModelSmooth1NormTpl
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = r.cwiseProduct(d->a.cwiseInverse());
     data->Arr.diagonal() =
-        d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
+        eps_ * d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
   };
 
   /**
diff --git a/include/crocoddyl/core/activations/smooth-2norm.hpp b/include/crocoddyl/core/activations/smooth-2norm.hpp
index 3e8493d..6724340 100644
--- a/include/crocoddyl/core/activations/smooth-2norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-2norm.hpp
@@ -91,7 +91,9 @@ class ActivationModelSmooth2NormTpl
     }
 
     data->Ar = r / data->a_value;
-    data->Arr.diagonal().array() = Scalar(1) / pow(data->a_value, Scalar(3));
+    data->Arr.diagonal().array() =
+        Scalar(1) / data->a_value -
+        r.array().square() / pow(data->a_value, Scalar(3));
   };
 
   /**
diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 01eb433..2f06f04 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -75,7 +75,7 @@ class ActivationModelWeightedQuadraticBarrierTpl
                        Scalar(0.), Scalar(1.), Scalar(0.)));
     }
 
-    data->Arr.diagonal().array() *= weights_.array();
+    data->Arr.diagonal().array() *= weights_.array().square();
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..0752581 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,25 +56,13 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
     std::shared_ptr<Data> data =
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
-
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +82,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +98,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 2833d7c51351f770d6f81cdeeb194c2f251563de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 06/94] fix: set all entries in StateVector::Jintegrate with
 the setto operator

---
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..9c503a6 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,6 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         Jfirst.diagonal().array() = Scalar(1.);
         break;
       case addto:
@@ -149,6 +150,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         Jsecond.diagonal().array() = Scalar(1.);
         break;
       case addto:
-- 
2.43.0


From ed11f75c831b9acb2d6d7b950b410dacbae9c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 07/94] fix: zero the result of the Jacobian-product wrappers
 before adding to it

---
 include/crocoddyl/core/control-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..7a8f762 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -33,7 +33,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs AJ(A.rows(), nu_);
+  MatrixXs AJ = MatrixXs::Zero(A.rows(), nu_);
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -43,7 +43,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs JTA(nu_, A.cols());
+  MatrixXs JTA = MatrixXs::Zero(nu_, A.cols());
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From 98af17016b9ad55e7d34ccc43345786e3dc15535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 08/94] fix: propagate the state Jacobian of the inner
 actuation through the squashing

---
 include/crocoddyl/core/actuation/actuation-squashing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..0955d5d 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -58,6 +58,7 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
 
     squashing_->calcDiff(d->squashing, u);
     actuation_->calcDiff(d->actuation, x, d->squashing->u);
+    data->dtau_dx = d->actuation->dtau_dx;
     data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;
   };
 
-- 
2.43.0


From 688bb58e22f5b30e66ecb614f879ee77c8d7314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 09/94] fix: zero the joint-acceleration residual's terminal
 derivatives

---
 include/crocoddyl/core/residuals/joint-acceleration.hpp | 7 +++++++
 include/crocoddyl/core/residuals/joint-acceleration.hxx | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hpp b/include/crocoddyl/core/residuals/joint-acceleration.hpp
index 055a3e2..42f2778 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hpp
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hpp
@@ -126,6 +126,13 @@ class ResidualModelJointAccelerationTpl
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override;
 
+  /**
+   * @brief @copydoc Base::calcDiff(const std::shared_ptr<ResidualDataAbstract>&
+   * data, const Eigen::Ref<const VectorXs>& x)
+   */
+  virtual void calcDiff(const std::shared_ptr<ResidualDataAbstract>& data,
+                        const Eigen::Ref<const VectorXs>& x) override;
+
   /**
    * @brief Create the joint-acceleration residual data
    */
diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hxx b/include/crocoddyl/core/residuals/joint-acceleration.hxx
index 5d81e04..19fd6e9 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hxx
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hxx
@@ -70,6 +70,13 @@ void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
   data->Ru = d->joint->da_du;
 }
 
+template <typename Scalar>
+void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
+    const std::shared_ptr<ResidualDataAbstract>& data,
+    const Eigen::Ref<const VectorXs>&) {
+  data->Rx.setZero();
+}
+
 template <typename Scalar>
 std::shared_ptr<ResidualDataAbstractTpl<Scalar> >
 ResidualModelJointAccelerationTpl<Scalar>::createData(
-- 
2.43.0


From c1291b41fc47dcbf83524b6b5186c1383fd0902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 10/94] fix: initialise fwddyn in the last joint-effort
 residual constructor

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From 71df268898da34997ab186d34fbb5ae424f23b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 11/94] fix: write the LQR matrices in every calcDiff and size
 its data for odd state dimensions

---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  7 ++-
 include/crocoddyl/core/actions/lqr.hxx      | 43 +++++++-----------
 4 files changed, 37 insertions(+), 62 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
@@ -303,16 +302,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 24db34d462cbf0798abdea50314e9c12172a6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 12/94] fix: return N and R from the LQR's get_Lxu and get_Luu

---
 include/crocoddyl/core/actions/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 7cf0d52..b8d5d07 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -223,8 +223,8 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   DEPRECATED("Use get_q", const VectorXs& get_lx() const { return get_q(); })
   DEPRECATED("Use get_r", const VectorXs& get_lu() const { return get_r(); })
   DEPRECATED("Use get_Q", const MatrixXs& get_Lxx() const { return get_Q(); })
-  DEPRECATED("Use get_R", const MatrixXs& get_Lxu() const { return get_R(); })
-  DEPRECATED("Use get_N", const MatrixXs& get_Luu() const { return get_N(); })
+  DEPRECATED("Use get_N", const MatrixXs& get_Lxu() const { return get_N(); })
+  DEPRECATED("Use get_R", const MatrixXs& get_Luu() const { return get_R(); })
   DEPRECATED(
       "Use set_LQR", void set_Fx(const MatrixXs& A) {
         set_LQR(A, B_, Q_, R_, N_, G_, H_, f_, q_, r_, g_, h_);
-- 
2.43.0


From 4bf9983b9a1bfa6ffbe9d290711a0192b467e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 13/94] fix: initialise the thread count and update flag in all
 shooting-problem constructors

---
 include/crocoddyl/core/optctrl/shooting.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..8a6359b 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -134,7 +135,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From c64f0cc2cdf930f57b83511188d06c244ed9eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 14/94] fix: check and store the models given to
 ShootingProblem::set_runningModels

---
 include/crocoddyl/core/optctrl/shooting.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 8a6359b..ab4bf7d 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -462,7 +462,7 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < models.size(); ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -477,12 +477,10 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
   }
   is_updated_ = true;
   T_ = models.size();
-  running_models_.clear();
+  running_models_ = models;
   running_datas_.clear();
   for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
-    running_models_.push_back(model);
-    running_datas_.push_back(model->createData());
+    running_datas_.push_back(running_models_[i]->createData());
   }
 }
 
-- 
2.43.0


From 86d98ea60346c14d8e4eaac14c2e415f7a62075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 15/94] fix: check the terminal state's dimensions when a
 shooting problem is given its data

---
 include/crocoddyl/core/optctrl/shooting.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index ab4bf7d..c398149 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -111,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
-- 
2.43.0


From f1ea7599dcbe19777005e17b3111dd83f7d378a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 16/94] fix: size the integrators' control Jacobians of the
 constraints as the differential model's

Euler and RK resized Gu and Hu to the running dimensions before multiplying the
differential model's Jacobians, which throws when these have more rows because
the terminal node has more constraints.
---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++--
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..dfd94d7 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -121,8 +121,8 @@ void IntegratedActionModelEulerTpl<Scalar>::calcDiff(
   d->Luu *= time_step_;
   d->Gx = d->differential->Gx;
   d->Hx = d->differential->Hx;
-  d->Gu.conservativeResize(differential_->get_ng(), nu_);
-  d->Hu.conservativeResize(differential_->get_nh(), nu_);
+  d->Gu.conservativeResize(d->differential->Gu.rows(), nu_);
+  d->Hu.conservativeResize(d->differential->Hu.rows(), nu_);
   control_->multiplyByJacobian(d->control, d->differential->Gu, d->Gu);
   control_->multiplyByJacobian(d->control, d->differential->Hu, d->Hu);
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..082b91f 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -300,8 +300,8 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
   }
   d->Gx = k0_data->Gx;
   d->Hx = k0_data->Hx;
-  d->Gu.conservativeResize(differential_->get_ng(), nu_);
-  d->Hu.conservativeResize(differential_->get_nh(), nu_);
+  d->Gu.conservativeResize(k0_data->Gu.rows(), nu_);
+  d->Hu.conservativeResize(k0_data->Hu.rows(), nu_);
   control_->multiplyByJacobian(u0_data, k0_data->Gu, d->Gu);
   control_->multiplyByJacobian(u0_data, k0_data->Hu, d->Hu);
 
-- 
2.43.0


From 733894f3d922826e7380d6369ad6388092a0d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 17/94] fix: use the stage's own Jacobian for the velocity
 block of the RK derivatives

The second stage assumed dq_i/dv = dt/2, which holds neither for RK3 (dt/3) nor
on manifolds.
---
 include/crocoddyl/core/integrator/rk.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 082b91f..a3c8f52 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -206,11 +206,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
     //   is ki_data.Fx
     d->dki_dx[i].topRows(nv) = d->dyi_dx[i].bottomRows(nv);
     dkvi_dq.noalias() = dki_dqi * dqi_dq;
-    if (i == 1) {
-      dkvi_dv = time_step_ / Scalar(2.) * dki_dqi;
-    } else {
-      dkvi_dv.noalias() = dki_dqi * dqi_dv;
-    }
+    dkvi_dv.noalias() = dki_dqi * dqi_dv;
     dkvi_dq.noalias() += dki_dvi * dvi_dq;
     dkvi_dv.noalias() += dki_dvi * dvi_dv;
     //  ii. d->dki_du[i].noalias() = d->dki_dy[i] * d->dyi_du[i], where dki_dy
-- 
2.43.0


From e08fd9c7d09cb48717b683feb7ba9b00ffc9463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 18/94] fix: start the RK quasi-static search from zero after
 non-finite controls

Multiplying by zero keeps NaN.
---
 include/crocoddyl/core/integrator/rk.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index a3c8f52..c141ebd 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -384,7 +384,7 @@ void IntegratedActionModelRKTpl<Scalar>::quasiStatic(
   Data* d = static_cast<Data*>(data.get());
   const std::shared_ptr<ControlParametrizationDataAbstract>& u0_data =
       d->control[0];
-  u0_data->w *= Scalar(0.);
+  u0_data->w.setZero();
   differential_->quasiStatic(d->differential[0], u0_data->w, x, maxiter, tol);
   control_->params(u0_data, Scalar(0.), u0_data->w);
   u = u0_data->u;
-- 
2.43.0


From aa0552321c7309d23206d1807db975cd1b6abab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 19/94] fix: refuse foreign data in the integrators' checkData

They tested the given pointer instead of the cast one and then dereferenced the
null cast.
---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index dfd94d7..3b58f7f 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index c141ebd..674a452 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -353,7 +353,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From 73d84d45772a2954e6722caf419790995df8fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 20/94] fix: compute the inequality violation in the selected
 norm

The terminal violation was added to the largest one for LInf, and only the
largest running violation counted for L1.
---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..2039e51 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -147,8 +147,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ = std::max(tmp_feas_,
+                             (problem_->get_terminalData()->g - g_adj_.back())
+                                 .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -157,8 +158,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From 838e736a5724286415f7f5254c4916d7c0de22d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 21/94] fix: resolve the Schur gains of SolverIntro around the
 current guess, not the rejected step

---
 include/crocoddyl/core/solvers/intro.hpp |  2 ++
 src/core/solvers/intro.cpp               | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/intro.hpp b/include/crocoddyl/core/solvers/intro.hpp
index 7f446a7..deda2aa 100644
--- a/include/crocoddyl/core/solvers/intro.hpp
+++ b/include/crocoddyl/core/solvers/intro.hpp
@@ -194,6 +194,8 @@ class SolverIntro : public SolverFDDP {
       ks_;  //!< Feedforward term related to the equality constraints
   std::vector<Eigen::MatrixXd>
       Ks_;  //!< Feedback gain related to the equality constraints
+  std::vector<Eigen::VectorXd>
+      hs_;  //!< Equality-constraint values at the current guess
   std::vector<Eigen::MatrixXd> QuuinvHuT_;
   std::vector<Eigen::LLT<Eigen::MatrixXd> > Qzz_llt_;  //!< Cholesky LLT solver
   std::vector<Eigen::FullPivLU<Eigen::MatrixXd> >
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..1452f88 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -32,6 +32,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
   Kz_.resize(T);
   ks_.resize(T);
   Ks_.resize(T);
+  hs_.resize(T);
   QuuinvHuT_.resize(T);
   Qzz_llt_.resize(T);
   Hu_lu_.resize(T);
@@ -57,6 +58,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     Kz_[t] = Eigen::MatrixXd::Zero(nu, ndx);
     ks_[t] = Eigen::VectorXd::Zero(nh);
     Ks_[t] = Eigen::MatrixXd::Zero(nh, ndx);
+    hs_[t] = Eigen::VectorXd::Zero(nh);
     QuuinvHuT_[t] = Eigen::MatrixXd::Zero(nu, nh);
     Qzz_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nh);
     Hu_lu_[t] = Eigen::FullPivLU<Eigen::MatrixXd>(nh, nu);
@@ -218,6 +220,7 @@ void SolverIntro::resizeData() {
     Kz_[t].conservativeResize(nu, ndx);
     ks_[t].conservativeResize(nh);
     Ks_[t].conservativeResize(nh, ndx);
+    hs_[t].conservativeResize(nh);
     QuuinvHuT_[t].conservativeResize(nu, nh);
   }
   STOP_PROFILER("SolverIntro::resizeData");
@@ -287,6 +290,11 @@ double SolverIntro::calcDiff() {
       }
       break;
     case Schur:
+      // The line search overwrites the data of the rejected steps, and the
+      // gains have to be resolved around the current guess
+      for (std::size_t t = 0; t < T; ++t) {
+        hs_[t] = datas[t]->h;
+      }
       break;
   }
 
@@ -386,7 +394,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h;
+        ks_[t] = hs_[t];
         ks_[t].noalias() -= data->Hu * k_[t];
         Ks_[t] = data->Hx;
         Ks_[t].noalias() -= data->Hu * K_[t];
-- 
2.43.0


From 3dd6a201eca50a052797a5cb8e8520001eb44403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 22/94] fix: one-sided control limits are control limits

---
 include/crocoddyl/core/action-base.hxx      | 2 +-
 include/crocoddyl/core/diff-action-base.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index f059805..da6fba9 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -241,7 +241,7 @@ void ActionModelAbstractTpl<Scalar>::set_u_ub(const VectorXs& u_ub) {
 template <typename Scalar>
 void ActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
diff --git a/include/crocoddyl/core/diff-action-base.hxx b/include/crocoddyl/core/diff-action-base.hxx
index 623763b..f013a4c 100644
--- a/include/crocoddyl/core/diff-action-base.hxx
+++ b/include/crocoddyl/core/diff-action-base.hxx
@@ -225,7 +225,7 @@ void DifferentialActionModelAbstractTpl<Scalar>::set_u_ub(
 template <typename Scalar>
 void DifferentialActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
-- 
2.43.0


From 1f34a23ff38d649f1e43b5684d29c4f96a68afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:28 +0000
Subject: [PATCH 23/94] fix: expected improvement of the box solvers accounts
 for controls moved to a limit

---
 src/core/solvers/box-ddp.cpp  | 8 --------
 src/core/solvers/box-fddp.cpp | 6 ------
 2 files changed, 14 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..b354761 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -97,14 +97,6 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     K_[t].noalias() = Quu_inv_[t] * Qxu_[t].transpose();
     STOP_PROFILER("SolverBoxDDP::Quu_invproj_Qxu");
     k_[t] = -boxqp_sol.x;
-
-    // The box-QP clamped the gradient direction; this is important for
-    // accounting the algorithm advancement (i.e. stopping criteria)
-    START_PROFILER("SolverBoxDDP::Qu_proj");
-    for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
-      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
-    }
-    STOP_PROFILER("SolverBoxDDP::Qu_proj");
   }
   STOP_PROFILER("SolverBoxDDP::computeGains");
 }
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..c34b7da 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -90,12 +90,6 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
     }
     K_[t].noalias() = Quu_inv_[t] * Qxu_[t].transpose();
     k_[t] = -boxqp_sol.x;
-
-    // The box-QP clamped the gradient direction; this is important for
-    // accounting the algorithm advancement (i.e. stopping criteria)
-    for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
-      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
-    }
   }
 }
 
-- 
2.43.0


From 1d78218c041896c6c1e0f677ad5185a13be9b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 24/94] fix: box solvers handle nodes with different control
 dimensions

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b354761..bc43b55 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -75,6 +75,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    if (qp_.get_nx() != nu) {  // the nodes can have different control dimensions
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index c34b7da..d422d59 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -74,6 +74,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    if (qp_.get_nx() != nu) {  // the nodes can have different control dimensions
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
-- 
2.43.0


From 1913c1fea1da6edf911190610d7a36c49f7a76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 25/94] fix: increase a null regularization, instead of
 retrying forever with it

---
 src/core/solvers/ddp.cpp | 6 +++++-
 src/core/solvers/kkt.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..0dc98c6 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -396,7 +396,11 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ > 0.) {
+    preg_ *= reg_incfactor_;
+  } else {  // scaling has no effect on a null regularization
+    preg_ = reg_min_ > 0. ? reg_min_ : 1e-9;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..856b20f 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -252,7 +252,11 @@ void SolverKKT::computePrimalDual() {
 }
 
 void SolverKKT::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ > 0.) {
+    preg_ *= reg_incfactor_;
+  } else {  // scaling has no effect on a null regularization
+    preg_ = reg_min_ > 0. ? reg_min_ : 1e-9;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 3195863890bbeb1653f1f87fc47fc4baac7dc884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:51 +0000
Subject: [PATCH 26/94] fix: do not use stale derivatives after the computation
 of new ones failed

---
 include/crocoddyl/core/solvers/ddp.hpp | 1 +
 src/core/solvers/ddp.cpp               | 8 ++++++--
 src/core/solvers/fddp.cpp              | 3 ++-
 src/core/solvers/intro.cpp             | 3 ++-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/solvers/ddp.hpp b/include/crocoddyl/core/solvers/ddp.hpp
index 9708cca..3b18300 100644
--- a/include/crocoddyl/core/solvers/ddp.hpp
+++ b/include/crocoddyl/core/solvers/ddp.hpp
@@ -396,6 +396,7 @@ class SolverDDP : public SolverAbstract {
       th_stepdec_;  //!< Step-length threshold used to decrease regularization
   double
       th_stepinc_;  //!< Step-length threshold used to increase regularization
+  bool diff_done_;  //!< True if the last derivatives were fully computed
 };
 
 }  // namespace crocoddyl
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 0dc98c6..c9d0937 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -20,7 +20,8 @@ SolverDDP::SolverDDP(std::shared_ptr<ShootingProblem> problem)
       cost_try_(0.),
       th_grad_(1e-12),
       th_stepdec_(0.5),
-      th_stepinc_(0.01) {
+      th_stepinc_(0.01),
+      diff_done_(true) {
   allocateData();
 
   const std::size_t n_alphas = 10;
@@ -65,7 +66,8 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // the derivatives are pending if their computation failed
+        recalcDiff = recalcDiff && !diff_done_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -132,7 +134,9 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverDDP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverDDP::computeDirection");
   if (recalcDiff) {
+    diff_done_ = false;
     calcDiff();
+    diff_done_ = true;
   }
   backwardPass();
   STOP_PROFILER("SolverDDP::computeDirection");
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..1b3964f 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -47,7 +47,8 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // the derivatives are pending if their computation failed
+        recalcDiff = recalcDiff && !diff_done_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 1452f88..a4e4264 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -99,7 +99,8 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // the derivatives are pending if their computation failed
+        recalcDiff = recalcDiff && !diff_done_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
-- 
2.43.0


From 3d05cfcad95e655c38614643bec9d8f586124220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 27/94] fix: SolverKKT fails if its direction cannot be
 computed, instead of using stale derivatives or looping forever

---
 src/core/solvers/kkt.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 856b20f..a045a7e 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -38,20 +38,12 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
+  const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(recalc);
+    } catch (std::exception& e) {
+      return false;  // there is no regularization to increase
     }
 
     expectedImprovement();
-- 
2.43.0


From 8e733a02473d3ace8579d69d74092f9566a89a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 28/94] fix: SolverBoxDDP closes the terminal gap at every step
 length, as its iterates are taken as feasible

---
 src/core/solvers/box-ddp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index bc43b55..ab77638 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -148,12 +148,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
-- 
2.43.0


From 98c740be3a30d58a4e47f01203ce313ce8bf5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 29/94] fix: SolverKKT rejects steps with a non-finite cost

---
 src/core/solvers/kkt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index a045a7e..745c1fe 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -124,6 +124,9 @@ double SolverKKT::tryStep(const double steplength) {
   const std::shared_ptr<ActionModelAbstract> m = problem_->get_terminalModel();
   m->get_state()->integrate(xs_[T], steplength * dxs_[T], xs_try_[T]);
   cost_try_ = problem_->calc(xs_try_, us_try_);
+  if (raiseIfNaN(cost_try_)) {
+    throw_pretty("forward_error");
+  }
   return cost_ - cost_try_;
 }
 
-- 
2.43.0


From 0c9a0435d10f91cc385bd3912aaa24735821ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:44 +0000
Subject: [PATCH 30/94] fix: SolverKKT does not work with, nor report, a
 non-finite cost of the current guess

---
 src/core/solvers/kkt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 745c1fe..bf3241e 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -188,7 +188,10 @@ std::size_t SolverKKT::get_ndx() const { return ndx_; }
 std::size_t SolverKKT::get_nu() const { return nu_; }
 
 double SolverKKT::calcDiff() {
-  cost_ = problem_->calc(xs_, us_);
+  const double cost = problem_->calc(xs_, us_);
+  if (raiseIfNaN(cost)) {
+    throw_pretty("backward_error");
+  }
   cost_ = problem_->calcDiff(xs_, us_);
 
   // offset on constraint xnext = f(x,u) due to x0 = ref.
-- 
2.43.0


From 4e39c9751d53b1e30e5c15c692e7b41cdcdc16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 31/94] fix: SolverKKT follows the updates of its problem

---
 include/crocoddyl/core/solvers/kkt.hpp |  1 +
 src/core/solvers/kkt.cpp               | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/crocoddyl/core/solvers/kkt.hpp b/include/crocoddyl/core/solvers/kkt.hpp
index f9f9970..37d1811 100644
--- a/include/crocoddyl/core/solvers/kkt.hpp
+++ b/include/crocoddyl/core/solvers/kkt.hpp
@@ -31,6 +31,7 @@ class SolverKKT : public SolverAbstract {
   virtual double tryStep(const double steplength = 1);
   virtual double stoppingCriteria();
   virtual const Eigen::Vector2d& expectedImprovement();
+  virtual void resizeData();
 
   const Eigen::MatrixXd& get_kkt() const;
   const Eigen::VectorXd& get_kktref() const;
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index bf3241e..77d16af 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,6 +37,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  resizeData();  // the problem could have been updated
   setCandidate(init_xs, init_us, is_feasible);
   const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
@@ -269,6 +270,18 @@ void SolverKKT::decreaseRegularization() {
   dreg_ = preg_;
 }
 
+void SolverKKT::resizeData() {
+  SolverAbstract::resizeData();
+  const std::size_t T = problem_->get_T();
+  bool updated = us_try_.size() != T;
+  for (std::size_t t = 0; t < T && !updated; ++t) {
+    updated = us_try_[t].size() != us_[t].size();
+  }
+  if (updated) {
+    allocateData();
+  }
+}
+
 void SolverKKT::allocateData() {
   const std::size_t T = problem_->get_T();
   dxs_.resize(T + 1);
-- 
2.43.0


From 2fd081cb98f6900cd9811e3d133fa5f04eee87df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 32/94] fix: solvers follow a changed horizon, and updates
 whose flag was read by another solver

---
 src/core/solver-base.cpp   |  7 +++++++
 src/core/solvers/ddp.cpp   | 11 +++++++----
 src/core/solvers/fddp.cpp  |  4 +---
 src/core/solvers/intro.cpp | 24 +++++++++++++++++++++---
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2039e51..e6aa301 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -75,6 +75,13 @@ void SolverAbstract::resizeData() {
   const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
+  if (us_.size() != T) {  // the horizon has changed
+    const std::size_t ndx = problem_->get_ndx();
+    xs_.resize(T + 1, problem_->get_terminalModel()->get_state()->zero());
+    us_.resize(T);
+    fs_.resize(T + 1, Eigen::VectorXd::Zero(ndx));
+    g_adj_.resize(T + 1);
+  }
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index c9d0937..379d777 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -44,9 +44,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double init_reg) {
   START_PROFILER("SolverDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  resizeData();  // the problem could have been updated
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
@@ -179,6 +177,9 @@ void SolverDDP::resizeData() {
 
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
+  if (k_.size() != T) {  // the horizon has changed
+    allocateData();
+  }
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   for (std::size_t t = 0; t < T; ++t) {
@@ -188,7 +189,9 @@ void SolverDDP::resizeData() {
     Quu_[t].conservativeResize(nu, nu);
     Qu_[t].conservativeResize(nu);
     K_[t].conservativeResize(nu, ndx);
-    k_[t].conservativeResize(nu);
+    if (static_cast<std::size_t>(k_[t].size()) != nu) {
+      k_[t].setZero(nu);  // it is the warm start of the box solvers
+    }
     us_try_[t].conservativeResize(nu);
     FuTVxx_p_[t].conservativeResize(nu, ndx);
     Quuk_[t].conservativeResize(nu);
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 1b3964f..270aedf 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -25,9 +25,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::size_t maxiter, const bool is_feasible,
                        const double init_reg) {
   START_PROFILER("SolverFDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  resizeData();  // the problem could have been updated
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index a4e4264..451b8b8 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -74,9 +74,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::size_t maxiter, const bool is_feasible,
                         const double init_reg) {
   START_PROFILER("SolverIntro::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  resizeData();  // the problem could have been updated
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
@@ -204,6 +202,26 @@ void SolverIntro::resizeData() {
 
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
+  if (Hu_rank_.size() != T) {  // the horizon has changed
+    Hu_rank_.resize(T);
+    KQuu_tmp_.resize(T);
+    YZ_.resize(T);
+    Hy_.resize(T);
+    Qz_.resize(T);
+    Qzz_.resize(T);
+    Qxz_.resize(T);
+    Quz_.resize(T);
+    kz_.resize(T);
+    Kz_.resize(T);
+    ks_.resize(T);
+    Ks_.resize(T);
+    hs_.resize(T);
+    QuuinvHuT_.resize(T);
+    Qzz_llt_.resize(T);
+    Hu_lu_.resize(T);
+    Hu_qr_.resize(T);
+    Hy_lu_.resize(T);
+  }
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   for (std::size_t t = 0; t < T; ++t) {
-- 
2.43.0


From f11edaa8bf286747ca0e3f5b61284ca936786ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:43 +0000
Subject: [PATCH 33/94] fix: forward passes evaluate running nodes without
 controls as running nodes

---
 src/core/solvers/box-ddp.cpp  | 4 +---
 src/core/solvers/box-fddp.cpp | 8 ++------
 src/core/solvers/ddp.cpp      | 4 +---
 src/core/solvers/fddp.cpp     | 8 ++------
 4 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index ab77638..c5a899f 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -129,10 +129,8 @@ void SolverBoxDDP::forwardPass(double steplength) {
       if (m->get_has_control_limits()) {  // clamp control
         us_try_[t] = us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
       }
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xnext_ = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index d422d59..82c701c 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -122,10 +122,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -160,10 +158,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 379d777..b735430 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -278,10 +278,8 @@ void SolverDDP::forwardPass(const double steplength) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
       us_try_[t].noalias() -= K_[t] * dx_[t];
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xs_try_[t + 1] = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 270aedf..8e9f573 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -194,10 +194,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -231,10 +229,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-- 
2.43.0


From fc847fa500920659a9c1009e7fd83070e6886526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:43 +0000
Subject: [PATCH 34/94] fix: objective, derivatives, sizes and failures of the
 Ipopt interface

---
 src/core/solvers/ipopt.cpp             |  7 ++++++-
 src/core/solvers/ipopt/ipopt-iface.cpp | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 4b6f4e3..b0b061a 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -28,6 +28,8 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
+  // The problem could have been updated after creating the solver
+  resizeData();
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
@@ -41,7 +43,10 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
   std::copy(ipopt_iface_->get_us().begin(), ipopt_iface_->get_us().end(),
             us_.begin());
   cost_ = ipopt_iface_->get_cost();
-  iter_ = ipopt_app_->Statistics()->IterationCount();
+  // There are no statistics if Ipopt stopped because of a failed evaluation
+  const Ipopt::SmartPtr<Ipopt::SolveStatistics> statistics =
+      ipopt_app_->Statistics();
+  iter_ = IsValid(statistics) ? statistics->IterationCount() : 0;
 
   return ipopt_status_ == Ipopt::Solve_Succeeded ||
          ipopt_status_ == Ipopt::Solved_To_Acceptable_Level;
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..6cbd7a0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,12 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  xs_.resize(T + 1);
+  us_.resize(T);
+  datas_.resize(T + 1);
+  ixu_.resize(T + 1);
+
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
@@ -62,7 +68,7 @@ void IpoptInterface::resizeData() {
 
     xs_[t].conservativeResize(nxi);
     us_[t].conservativeResize(nui);
-    datas_[t]->resize(nxi, ndxi, nui);
+    datas_[t] = createData(nxi, ndxi, nui);
     ixu_[t] = nvar_;
     nconst_ += ndxi;      // T*ndx eq. constraints for dynamics
     nvar_ += ndxi + nui;  // Multiple shooting, states and controls
@@ -78,7 +84,7 @@ void IpoptInterface::resizeData() {
   const std::size_t ndxi = model->get_state()->get_ndx();
   nvar_ += ndxi;  // final node
   xs_[T].conservativeResize(nxi);
-  datas_[T]->resize(nxi, ndxi, 0);
+  datas_[T] = createData(nxi, ndxi, 0);
 }
 
 IpoptInterface::~IpoptInterface() {}
@@ -242,6 +248,7 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
                 "Inconsistent number of decision variables");
 
   // Running costs
+  obj_value = 0.;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -494,6 +501,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
@@ -640,6 +648,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
@@ -701,7 +710,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 21211c68f771a8ed9d2ec8372757120fa3334b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 35/94] fix: residuals, control limits and constraint bounds of
 the numdiff actions

---
 include/crocoddyl/core/numdiff/action.hxx      | 4 ++++
 include/crocoddyl/core/numdiff/diff-action.hxx | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..0cfe84b 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -24,6 +24,8 @@ ActionModelNumDiffTpl<Scalar>::ActionModelNumDiffTpl(
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
   this->set_u_lb(model_->get_u_lb());
   this->set_u_ub(model_->get_u_ub());
+  this->set_g_lb(model_->get_g_lb());
+  this->set_g_ub(model_->get_g_ub());
 }
 
 template <typename Scalar>
@@ -44,6 +46,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -61,6 +64,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..3581747 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -24,6 +24,10 @@ DifferentialActionModelNumDiffTpl<Scalar>::DifferentialActionModelNumDiffTpl(
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
   if (with_gauss_approx_ && nr_ == 1)
     throw_pretty("No Gauss approximation possible with nr = 1");
+  this->set_u_lb(model_->get_u_lb());
+  this->set_u_ub(model_->get_u_ub());
+  this->set_g_lb(model_->get_g_lb());
+  this->set_g_ub(model_->get_g_ub());
 }
 
 template <typename Scalar>
@@ -44,6 +48,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -61,6 +66,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
-- 
2.43.0


From 0af05e1da5cd62e8d4dd93dad8a8f22ef4c65645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 36/94] fix: numdiff actions recognise their own data

---
 include/crocoddyl/core/numdiff/action.hpp      | 5 +++++
 include/crocoddyl/core/numdiff/action.hxx      | 7 +++++++
 include/crocoddyl/core/numdiff/diff-action.hpp | 5 +++++
 include/crocoddyl/core/numdiff/diff-action.hxx | 7 +++++++
 4 files changed, 24 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hpp b/include/crocoddyl/core/numdiff/action.hpp
index 43ab73d..b244314 100644
--- a/include/crocoddyl/core/numdiff/action.hpp
+++ b/include/crocoddyl/core/numdiff/action.hpp
@@ -99,6 +99,11 @@ class ActionModelNumDiffTpl : public ActionModelAbstractTpl<_Scalar> {
    */
   virtual std::shared_ptr<ActionDataAbstract> createData() override;
 
+  /**
+   * @brief Checks that a specific data belongs to this model
+   */
+  virtual bool checkData(const std::shared_ptr<ActionDataAbstract>& data) override;
+
   /**
    * @brief @copydoc Base::quasiStatic()
    */
diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 0cfe84b..43fbdc4 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -327,6 +327,13 @@ ActionModelNumDiffTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool ActionModelNumDiffTpl<Scalar>::checkData(
+    const std::shared_ptr<ActionDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  return d != NULL && model_->checkData(d->data_0);
+}
+
 template <typename Scalar>
 void ActionModelNumDiffTpl<Scalar>::quasiStatic(
     const std::shared_ptr<ActionDataAbstract>& data, Eigen::Ref<VectorXs> u,
diff --git a/include/crocoddyl/core/numdiff/diff-action.hpp b/include/crocoddyl/core/numdiff/diff-action.hpp
index d65ef6a..d67c8fa 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hpp
+++ b/include/crocoddyl/core/numdiff/diff-action.hpp
@@ -106,6 +106,11 @@ class DifferentialActionModelNumDiffTpl
    */
   virtual std::shared_ptr<DifferentialActionDataAbstract> createData() override;
 
+  /**
+   * @brief Checks that a specific data belongs to this model
+   */
+  virtual bool checkData(const std::shared_ptr<DifferentialActionDataAbstract>& data) override;
+
   /**
    * @brief Cast the diff-action numdiff model to a different scalar type.
    *
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 3581747..06620df 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -321,6 +321,13 @@ DifferentialActionModelNumDiffTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool DifferentialActionModelNumDiffTpl<Scalar>::checkData(
+    const std::shared_ptr<DifferentialActionDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  return d != NULL && model_->checkData(d->data_0);
+}
+
 template <typename Scalar>
 void DifferentialActionModelNumDiffTpl<Scalar>::quasiStatic(
     const std::shared_ptr<DifferentialActionDataAbstract>& data,
-- 
2.43.0


From f490bc1e6fe51f4c61a23cab32984a8dbab25bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 37/94] fix: step of the terminal derivatives of
 ResidualModelNumDiff

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From 96188e771177ca8d61899fc93487f15476e6f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 38/94] fix: ControlParametrizationModelNumDiff::calc sets the
 control

---
 include/crocoddyl/core/numdiff/control.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..d0a9f4c 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 5d19e5daee1be0a8d6509d55d9543cb35d32e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 39/94] fix: ConstraintModelNumDiff keeps the bounds and the
 terminal flag of its model

---
 include/crocoddyl/core/numdiff/constraint.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/constraint.hxx b/include/crocoddyl/core/numdiff/constraint.hxx
index 41ca28c..a0e8d3f 100644
--- a/include/crocoddyl/core/numdiff/constraint.hxx
+++ b/include/crocoddyl/core/numdiff/constraint.hxx
@@ -14,9 +14,12 @@ template <typename Scalar>
 ConstraintModelNumDiffTpl<Scalar>::ConstraintModelNumDiffTpl(
     const std::shared_ptr<Base>& model)
     : Base(model->get_state(), model->get_nu(), model->get_ng(),
-           model->get_nh()),
+           model->get_nh(), model->get_T_constraint()),
       model_(model),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  this->lb_ = model_->get_lb();
+  this->ub_ = model_->get_ub();
+}
 
 template <typename Scalar>
 void ConstraintModelNumDiffTpl<Scalar>::calc(
-- 
2.43.0


From 383aa90aa479dd2a317c7a8406ce2199b6726973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 40/94] fix: StateNumDiff keeps the limits of its state

---
 include/crocoddyl/core/numdiff/state.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..ccac48e 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -14,7 +14,10 @@ template <typename Scalar>
 StateNumDiffTpl<Scalar>::StateNumDiffTpl(std::shared_ptr<Base> state)
     : Base(state->get_nx(), state->get_ndx()),
       state_(state),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  this->set_lb(state_->get_lb());
+  this->set_ub(state_->get_ub());
+}
 
 template <typename Scalar>
 StateNumDiffTpl<Scalar>::~StateNumDiffTpl() {}
-- 
2.43.0


From 9bf79b96c1a44340538da65664eca9bf6c3525fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 41/94] fix: Hessian of ActivationModelNumDiff

---
 include/crocoddyl/core/numdiff/activation.hxx | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/activation.hxx b/include/crocoddyl/core/numdiff/activation.hxx
index c208a7d..68d3254 100644
--- a/include/crocoddyl/core/numdiff/activation.hxx
+++ b/include/crocoddyl/core/numdiff/activation.hxx
@@ -58,9 +58,20 @@ void ActivationModelNumDiffTpl<Scalar>::calcDiff(
     data->Ar(i_r) = (data_nd->data_rp[i_r]->a_value - a_value0) / rh_jac;
   }
 
-  // Computing the d^2 action(r) / dr^2
-  data_nd->Arr_.noalias() = data->Ar * data->Ar.transpose();
-  data->Arr.diagonal() = data_nd->Arr_.diagonal();
+  // Computing the diagonal of d^2 activation(r) / dr^2
+  const Scalar rh_hess =
+      sqrt(Scalar(2.0) * e_jac_) * std::max(Scalar(1.), r.norm());
+  for (unsigned int i_r = 0; i_r < nr; ++i_r) {
+    data_nd->rp(i_r) = r(i_r) + rh_hess;
+    model_->calc(data_nd->data_r2p[0], data_nd->rp);
+    data_nd->rp(i_r) = r(i_r) - rh_hess;
+    model_->calc(data_nd->data_r2p[1], data_nd->rp);
+    data_nd->rp(i_r) = r(i_r);
+    data->Arr.diagonal()(i_r) =
+        (data_nd->data_r2p[0]->a_value - Scalar(2.) * a_value0 +
+         data_nd->data_r2p[1]->a_value) /
+        (rh_hess * rh_hess);
+  }
 }
 
 template <typename Scalar>
-- 
2.43.0


From bb93371566f444ded2d49646b37b094ab6489678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 42/94] fix: setCandidate checks both trajectories before
 updating any

---
 src/core/solver-base.cpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index e6aa301..a8b7639 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -223,13 +223,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  if (xs_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      xs_[t] = model->get_state()->zero();
-    }
-    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
-  } else {
+  // Check both trajectories before updating any of them
+  if (xs_warm.size() != 0) {
     if (xs_warm.size() != T + 1) {
       throw_pretty("Warm start state vector has wrong dimension, got "
                    << xs_warm.size() << " expecting " << (T + 1));
@@ -256,16 +251,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                           std::to_string(nx) + "). ActionModel: "
                    << *problem_->get_terminalModel());
     }
-    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
   }
-
-  if (us_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::size_t nu = model->get_nu();
-      us_[t] = Eigen::VectorXd::Zero(nu);
-    }
-  } else {
+  if (us_warm.size() != 0) {
     if (us_warm.size() != T) {
       throw_pretty("Warm start control has wrong dimension, got "
                    << us_warm.size() << " expecting " << T);
@@ -283,6 +270,25 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                      << *model);
       }
     }
+  }
+
+  if (xs_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      xs_[t] = model->get_state()->zero();
+    }
+    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
+  } else {
+    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
+  }
+
+  if (us_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::size_t nu = model->get_nu();
+      us_[t] = Eigen::VectorXd::Zero(nu);
+    }
+  } else {
     std::copy(us_warm.begin(), us_warm.end(), us_.begin());
   }
   is_feasible_ = is_feasible;
-- 
2.43.0


From 2c38f76f8c3572623703b9c211987799b0727eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 43/94] fix: set_alphas refuses empty lists and nonpositive
 first values

---
 src/core/solvers/box-qp.cpp | 6 ++++++
 src/core/solvers/ddp.cpp    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index d5a46ac..ec5e9f2 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -271,7 +271,13 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "there is no alpha value.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index b735430..4951325 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -573,7 +573,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "there is no alpha value.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From c6e2f4dec2985cd6220f0e35543359cfaf3de2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 44/94] fix: range check of the acceptance threshold in BoxQP

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index ec5e9f2..843a2bc 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -30,7 +30,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -249,7 +249,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From e1b66533decdfec609e7f8bcbd94f0f019e5014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 45/94] fix: update_bounds checks the new bounds and accepts
 equal ones

---
 include/crocoddyl/core/constraint-base.hxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..a15b6ca 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -114,20 +114,21 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
         "Invalid argument: the dimension of the lower/upper bound is not the "
         "same to ng.")
   }
-  if (((upper - lower).array() <= Scalar(0.)).any()) {
+  if ((lower.array() > upper.array()).any()) {
     throw_pretty(
-        "Invalid argument: the upper bound is not higher than the lower bound.")
+        "Invalid argument: the upper bound is not equal to / higher than "
+        "the lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
+        "Invalid argument: the upper bound cannot contain a negative "
         "infinity/min value");
   }
   ng_ = ng_internal_;
-- 
2.43.0


From 3bb5d17b692d964b5416068ed2b724b7a732c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 46/94] fix: ConstraintModelResidual checks the dimension of
 its bounds

---
 include/crocoddyl/core/constraints/residual.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index a5574c4..9a1cd3d 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -14,6 +14,12 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
     std::shared_ptr<ResidualModelAbstract> residual, const VectorXs& lower,
     const VectorXs& upper, const bool T_act)
     : Base(state, residual, residual->get_nr(), 0) {
+  if (static_cast<std::size_t>(lower.size()) != ng_ ||
+      static_cast<std::size_t>(upper.size()) != ng_) {
+    throw_pretty(
+        "Invalid argument: the dimension of the lower/upper bound is not the "
+        "same to ng.")
+  }
   lb_ = lower;
   ub_ = upper;
   for (std::size_t i = 0; i < residual_->get_nr(); ++i) {
@@ -32,9 +38,9 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
         "infinity/max value");
   }
   if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+      (ub_.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
+        "Invalid argument: the upper bound cannot contain a negative "
         "infinity/max value");
   }
   if (!T_act) {
-- 
2.43.0


From 68a2fabc5426b7a963cce7729f50537d90fbf5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 47/94] fix: set_LQR checks the columns of the dynamics
 matrices

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 15 +++++++++------
 include/crocoddyl/core/actions/lqr.hxx      | 12 +++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..5bee72c 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -357,20 +357,23 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nq) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..78bca51 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -339,15 +339,17 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nx) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0


From 590e9fff8c8eb17e7ae1648d852f8cac76dfa8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:55 +0000
Subject: [PATCH 48/94] fix: ResidualModelJointEffort checks the dimension of
 its reference

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 29c0824..015cd7a 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -20,6 +20,11 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
       actuation_(actuation),
       uref_(uref),
       fwddyn_(fwddyn) {
+  if (uref_.size() != static_cast<Eigen::Index>(actuation_->get_nu())) {
+    throw_pretty("Invalid argument: "
+                 << "uref has wrong dimension (it should be " +
+                        std::to_string(actuation_->get_nu()) + ")");
+  }
   if (nu_ == 0) {
     throw_pretty("Invalid argument: "
                  << "it seems to be an autonomous system, if so, don't add "
@@ -34,7 +39,13 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
       uref_(uref),
-      fwddyn_(false) {}
+      fwddyn_(false) {
+  if (uref_.size() != static_cast<Eigen::Index>(actuation_->get_nu())) {
+    throw_pretty("Invalid argument: "
+                 << "uref has wrong dimension (it should be " +
+                        std::to_string(actuation_->get_nu()) + ")");
+  }
+}
 
 template <typename Scalar>
 ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
-- 
2.43.0


From fb034b39d840fd4dd81e07133ebcf5d9e0b67a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:55 +0000
Subject: [PATCH 49/94] fix: quadratic barriers check the dimension of their
 bounds and weights

---
 .../core/activations/quadratic-barrier.hpp      |  9 ++++++++-
 .../activations/weighted-quadratic-barrier.hpp  | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..b367922 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -179,7 +179,14 @@ class ActivationModelQuadraticBarrierTpl
   }
 
   const ActivationBounds& get_bounds() const { return bounds_; };
-  void set_bounds(const ActivationBounds& bounds) { bounds_ = bounds; };
+  void set_bounds(const ActivationBounds& bounds) {
+    if (static_cast<std::size_t>(bounds.lb.size()) != nr_) {
+      throw_pretty("Invalid argument: "
+                   << "the bounds have wrong dimension (it should be " +
+                          std::to_string(nr_) + ")");
+    }
+    bounds_ = bounds;
+  };
 
   /**
    * @brief Print relevant information of the quadratic barrier model
diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 2f06f04..dc9f7af 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -36,7 +36,13 @@ class ActivationModelWeightedQuadraticBarrierTpl
 
   explicit ActivationModelWeightedQuadraticBarrierTpl(
       const ActivationBounds& bounds, const VectorXs& weights)
-      : Base(bounds.lb.size()), bounds_(bounds), weights_(weights) {};
+      : Base(bounds.lb.size()), bounds_(bounds), weights_(weights) {
+    if (static_cast<std::size_t>(weights_.size()) != nr_) {
+      throw_pretty("Invalid argument: "
+                   << "weight vector has wrong dimension (it should be " +
+                          std::to_string(nr_) + ")");
+    }
+  };
   virtual ~ActivationModelWeightedQuadraticBarrierTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -92,7 +98,14 @@ class ActivationModelWeightedQuadraticBarrierTpl
 
   const ActivationBounds& get_bounds() const { return bounds_; };
   const VectorXs& get_weights() const { return weights_; };
-  void set_bounds(const ActivationBounds& bounds) { bounds_ = bounds; };
+  void set_bounds(const ActivationBounds& bounds) {
+    if (static_cast<std::size_t>(bounds.lb.size()) != nr_) {
+      throw_pretty("Invalid argument: "
+                   << "the bounds have wrong dimension (it should be " +
+                          std::to_string(nr_) + ")");
+    }
+    bounds_ = bounds;
+  };
   void set_weights(const VectorXs& weights) {
     if (weights.size() != weights_.size()) {
       throw_pretty("Invalid argument: "
-- 
2.43.0


From 2361e4af6158da88ee7ac76edd7c51fb0ba38f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:55 +0000
Subject: [PATCH 50/94] fix: SquashingModelSmoothSat checks the dimension of
 its limits

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..37d5949 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -31,6 +31,12 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
                              const Eigen::Ref<const VectorXs>& u_ub,
                              const std::size_t ns)
       : Base(ns) {
+    if (static_cast<std::size_t>(u_lb.size()) != ns ||
+        static_cast<std::size_t>(u_ub.size()) != ns) {
+      throw_pretty("Invalid argument: "
+                   << "u_lb and u_ub have wrong dimension (it should be " +
+                          std::to_string(ns) + ")");
+    }
     u_lb_ = u_lb;
     u_ub_ = u_ub;
 
-- 
2.43.0


From 79b550e31f1bc35768d16762c060372853a44243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 51/94] fix: keep the state limits when casting the state
 models

---
 include/crocoddyl/core/numdiff/state.hxx    | 2 ++
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index ccac48e..b86eec0 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -213,6 +213,8 @@ template <typename NewScalar>
 StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
   typedef StateNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(state_->template cast<NewScalar>());
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index 9c503a6..66968c0 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -184,6 +184,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 050134ab7284f68ed84dd84748f7af99d0796364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 52/94] fix: keep the time step and weights when casting the
 unicycle model

---
 include/crocoddyl/core/actions/unicycle.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..b88030e 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,8 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 6f566ee4a5ae2a51a0809264aefe0dce7d7fb9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 53/94] fix: keep the control and inequality limits when
 casting action models

---
 include/crocoddyl/core/actions/diff-lqr.hxx    | 4 ++++
 include/crocoddyl/core/actions/lqr.hxx         | 4 ++++
 include/crocoddyl/core/actions/unicycle.hxx    | 2 ++
 include/crocoddyl/core/integrator/euler.hxx    | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx       | 4 ++++
 include/crocoddyl/core/numdiff/action.hxx      | 4 ++++
 include/crocoddyl/core/numdiff/diff-action.hxx | 4 ++++
 7 files changed, 26 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index 5bee72c..539bd62 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -226,6 +226,10 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 78bca51..d4e8387 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -217,6 +217,10 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index b88030e..453ae93 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -117,6 +117,8 @@ ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   ReturnType ret;
   ret.set_dt(scalar_cast<NewScalar>(dt_));
   ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 3b58f7f..7296e05 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 674a452..a2b4580 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -341,10 +341,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 43fbdc4..45ab856 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -348,6 +348,10 @@ template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(model_->template cast<NewScalar>());
+  res.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  res.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  res.set_u_lb(u_lb_.template cast<NewScalar>());
+  res.set_u_ub(u_ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 06620df..aedd25e 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -343,6 +343,10 @@ DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(model_->template cast<NewScalar>());
+  res.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  res.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  res.set_u_lb(u_lb_.template cast<NewScalar>());
+  res.set_u_ub(u_ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 0153a8e8c9a43b8cfd5324621c7dd0661f9fffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 54/94] fix: keep the Gauss-Newton option when casting the
 numdiff action models

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 +-
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 45ab856..d9c1425 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -347,7 +347,7 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
   res.set_g_lb(this->g_lb_.template cast<NewScalar>());
   res.set_g_ub(this->g_ub_.template cast<NewScalar>());
   res.set_u_lb(u_lb_.template cast<NewScalar>());
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index aedd25e..ab1695f 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -342,7 +342,7 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
   res.set_g_lb(this->g_lb_.template cast<NewScalar>());
   res.set_g_ub(this->g_ub_.template cast<NewScalar>());
   res.set_u_lb(u_lb_.template cast<NewScalar>());
-- 
2.43.0


From 149de24221abff0113c27e7ff8cbae0fd22d5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 55/94] fix: keep the smoothness and input bounds when casting
 the smooth-sat squashing

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 37d5949..0538a31 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -81,6 +81,9 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
+    ret.set_s_lb(s_lb_.template cast<NewScalar>());
+    ret.set_s_ub(s_ub_.template cast<NewScalar>());
     return ret;
   }
 
-- 
2.43.0


From e8da43869313ec48d5ccbffa4d3ef506f759f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 56/94] fix: do not shrink the activation bounds twice when
 casting them

---
 include/crocoddyl/core/activations/quadratic-barrier.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index b367922..e48fc7d 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -78,7 +78,9 @@ struct ActivationBoundsTpl {
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
     ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+                   NewScalar(1.));
+    // the bounds are already shrunk by beta
+    res.beta = scalar_cast<NewScalar>(beta);
     return res;
   }
 
-- 
2.43.0


From d5b3b4b0d4f6c5d9759008460704cf1a8b2fe99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 57/94] fix: copy the neutral control of action models

---
 include/crocoddyl/core/action-base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index da6fba9..4791cd5 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -42,6 +42,7 @@ ActionModelAbstractTpl<Scalar>::ActionModelAbstractTpl(
       ng_T_(other.ng_T_),
       nh_T_(other.nh_T_),
       state_(other.state_),
+      unone_(other.unone_),
       g_lb_(other.g_lb_),
       g_ub_(other.g_ub_),
       u_lb_(other.u_lb_),
-- 
2.43.0


From cd56a162780d5be2e4a54664e1662a5bdbf7f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 58/94] fix: keep the limits when copying the LQR models

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 4 ++++
 include/crocoddyl/core/actions/lqr.hxx      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index 539bd62..c7cc794 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -82,6 +82,10 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  this->set_g_lb(copy.get_g_lb());
+  this->set_g_ub(copy.get_g_ub());
+  this->set_u_lb(copy.get_u_lb());
+  this->set_u_ub(copy.get_u_ub());
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index d4e8387..4b0eeec 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -81,6 +81,10 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  this->set_g_lb(copy.get_g_lb());
+  this->set_g_ub(copy.get_g_ub());
+  this->set_u_lb(copy.get_u_lb());
+  this->set_u_ub(copy.get_u_ub());
 }
 
 template <typename Scalar>
-- 
2.43.0


From ef3cf6fc3b8850fc37c41ff03270374aff91fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 59/94] fix: keep the state limits when casting or copying the
 LQR and unicycle models

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 4 ++++
 include/crocoddyl/core/actions/lqr.hxx      | 4 ++++
 include/crocoddyl/core/actions/unicycle.hxx | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index c7cc794..b66eeaf 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -86,6 +86,8 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
   this->set_g_ub(copy.get_g_ub());
   this->set_u_lb(copy.get_u_lb());
   this->set_u_ub(copy.get_u_ub());
+  state_->set_lb(copy.get_state()->get_lb());
+  state_->set_ub(copy.get_state()->get_ub());
 }
 
 template <typename Scalar>
@@ -234,6 +236,8 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
   ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
   ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
   ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 4b0eeec..7f0d664 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -85,6 +85,8 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
   this->set_g_ub(copy.get_g_ub());
   this->set_u_lb(copy.get_u_lb());
   this->set_u_ub(copy.get_u_ub());
+  state_->set_lb(copy.get_state()->get_lb());
+  state_->set_ub(copy.get_state()->get_ub());
 }
 
 template <typename Scalar>
@@ -225,6 +227,8 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
   ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
   ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
   ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index 453ae93..206f265 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -119,6 +119,8 @@ ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
   ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
   ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From dfbb3048751e43455f039802b37ad23daae00fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:55 +0000
Subject: [PATCH 60/94] fix: a cast constraint whose bounds were removed can
 still update them

---
 include/crocoddyl/core/constraints/residual.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index 9a1cd3d..885b441 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -174,11 +174,14 @@ template <typename NewScalar>
 ConstraintModelResidualTpl<NewScalar> ConstraintModelResidualTpl<Scalar>::cast()
     const {
   typedef ConstraintModelResidualTpl<NewScalar> ReturnType;
-  if (type_ == ConstraintType::Inequality) {
+  if (lb_.size() > 0) {
     ReturnType ret(state_->template cast<NewScalar>(),
                    residual_->template cast<NewScalar>(),
                    lb_.template cast<NewScalar>(),
                    ub_.template cast<NewScalar>(), T_constraint_);
+    if (type_ == ConstraintType::Equality) {
+      ret.remove_bounds();
+    }
     return ret;
   } else {
     ReturnType ret(state_->template cast<NewScalar>(),
-- 
2.43.0


From 49e05ac50905bea754e5b89d96755b399b1b777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:36 +0000
Subject: [PATCH 61/94] fix: keep missing activation bounds missing when
 casting them

---
 .../core/activations/quadratic-barrier.hpp       | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index e48fc7d..c6f82f0 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,10 +77,20 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   NewScalar(1.));
-    // the bounds are already shrunk by beta
+    ReturnType res;
+    // lb and ub are already shrunk by beta
+    res.lb = lb.template cast<NewScalar>();
+    res.ub = ub.template cast<NewScalar>();
     res.beta = scalar_cast<NewScalar>(beta);
+    for (std::size_t i = 0; i < static_cast<std::size_t>(lb.size()); ++i) {
+      // the maximum value stands for no bound
+      if (lb(i) == -std::numeric_limits<Scalar>::max()) {
+        res.lb(i) = -std::numeric_limits<NewScalar>::max();
+      }
+      if (ub(i) == std::numeric_limits<Scalar>::max()) {
+        res.ub(i) = std::numeric_limits<NewScalar>::max();
+      }
+    }
     return res;
   }
 
-- 
2.43.0


From da5f07268a03abcf0d0ccad90e1262093ce22553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 62/94] fix: SolverKKT keeps the feasibility flag of an earlier
 solve

---
 src/core/solvers/kkt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 77d16af..c57c170 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -39,6 +39,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const double) {
   resizeData();  // the problem could have been updated
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     try {
-- 
2.43.0


From 0177373b664c99edc791876dd790f5ea5676b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 63/94] fix: FDDP's expected improvement is set even if no step
 can be evaluated

---
 src/core/solvers/fddp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 8e9f573..efdf53e 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -169,6 +169,10 @@ void SolverFDDP::updateExpectedImprovement() {
       dq_ += fs_[t].dot(fTVxx_p_);
     }
   }
+  // No step has been tried yet; the stopping criteria needs it if all of them
+  // fail
+  d_[0] = dg_;
+  d_[1] = dq_;
 }
 
 void SolverFDDP::forwardPass(const double steplength) {
-- 
2.43.0


From 232304de906319ad90dfbde37f920afe22b810bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 64/94] fix: controls of a new horizon start at zero instead of
 uninitialised

---
 src/core/solver-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index a8b7639..19c4ece 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -86,7 +86,7 @@ void SolverAbstract::resizeData() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     const std::size_t ng = model->get_ng();
-    us_[t].conservativeResize(nu);
+    us_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
     g_adj_[t].conservativeResize(ng);
   }
 
-- 
2.43.0


From 1acca3437497f53ee105405494ee7cec4d619957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 65/94] fix: FrictionCone's setters keep the value they correct

set_mu, set_min_nforce and set_max_nforce replaced a negative value by a
valid one, said so, and then stored the negative value.
---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index ff4f22a..639317e 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -232,12 +232,12 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_mu(const Scalar mu) {
+  mu_ = mu;
   if (mu < Scalar(0.)) {
     mu_ = Scalar(1.);
     std::cerr << "Warning: mu has to be a positive value, set to 1."
               << std::endl;
   }
-  mu_ = mu;
 }
 
 template <typename Scalar>
@@ -247,23 +247,23 @@ void FrictionConeTpl<Scalar>::set_inner_appr(const bool inner_appr) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_min_nforce(const Scalar min_nforce) {
+  min_nforce_ = min_nforce;
   if (min_nforce < Scalar(0.)) {
     min_nforce_ = Scalar(0.);
     std::cerr << "Warning: min_nforce has to be a positive value, set to 0"
               << std::endl;
   }
-  min_nforce_ = min_nforce;
 }
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_max_nforce(const Scalar max_nforce) {
+  max_nforce_ = max_nforce;
   if (max_nforce < Scalar(0.)) {
     max_nforce_ = std::numeric_limits<Scalar>::infinity();
     std::cerr << "Warning: max_nforce has to be a positive value, set to "
                  "infinity value"
               << std::endl;
   }
-  max_nforce_ = max_nforce;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 90e2496fb75d2e85bac1f6a0123d580ebedea9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 66/94] fix: FrictionCone's surface normal is the axis of the
 cone

R is the orientation of the cone, so its axis is R's third column. The
functions that take or return a surface normal used the third row.
---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index 639317e..d002ad4 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -137,7 +137,7 @@ void FrictionConeTpl<Scalar>::update(const Vector3s& normal, const Scalar mu,
         << "Warning: normal is not an unitary vector, then we normalized it"
         << std::endl;
   }
-  R_ = Quaternions::FromTwoVectors(nsurf, Vector3s::UnitZ()).toRotationMatrix();
+  R_ = Quaternions::FromTwoVectors(Vector3s::UnitZ(), nsurf).toRotationMatrix();
   set_mu(mu);
   set_inner_appr(inner_appr);
   set_min_nforce(min_nforce);
@@ -183,7 +183,7 @@ const typename MathBaseTpl<Scalar>::Matrix3s& FrictionConeTpl<Scalar>::get_R()
 
 template <typename Scalar>
 typename MathBaseTpl<Scalar>::Vector3s FrictionConeTpl<Scalar>::get_nsurf() {
-  return R_.row(2).transpose();
+  return R_.col(2);
 }
 
 template <typename Scalar>
@@ -227,7 +227,7 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
         << std::endl;
   }
   R_ =
-      Quaternions::FromTwoVectors(normal, Vector3s::UnitZ()).toRotationMatrix();
+      Quaternions::FromTwoVectors(Vector3s::UnitZ(), normal).toRotationMatrix();
 }
 
 template <typename Scalar>
-- 
2.43.0


From da4f10cfad0c03575ac350b4cadb86ba83c9a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 67/94] fix: CoPSupport takes the centre-of-pressure rows of a
 wrench cone

It assigned all rows of the wrench cone to a matrix of four rows.
---
 include/crocoddyl/multibody/cop-support.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 0cef53c..13acc68 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -22,9 +22,9 @@ CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const WrenchConeTpl<Scalar>& other)
-    : A_(other.get_A()),
-      ub_(other.get_ub()),
-      lb_(other.get_lb()),
+    : A_(other.get_A().template middleRows<4>(other.get_nf() + 1)),
+      ub_(other.get_ub().template segment<4>(other.get_nf() + 1)),
+      lb_(other.get_lb().template segment<4>(other.get_nf() + 1)),
       R_(other.get_R()),
       box_(other.get_box()) {}
 
-- 
2.43.0


From b3645f1cd9ef8170489bd6ad13b6bf58161d1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:50 +0000
Subject: [PATCH 68/94] fix: cones and support polygons without box limits have
 no NaN rows

An infinite dimension of the box, which is the default and the value that
replaces a negative dimension, gave rows of infinities and NaNs. It now
leaves the rows of the unlimited direction zero, i.e. always satisfied.
---
 include/crocoddyl/multibody/cop-support.hxx | 14 ++++++++++----
 include/crocoddyl/multibody/wrench-cone.hxx | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 13acc68..50886cd 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -68,10 +68,16 @@ void CoPSupportTpl<Scalar>::update() {
   //  0  0 -L  0 -1  0]
   const Scalar L = box_(0) / Scalar(2.);
   const Scalar W = box_(1) / Scalar(2.);
-  A_.row(0) << -W * R_.col(2).transpose(), R_.col(0).transpose();
-  A_.row(1) << -W * R_.col(2).transpose(), -R_.col(0).transpose();
-  A_.row(2) << -L * R_.col(2).transpose(), R_.col(1).transpose();
-  A_.row(3) << -L * R_.col(2).transpose(), -R_.col(1).transpose();
+  // A surface without a limit along a direction doesn't constrain it
+  const Scalar inf = std::numeric_limits<Scalar>::infinity();
+  if (W < inf) {
+    A_.row(0) << -W * R_.col(2).transpose(), R_.col(0).transpose();
+    A_.row(1) << -W * R_.col(2).transpose(), -R_.col(0).transpose();
+  }
+  if (L < inf) {
+    A_.row(2) << -L * R_.col(2).transpose(), R_.col(1).transpose();
+    A_.row(3) << -L * R_.col(2).transpose(), -R_.col(1).transpose();
+  }
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/multibody/wrench-cone.hxx b/include/crocoddyl/multibody/wrench-cone.hxx
index 6f53dc8..800b84a 100644
--- a/include/crocoddyl/multibody/wrench-cone.hxx
+++ b/include/crocoddyl/multibody/wrench-cone.hxx
@@ -182,12 +182,21 @@ void WrenchConeTpl<Scalar>::update() {
   //  0  0 -W -1  0  0;
   //  0  0 -L  0  1  0;
   //  0  0 -L  0 -1  0]
-  A_.row(nf_ + 1) << -W * R_transpose.row(2), R_transpose.row(0);
-  A_left.row(nf_ + 2) = A_left.row(nf_ + 1);
-  A_right.row(nf_ + 2) = -R_transpose.row(0);
-  A_.row(nf_ + 3) << -L * R_transpose.row(2), R_transpose.row(1);
-  A_left.row(nf_ + 4) = A_left.row(nf_ + 3);
-  A_right.row(nf_ + 4) = -R_transpose.row(1);
+  // A surface without a limit along a direction doesn't constrain it
+  const Scalar inf = std::numeric_limits<Scalar>::infinity();
+  if (W < inf) {
+    A_.row(nf_ + 1) << -W * R_transpose.row(2), R_transpose.row(0);
+    A_left.row(nf_ + 2) = A_left.row(nf_ + 1);
+    A_right.row(nf_ + 2) = -R_transpose.row(0);
+  }
+  if (L < inf) {
+    A_.row(nf_ + 3) << -L * R_transpose.row(2), R_transpose.row(1);
+    A_left.row(nf_ + 4) = A_left.row(nf_ + 3);
+    A_right.row(nf_ + 4) = -R_transpose.row(1);
+  }
+  if (!(L < inf && W < inf)) {
+    return;
+  }
 
   // Yaw-tau information
   const Scalar mu_LW = -mu * (L + W);
-- 
2.43.0


From d3dbf5a5dd8e71a5ad0552414787769afccb79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:07 +0000
Subject: [PATCH 69/94] fix: cones and support polygons correct negative boxes
 they are built with

set_box replaces a negative dimension, the constructors kept it.
---
 include/crocoddyl/multibody/cop-support.hxx | 3 ++-
 include/crocoddyl/multibody/wrench-cone.hxx | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 50886cd..d2f3ec4 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -11,7 +11,8 @@ namespace crocoddyl {
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
-    : R_(R), box_(box) {
+    : R_(R) {
+  set_box(box);
   A_.setZero();
   ub_.setZero();
   lb_.setZero();
diff --git a/include/crocoddyl/multibody/wrench-cone.hxx b/include/crocoddyl/multibody/wrench-cone.hxx
index 800b84a..2b3cea7 100644
--- a/include/crocoddyl/multibody/wrench-cone.hxx
+++ b/include/crocoddyl/multibody/wrench-cone.hxx
@@ -17,7 +17,6 @@ WrenchConeTpl<Scalar>::WrenchConeTpl(const Matrix3s& R, const Scalar mu,
                                      const Scalar max_nforce)
     : nf_(nf),
       R_(R),
-      box_(box),
       mu_(mu),
       inner_appr_(inner_appr),
       min_nforce_(min_nforce),
@@ -42,6 +41,7 @@ WrenchConeTpl<Scalar>::WrenchConeTpl(const Matrix3s& R, const Scalar mu,
                  "infinity value"
               << std::endl;
   }
+  set_box(box);
   A_ = MatrixX6s::Zero(nf_ + 13, 6);
   ub_ = VectorXs::Zero(nf_ + 13);
   lb_ = VectorXs::Zero(nf_ + 13);
@@ -57,7 +57,6 @@ WrenchConeTpl<Scalar>::WrenchConeTpl(const Matrix3s& R, const Scalar mu,
                                      const Scalar max_nforce)
     : nf_(nf),
       R_(R),
-      box_(box),
       mu_(mu),
       inner_appr_(true),
       min_nforce_(min_nforce),
@@ -82,6 +81,7 @@ WrenchConeTpl<Scalar>::WrenchConeTpl(const Matrix3s& R, const Scalar mu,
                  "infinity value"
               << std::endl;
   }
+  set_box(box);
   A_ = MatrixX6s::Zero(nf_ + 13, 6);
   ub_ = VectorXs::Zero(nf_ + 13);
   lb_ = VectorXs::Zero(nf_ + 13);
-- 
2.43.0


From 59e543bbb0ec620bdaf500df94796158aceaa3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 70/94] fix: the reference of ContactModel1D is along its
 constrained axis

---
 include/crocoddyl/multibody/contacts/contact-1d.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-1d.hxx b/include/crocoddyl/multibody/contacts/contact-1d.hxx
index e85096e..dcc5907 100644
--- a/include/crocoddyl/multibody/contacts/contact-1d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-1d.hxx
@@ -82,7 +82,7 @@ void ContactModel1DTpl<Scalar>::calc(
   const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
   if (gains_[0] != Scalar(0.)) {
     d->dp = d->pinocchio->oMf[id_].translation() -
-            (xref_ * Raxis_ * Vector3s::UnitZ());
+            (xref_ * Raxis_.transpose() * Vector3s::UnitZ());
     d->dp_local.noalias() = oRf.transpose() * d->dp;
     d->a0_local += gains_[0] * d->dp_local;
   }
@@ -228,7 +228,7 @@ ContactModel1DTpl<NewScalar> ContactModel1DTpl<Scalar>::cast() const {
 template <typename Scalar>
 void ContactModel1DTpl<Scalar>::print(std::ostream& os) const {
   os << "ContactModel1D {frame=" << state_->get_pinocchio()->frames[id_].name
-     << ", axis=" << (Raxis_ * Vector3s::UnitZ()).transpose() << "}";
+     << ", axis=" << (Raxis_.transpose() * Vector3s::UnitZ()).transpose() << "}";
 }
 
 template <typename Scalar>
-- 
2.43.0


From 598e6e755fe5a02c88341b29faa3045e78192e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 71/94] fix: the force of ContactModel2D is expressed in the
 contact frame

---
 include/crocoddyl/multibody/contacts/contact-2d.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-2d.hxx b/include/crocoddyl/multibody/contacts/contact-2d.hxx
index d4e1d8e..2f662db 100644
--- a/include/crocoddyl/multibody/contacts/contact-2d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-2d.hxx
@@ -134,7 +134,7 @@ void ContactModel2DTpl<Scalar>::updateForce(
   }
   Data* d = static_cast<Data*>(data.get());
   const Eigen::Ref<const Matrix3s> R = d->jMf.rotation();
-  data->f.linear() = R.col(0) * force[0] + R.col(2) * force[1];
+  data->f.linear() << force[0], Scalar(0.), force[1];
   data->f.angular().setZero();
   data->fext.linear() = R.col(0) * force[0] + R.col(2) * force[1];
   data->fext.angular() = d->jMf.translation().cross(data->fext.linear());
-- 
2.43.0


From 2c002c7f96320ae12bea8ef25eb14cf2eb79bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 72/94] fix: contacts and impulses on the same joint add their
 forces

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 ++--
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 3534be4..4d53b37 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -252,7 +252,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
       } else {
         m_i->contact->setZeroForce(d_i);
       }
@@ -273,7 +273,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
         nc += nc_i;
       } else {
         m_i->contact->setZeroForce(d_i);
diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index a4efe87..437c463 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -181,7 +181,7 @@ void ImpulseModelMultipleTpl<Scalar>::updateForce(
       m_i->impulse->updateForce(d_i, force_i);
       const pinocchio::JointIndex joint =
           state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-      data->fext[joint] = d_i->fext;
+      data->fext[joint] += d_i->fext;
       nc += nc_i;
     } else {
       m_i->impulse->setZeroForce(d_i);
-- 
2.43.0


From 1ceb9c0567c55a0aa06818042e16b8e077a84fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 73/94] fix: removing an inactive contact or impulse keeps the
 active dimension

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 +++-
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 4d53b37..ee9fc57 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -60,7 +60,9 @@ template <typename Scalar>
 void ContactModelMultipleTpl<Scalar>::removeContact(const std::string& name) {
   typename ContactModelContainer::iterator it = contacts_.find(name);
   if (it != contacts_.end()) {
-    nc_ -= it->second->contact->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->contact->get_nc();
+    }
     nc_total_ -= it->second->contact->get_nc();
     contacts_.erase(it);
     active_set_.erase(name);
diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index 437c463..f9cc3af 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -41,7 +41,9 @@ template <typename Scalar>
 void ImpulseModelMultipleTpl<Scalar>::removeImpulse(const std::string& name) {
   typename ImpulseModelContainer::iterator it = impulses_.find(name);
   if (it != impulses_.end()) {
-    nc_ -= it->second->impulse->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->impulse->get_nc();
+    }
     nc_total_ -= it->second->impulse->get_nc();
     impulses_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From a83c85a15159dde4caf2c820d80f50b0b151a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 74/94] fix: ImpulseModel6D differentiates its velocity in the
 axes of its Jacobian

---
 include/crocoddyl/multibody/impulses/impulse-6d.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/impulses/impulse-6d.hxx b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
index c617b8b..61e1784 100644
--- a/include/crocoddyl/multibody/impulses/impulse-6d.hxx
+++ b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
@@ -61,7 +61,8 @@ void ImpulseModel6DTpl<Scalar>::calcDiff(
     case pinocchio::ReferenceFrame::LOCAL_WORLD_ALIGNED:
       const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
       d->v0 = pinocchio::getFrameVelocity(*state_->get_pinocchio().get(),
-                                          *d->pinocchio, id_, type_);
+                                          *d->pinocchio, id_,
+                                          pinocchio::LOCAL_WORLD_ALIGNED);
       pinocchio::skew(d->v0.linear(), d->vv_skew);
       pinocchio::skew(d->v0.angular(), d->vw_skew);
       d->vv_world_skew.noalias() = d->vv_skew * oRf;
-- 
2.43.0


From 14c841fb2419bd588d236d61c5ba797feb19e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:17 +0000
Subject: [PATCH 75/94] fix: a cast stack of contacts keeps computing all
 contacts

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index ee9fc57..8de0874 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -427,6 +427,7 @@ ContactModelMultipleTpl<NewScalar> ContactModelMultipleTpl<Scalar>::cast()
     const ContactType& m_i = it_m->second->template cast<NewScalar>();
     ret.addContact(name, m_i.contact, m_i.active);
   }
+  ret.setComputeAllContacts(compute_all_contacts_);
   return ret;
 }
 
-- 
2.43.0


From 8d2e67340855a4d714a872447b3f0a4d390cfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 76/94] fix: StateMultibody's Jacobians overwrite what their
 outputs held

---
 include/crocoddyl/multibody/states/multibody.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index e31619e..2ce4cea 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -132,6 +132,7 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + ")");
     }
 
+    Jfirst.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);
     Jfirst.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)-1;
@@ -143,6 +144,7 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
+    Jsecond.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1);
     Jsecond.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)1;
@@ -161,8 +163,10 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
+    Jfirst.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);
+    Jsecond.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1);
     Jfirst.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)-1;
@@ -192,6 +196,7 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         pinocchio::dIntegrate(*pinocchio_.get(), x.head(nq_), dx.head(nv_),
                               Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0,
                               pinocchio::SETTO);
@@ -225,6 +230,7 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         pinocchio::dIntegrate(*pinocchio_.get(), x.head(nq_), dx.head(nv_),
                               Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1,
                               pinocchio::SETTO);
-- 
2.43.0


From fab3303ea931f24138737cdeb374e74e145ce3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 77/94] fix: StateMultibody checks the dimensions its Jacobians
 of integration are given

---
 .../crocoddyl/multibody/states/multibody.hxx  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index 2ce4cea..d2dd750 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -186,6 +186,16 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
   assert_pretty(is_a_AssignmentOp(op),
                 ("op must be one of the AssignmentOp {settop, addto, rmfrom}"));
+  if (static_cast<std::size_t>(x.size()) != nx_) {
+    throw_pretty(
+        "Invalid argument: " << "x has wrong dimension (it should be " +
+                                    std::to_string(nx_) + ")");
+  }
+  if (static_cast<std::size_t>(dx.size()) != ndx_) {
+    throw_pretty(
+        "Invalid argument: " << "dx has wrong dimension (it should be " +
+                                    std::to_string(ndx_) + ")");
+  }
   if (firstsecond == first || firstsecond == both) {
     if (static_cast<std::size_t>(Jfirst.rows()) != ndx_ ||
         static_cast<std::size_t>(Jfirst.cols()) != ndx_) {
@@ -263,6 +273,21 @@ void StateMultibodyTpl<Scalar>::JintegrateTransport(
   assert_pretty(
       is_a_Jcomponent(firstsecond),
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
+  if (static_cast<std::size_t>(x.size()) != nx_) {
+    throw_pretty(
+        "Invalid argument: " << "x has wrong dimension (it should be " +
+                                    std::to_string(nx_) + ")");
+  }
+  if (static_cast<std::size_t>(dx.size()) != ndx_) {
+    throw_pretty(
+        "Invalid argument: " << "dx has wrong dimension (it should be " +
+                                    std::to_string(ndx_) + ")");
+  }
+  if (static_cast<std::size_t>(Jin.rows()) != ndx_) {
+    throw_pretty(
+        "Invalid argument: " << "Jin has wrong dimension (it should have " +
+                                    std::to_string(ndx_) + " rows)");
+  }
 
   switch (firstsecond) {
     case first:
-- 
2.43.0


From a535c27ccda6277b93d3527ef41f1e6376305874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 78/94] fix: keep the state limits when casting the multibody
 state

---
 include/crocoddyl/multibody/states/multibody.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index d2dd750..a404de9 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -321,6 +321,8 @@ StateMultibodyTpl<NewScalar> StateMultibodyTpl<Scalar>::cast() const {
   typedef pinocchio::ModelTpl<NewScalar> ModelType;
   ReturnType res(
       std::make_shared<ModelType>(pinocchio_->template cast<NewScalar>()));
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 8d9a65f8457b332f5055b0f00b4f67e3db8d13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 79/94] fix: the impulse dynamics' derivatives consider the
 restitution coefficient

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index c16a94a..3e70ea3 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -266,7 +266,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       data->Kinv);
 
   pinocchio::computeForwardKinematicsDerivatives(
-      *pinocchio_, data->pinocchio, q, data->pinocchio.dq_after, data->vnone);
+      *pinocchio_, data->pinocchio, q,
+      data->pinocchio.dq_after + r_coeff_ * v, data->vnone);
   impulses_->calcDiff(data->multibody.impulses, x);
   impulses_->updateRneaDiff(data->multibody.impulses, data->pinocchio);
 
@@ -287,6 +288,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       a_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
   data->Fx.bottomRightCorner(nv, nv).noalias() =
       a_partial_dtau * data->pinocchio.M;
+  data->Fx.bottomRightCorner(nv, nv).noalias() -=
+      r_coeff_ * a_partial_da * data->multibody.impulses->Jc.topRows(nc);
 
   // Computing the cost derivatives
   if (enable_force_) {
@@ -295,7 +298,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
     data->df_dx.topLeftCorner(nc, nv).noalias() +=
         f_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
     data->df_dx.topRightCorner(nc, nv).noalias() =
-        f_partial_da * data->multibody.impulses->Jc.topRows(nc);
+        (Scalar(1.) + r_coeff_) * f_partial_da *
+        data->multibody.impulses->Jc.topRows(nc);
     impulses_->updateVelocityDiff(data->multibody.impulses,
                                   data->Fx.bottomRows(nv));
     impulses_->updateForceDiff(data->multibody.impulses,
-- 
2.43.0


From 8a13643a2cdff346fd35110871476f43ee9e0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 80/94] fix: the impulse dynamics' derivatives consider the
 armature

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 3e70ea3..f32acb5 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -280,6 +280,9 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
   data->pinocchio.M.template triangularView<Eigen::StrictlyLower>() =
       data->pinocchio.M.transpose()
           .template triangularView<Eigen::StrictlyLower>();
+  if (!with_armature_) {
+    data->pinocchio.M.diagonal() += armature_;
+  }
   data->Fx.topLeftCorner(nv, nv).setIdentity();
   data->Fx.topRightCorner(nv, nv).setZero();
   data->Fx.bottomLeftCorner(nv, nv).noalias() =
-- 
2.43.0


From 9a4192f02d4a25c77dda8a9f69bfff6c92152f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 81/94] fix: the derivatives of an impulse model's costs are
 those at the velocity of their values

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index f32acb5..658f333 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -270,6 +270,9 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       data->pinocchio.dq_after + r_coeff_ * v, data->vnone);
   impulses_->calcDiff(data->multibody.impulses, x);
   impulses_->updateRneaDiff(data->multibody.impulses, data->pinocchio);
+  // The costs and constraints are evaluated with the velocity before the impact
+  pinocchio::computeForwardKinematicsDerivatives(*pinocchio_, data->pinocchio,
+                                                 q, v, data->vnone);
 
   Eigen::Block<MatrixXs> a_partial_dtau = data->Kinv.topLeftCorner(nv, nv);
   Eigen::Block<MatrixXs> a_partial_da = data->Kinv.topRightCorner(nv, nc);
-- 
2.43.0


From 107fb7dc3a57fcb32dd9fe1c2df8f155e81ec881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:56 +0000
Subject: [PATCH 82/94] fix: cast multibody action models keep the armature and
 the control limits

---
 include/crocoddyl/multibody/actions/contact-fwddyn.hxx | 10 ++++++++++
 include/crocoddyl/multibody/actions/contact-invdyn.hxx |  4 ++++
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 10 ++++++++++
 include/crocoddyl/multibody/actions/free-invdyn.hxx    |  4 ++++
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx |  6 ++++++
 5 files changed, 34 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
index 04793bf..0fa4712 100644
--- a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
@@ -280,6 +280,11 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -288,6 +293,11 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ContactType>(contacts_->template cast<NewScalar>()),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index b3d60be..87ababa 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -371,6 +371,8 @@ DifferentialActionModelContactInvDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ContactType>(contacts_->template cast<NewScalar>()),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         constraints);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(
@@ -378,6 +380,8 @@ DifferentialActionModelContactInvDynamicsTpl<Scalar>::cast() const {
         actuation_->template cast<NewScalar>(),
         std::make_shared<ContactType>(contacts_->template cast<NewScalar>()),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()));
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 723d2f0..4ae44ba 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -197,12 +197,22 @@ DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()));
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
         std::static_pointer_cast<StateType>(state_->template cast<NewScalar>()),
         actuation_->template cast<NewScalar>(),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()));
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/free-invdyn.hxx b/include/crocoddyl/multibody/actions/free-invdyn.hxx
index 6a30f4d..f88dfd7 100644
--- a/include/crocoddyl/multibody/actions/free-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-invdyn.hxx
@@ -213,12 +213,16 @@ DifferentialActionModelFreeInvDynamicsTpl<Scalar>::cast() const {
         actuation_->template cast<NewScalar>(),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         constraints);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(
         std::static_pointer_cast<StateType>(state_->template cast<NewScalar>()),
         actuation_->template cast<NewScalar>(),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()));
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 658f333..8e9e495 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -158,6 +158,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -166,6 +169,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
-- 
2.43.0


From ba7c58fc414e19f5686f1e02d82ed69543f5b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:56 +0000
Subject: [PATCH 83/94] fix: the quasi-static control of the inverse dynamics
 uses the active contacts only

---
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index 87ababa..d28ac8e 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -312,10 +312,11 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::quasiStatic(
   contacts_->calc(d->multibody.contacts, d->tmp_xstatic);
   contacts_->setComputeAllContacts(true);
 
-  d->tmp_Jstatic.conservativeResize(nv, nu + nc);
+  const std::size_t nc_active = contacts_->get_nc();
+  d->tmp_Jstatic.conservativeResize(nv, nu + nc_active);
   d->tmp_Jstatic.leftCols(nu) = d->multibody.actuation->dtau_du;
-  d->tmp_Jstatic.rightCols(nc) =
-      d->multibody.contacts->Jc.topRows(nc).transpose();
+  d->tmp_Jstatic.rightCols(nc_active) =
+      d->multibody.contacts->Jc.topRows(nc_active).transpose();
   d->tmp_rstatic.noalias() = pseudoInverse(d->tmp_Jstatic) * d->pinocchio.tau;
   if (nc != 0) {
     nc = 0;
-- 
2.43.0


From d47b2cfcece05047272eb88214bc9687fb0fb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:37 +0000
Subject: [PATCH 84/94] fix: the force residual of the inverse dynamics is the
 control also for inactive contacts

---
 .../multibody/residuals/contact-force.hxx     | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-force.hxx b/include/crocoddyl/multibody/residuals/contact-force.hxx
index 28096aa..60ee279 100644
--- a/include/crocoddyl/multibody/residuals/contact-force.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-force.hxx
@@ -59,9 +59,29 @@ ResidualModelContactForceTpl<Scalar>::ResidualModelContactForceTpl(
 template <typename Scalar>
 void ResidualModelContactForceTpl<Scalar>::calc(
     const std::shared_ptr<ResidualDataAbstract>& data,
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
+    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>& u) {
   Data* d = static_cast<Data*>(data.get());
 
+  // In the inverse dynamics, the forces of all the contacts (also the inactive
+  // ones) are control inputs
+  if (!fwddyn_) {
+    data->r.noalias() = data->Ru * u;
+    switch (d->contact_type) {
+      case Contact1D:
+        data->r -= fref_.linear().row(2);
+        break;
+      case Contact3D:
+        data->r -= fref_.linear();
+        break;
+      case Contact6D:
+        data->r -= fref_.toVector();
+        break;
+      default:
+        break;
+    }
+    return;
+  }
+
   // We transform the force to the contact frame
   switch (d->contact_type) {
     case Contact1D:
-- 
2.43.0


From e42b6f2cfd2e5631ac074c1931ffe11a1e363022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:25 +0000
Subject: [PATCH 85/94] fix: free and inverse dynamics update the centre of
 mass and the momentum used by their costs

---
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 1 +
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 2 ++
 include/crocoddyl/multibody/actions/free-invdyn.hxx    | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index d28ac8e..526a38e 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -152,6 +152,7 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::calc(
                   d->multibody.contacts->fext);
   pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
   pinocchio::centerOfMass(*pinocchio_, d->pinocchio, q, v, a);
+  pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   actuation_->commands(d->multibody.actuation, x, d->pinocchio.tau);
   d->multibody.joint->a = a;
   d->multibody.joint->tau = d->multibody.actuation->u;
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 4ae44ba..1688ea2 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -65,6 +65,7 @@ void DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::calc(
     d->xout = pinocchio::aba(*pinocchio_, d->pinocchio, q, v,
                              d->multibody.actuation->tau);
     pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
+    pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   } else {
     pinocchio::computeAllTerms(*pinocchio_, d->pinocchio, q, v);
     d->pinocchio.M.diagonal() += armature_;
@@ -140,6 +141,7 @@ void DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::calcDiff(
     pinocchio::computeABADerivatives(
         *pinocchio_, d->pinocchio, q, v, d->multibody.actuation->tau,
         d->Fx.leftCols(nv), d->Fx.rightCols(nv), d->pinocchio.Minv);
+    pinocchio::jacobianCenterOfMass(*pinocchio_, d->pinocchio, false);
     d->Fx.noalias() += d->pinocchio.Minv * d->multibody.actuation->dtau_dx;
     d->Fu.noalias() = d->pinocchio.Minv * d->multibody.actuation->dtau_du;
   } else {
diff --git a/include/crocoddyl/multibody/actions/free-invdyn.hxx b/include/crocoddyl/multibody/actions/free-invdyn.hxx
index f88dfd7..f24c198 100644
--- a/include/crocoddyl/multibody/actions/free-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-invdyn.hxx
@@ -100,6 +100,7 @@ void DifferentialActionModelFreeInvDynamicsTpl<Scalar>::calc(
   d->xout = u;
   pinocchio::rnea(*pinocchio_, d->pinocchio, q, v, u);
   pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
+  pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   actuation_->commands(d->multibody.actuation, x, d->pinocchio.tau);
   d->multibody.joint->a = u;
   d->multibody.joint->tau = d->multibody.actuation->u;
@@ -159,6 +160,7 @@ void DifferentialActionModelFreeInvDynamicsTpl<Scalar>::calcDiff(
   d->pinocchio.M.template triangularView<Eigen::StrictlyLower>() =
       d->pinocchio.M.template triangularView<Eigen::StrictlyUpper>()
           .transpose();
+  pinocchio::jacobianCenterOfMass(*pinocchio_, d->pinocchio, false);
   actuation_->calcDiff(d->multibody.actuation, x, d->multibody.joint->tau);
   actuation_->torqueTransform(d->multibody.actuation, x,
                               d->multibody.joint->tau);
-- 
2.43.0


From 4a305c67bc85e55b68a07d12f824f4ee99f4aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:25 +0000
Subject: [PATCH 86/94] fix: impulse models differentiate the velocity after
 the impact also without forces

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 8e9e495..23aa24d 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -303,6 +303,9 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
   data->Fx.bottomRightCorner(nv, nv).noalias() -=
       r_coeff_ * a_partial_da * data->multibody.impulses->Jc.topRows(nc);
 
+  impulses_->updateVelocityDiff(data->multibody.impulses,
+                                data->Fx.bottomRows(nv));
+
   // Computing the cost derivatives
   if (enable_force_) {
     data->df_dx.topLeftCorner(nc, nv).noalias() =
@@ -312,8 +315,6 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
     data->df_dx.topRightCorner(nc, nv).noalias() =
         (Scalar(1.) + r_coeff_) * f_partial_da *
         data->multibody.impulses->Jc.topRows(nc);
-    impulses_->updateVelocityDiff(data->multibody.impulses,
-                                  data->Fx.bottomRows(nv));
     impulses_->updateForceDiff(data->multibody.impulses,
                                data->df_dx.topRows(nc));
   }
-- 
2.43.0


From 0e50b66a9fdb1215c7e6d2b5bedf64700f8abf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:25 +0000
Subject: [PATCH 87/94] fix: contact residuals of the inverse dynamics follow
 their control and reference

---
 .../multibody/residuals/contact-cop-position.hxx       | 10 +++++++++-
 .../multibody/residuals/contact-friction-cone.hxx      | 10 +++++++++-
 .../multibody/residuals/contact-wrench-cone.hxx        | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
index dd38c78..dde5674 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
@@ -32,9 +32,17 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
 template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::calc(
     const std::shared_ptr<ResidualDataAbstract>& data,
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
+    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>& u) {
   Data* d = static_cast<Data*>(data.get());
 
+  // In the inverse dynamics, the forces of all the contacts (also the inactive
+  // ones) are control inputs
+  if (!fwddyn_) {
+    updateJacobians(data);
+    data->r.noalias() = data->Ru * u;
+    return;
+  }
+
   // Compute the residual residual r =  A * f
   data->r.noalias() = cref_.get_A() * d->contact->f.toVector();
 }
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
index 73fdcd7..f2348db 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
@@ -52,9 +52,17 @@ ResidualModelContactFrictionConeTpl<Scalar>::
 template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::calc(
     const std::shared_ptr<ResidualDataAbstract>& data,
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
+    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>& u) {
   Data* d = static_cast<Data*>(data.get());
 
+  // In the inverse dynamics, the forces of all the contacts (also the inactive
+  // ones) are control inputs
+  if (!fwddyn_) {
+    updateJacobians(data);
+    data->r.noalias() = data->Ru * u;
+    return;
+  }
+
   // Compute the residual of the friction cone. Note that we need to transform
   // the force to the contact frame
   data->r.noalias() = fref_.get_A() * d->contact->f.linear();
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
index a57e3d1..bb34d77 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
@@ -48,9 +48,17 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
 template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::calc(
     const std::shared_ptr<ResidualDataAbstract>& data,
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
+    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>& u) {
   Data* d = static_cast<Data*>(data.get());
 
+  // In the inverse dynamics, the forces of all the contacts (also the inactive
+  // ones) are control inputs
+  if (!fwddyn_) {
+    updateJacobians(data);
+    data->r.noalias() = data->Ru * u;
+    return;
+  }
+
   // Compute the residual of the wrench cone. Note that we need to transform the
   // wrench to the contact frame
   data->r.noalias() = fref_.get_A() * d->contact->f.toVector();
-- 
2.43.0


From 1d812583c5437170a240c8d860cc78be3f2b345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:48 +0000
Subject: [PATCH 88/94] fix: the contact force residual refuses contacts of
 another dimension

---
 include/crocoddyl/multibody/residuals/contact-force.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/crocoddyl/multibody/residuals/contact-force.hpp b/include/crocoddyl/multibody/residuals/contact-force.hpp
index 953e548..385aff5 100644
--- a/include/crocoddyl/multibody/residuals/contact-force.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-force.hpp
@@ -352,6 +352,14 @@ struct ResidualDataContactForceTpl : public ResidualDataAbstractTpl<_Scalar> {
           "Domain error: there isn't defined contact/impulse data for " +
           frame_name);
     }
+    const std::size_t nc = contact_type == Contact1D   ? 1
+                           : contact_type == Contact3D ? 3
+                                                       : 6;
+    if (model->get_nr() != nc) {
+      throw_pretty("Invalid argument: the contact/impulse for "
+                   << frame_name << " has another dimension (it should be " +
+                          std::to_string(nc) + ")");
+    }
   }
   virtual ~ResidualDataContactForceTpl() = default;
 
-- 
2.43.0


From cc904c8d93e6b29c923eebfe8a39201093e4d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:48 +0000
Subject: [PATCH 89/94] fix: the CoP residual refuses frames that do not exist

---
 .../residuals/contact-cop-position.hxx         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
index dde5674..631e39d 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
@@ -17,7 +17,14 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
       fwddyn_(fwddyn),
       update_jacobians_(true),
       id_(id),
-      cref_(cref) {}
+      cref_(cref) {
+  if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
+      id) {
+    throw_pretty(
+        "Invalid argument: "
+        << "the frame index is wrong (it does not exist in the robot)");
+  }
+}
 
 template <typename _Scalar>
 ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
@@ -27,7 +34,14 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
       fwddyn_(true),
       update_jacobians_(true),
       id_(id),
-      cref_(cref) {}
+      cref_(cref) {
+  if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
+      id) {
+    throw_pretty(
+        "Invalid argument: "
+        << "the frame index is wrong (it does not exist in the robot)");
+  }
+}
 
 template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::calc(
-- 
2.43.0


From 3e168301726fd9c50959b5aee59949c84c5fd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:56 +0000
Subject: [PATCH 90/94] fix: set_thrusters replaces the thrusters' mapping

The columns of the mapping from thrusts to the base's wrench were accumulated,
so that a new set of thrusters added to the wrenches of the old ones.
---
 .../multibody/actuations/floating-base-thrusters.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index ccc5c60..f823332 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -305,8 +305,8 @@ class ActuationModelFloatingBaseThrustersTpl
     for (std::size_t i = 0; i < n_thrusters_; ++i) {
       const Thruster& p = thrusters_[i];
       const Vector3s& f_z = p.pose.rotation() * Vector3s::UnitZ();
-      W_thrust_.template topRows<3>().col(i) += f_z;
-      W_thrust_.template middleRows<3>(3).col(i).noalias() +=
+      W_thrust_.template topRows<3>().col(i) = f_z;
+      W_thrust_.template middleRows<3>(3).col(i).noalias() =
           p.pose.translation().cross(f_z);
       switch (p.type) {
         case CW:
-- 
2.43.0


From ecf6d4b394a853ad77d5b1f13e42f101e4cee4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 91/94] fix: a new set of thrusters reaches all data

Only the first data evaluated (or created) after set_thrusters followed it, and
commands and torqueTransform used the old thrusters until the next calc.
---
 .../actuations/floating-base-thrusters.hpp    | 31 ++++---------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index f823332..5f5f8ab 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -170,8 +170,7 @@ class ActuationModelFloatingBaseThrustersTpl
                  thrusters.size()),
         thrusters_(thrusters),
         n_thrusters_(thrusters.size()),
-        W_thrust_(state_->get_nv(), nu_),
-        update_data_(true) {
+        W_thrust_(state_->get_nv(), nu_) {
     if (!state->get_pinocchio()->existJointName("root_joint")) {
       throw_pretty(
           "Invalid argument: "
@@ -205,9 +204,7 @@ class ActuationModelFloatingBaseThrustersTpl
           "Invalid argument: " << "u has wrong dimension (it should be " +
                                       std::to_string(nu_) + ")");
     }
-    if (update_data_) {
-      updateData(data);
-    }
+    updateData(data);
     data->tau.noalias() = data->dtau_du * u;
   }
 
@@ -219,37 +216,23 @@ class ActuationModelFloatingBaseThrustersTpl
    * @param[in] x     State point \f$\mathbf{x}\in\mathbb{R}^{ndx}\f$
    * @param[in] u     Joint-torque input \f$\mathbf{u}\in\mathbb{R}^{nu}\f$
    */
-#ifndef NDEBUG
   virtual void calcDiff(const std::shared_ptr<Data>& data,
                         const Eigen::Ref<const VectorXs>&,
                         const Eigen::Ref<const VectorXs>&) override {
-#else
-  virtual void calcDiff(const std::shared_ptr<Data>&,
-                        const Eigen::Ref<const VectorXs>&,
-                        const Eigen::Ref<const VectorXs>&) override {
-#endif
-    // The derivatives has constant values which were set in createData.
-    assert_pretty(MatrixXs(data->dtau_du).isApprox(W_thrust_),
-                  "dtau_du has wrong value");
+    updateData(data);
   }
 
   virtual void commands(const std::shared_ptr<Data>& data,
                         const Eigen::Ref<const VectorXs>&,
                         const Eigen::Ref<const VectorXs>& tau) override {
+    updateData(data);
     data->u.noalias() = data->Mtau * tau;
   }
 
-#ifndef NDEBUG
   virtual void torqueTransform(const std::shared_ptr<Data>& data,
                                const Eigen::Ref<const VectorXs>&,
                                const Eigen::Ref<const VectorXs>&) override {
-#else
-  virtual void torqueTransform(const std::shared_ptr<Data>&,
-                               const Eigen::Ref<const VectorXs>&,
-                               const Eigen::Ref<const VectorXs>&) override {
-#endif
-    // The torque transform has constant values which were set in createData.
-    assert_pretty(MatrixXs(data->Mtau).isApprox(Mtau_), "Mtau has wrong value");
+    updateData(data);
   }
 
   /**
@@ -321,7 +304,6 @@ class ActuationModelFloatingBaseThrustersTpl
     // torque inputs
     Mtau_ = pseudoInverse(W_thrust_);
     S_.noalias() = W_thrust_ * Mtau_;
-    update_data_ = true;
   }
 
   const MatrixXs& get_Wthrust() const { return W_thrust_; }
@@ -345,11 +327,11 @@ class ActuationModelFloatingBaseThrustersTpl
                    //!< joint torque inputs
   MatrixXs S_;     //!< Selection matrix for under-actuation part
 
-  bool update_data_;
   using Base::nu_;
   using Base::state_;
 
  private:
+  // The model's thrusters might have been changed since data was created
   void updateData(const std::shared_ptr<Data>& data) {
     data->dtau_du = W_thrust_;
     data->Mtau = Mtau_;
@@ -357,7 +339,6 @@ class ActuationModelFloatingBaseThrustersTpl
     for (std::size_t k = 0; k < nv; ++k) {
       data->tau_set[k] = if_static(S_(k, k));
     }
-    update_data_ = false;
   }
 
   // Use for floating-point types
-- 
2.43.0


From d8b8fd3d6581a07e015729bc43a05f75a3a20ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 92/94] fix: the thrusters' commands refuse torques of wrong
 dimension

---
 .../multibody/actuations/floating-base-thrusters.hpp         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index 5f5f8ab..e8ec4a0 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -225,6 +225,11 @@ class ActuationModelFloatingBaseThrustersTpl
   virtual void commands(const std::shared_ptr<Data>& data,
                         const Eigen::Ref<const VectorXs>&,
                         const Eigen::Ref<const VectorXs>& tau) override {
+    if (static_cast<std::size_t>(tau.size()) != state_->get_nv()) {
+      throw_pretty(
+          "Invalid argument: " << "tau has wrong dimension (it should be " +
+                                      std::to_string(state_->get_nv()) + ")");
+    }
     updateData(data);
     data->u.noalias() = data->Mtau * tau;
   }
-- 
2.43.0


From b24ea1c316275e1596ccabc6ef0d21137df4cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:09 +0000
Subject: [PATCH 93/94] fix: inverse dynamics refuse actuations that leave
 another number of joints unactuated

The constraint on the unactuated joints has nv - nu rows, but one per joint
that is not actuated was written: redundant thrusters wrote out of bounds or
dropped the constraint, and tilted ones left rows unset, so that motions the
actuation cannot produce were accepted.
---
 .../multibody/actions/contact-invdyn.hxx          | 15 +++++++++++++++
 .../crocoddyl/multibody/actions/free-invdyn.hxx   | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index 526a38e..ad4643c 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -6,6 +6,8 @@
 // All rights reserved.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
+
 #include "crocoddyl/core/constraints/residual.hpp"
 #include "crocoddyl/multibody/residuals/contact-force.hpp"
 
@@ -65,6 +67,11 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::init(
         << "Costs doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
+  if (actuation_->get_nu() > state->get_nv()) {
+    throw_pretty("Invalid argument: "
+                 << "the actuation has more controls than joints (" +
+                        std::to_string(state->get_nv()) + ")");
+  }
   const std::size_t nu = actuation_->get_nu();
   const std::size_t nc = contacts_->get_nc_total();
   VectorXs lb =
@@ -154,6 +161,14 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::calc(
   pinocchio::centerOfMass(*pinocchio_, d->pinocchio, q, v, a);
   pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   actuation_->commands(d->multibody.actuation, x, d->pinocchio.tau);
+  const std::vector<bool>& tau_set = d->multibody.actuation->tau_set;
+  if (static_cast<std::size_t>(
+          std::count(tau_set.begin(), tau_set.end(), false)) !=
+      nv - actuation_->get_nu()) {
+    throw_pretty("Invalid argument: "
+                 << "the number of unactuated joints should be " +
+                        std::to_string(nv - actuation_->get_nu()));
+  }
   d->multibody.joint->a = a;
   d->multibody.joint->tau = d->multibody.actuation->u;
   actuation_->calc(d->multibody.actuation, x, d->multibody.joint->tau);
diff --git a/include/crocoddyl/multibody/actions/free-invdyn.hxx b/include/crocoddyl/multibody/actions/free-invdyn.hxx
index f24c198..2c7deb0 100644
--- a/include/crocoddyl/multibody/actions/free-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-invdyn.hxx
@@ -6,6 +6,8 @@
 // All rights reserved.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
+
 #include "crocoddyl/core/constraints/residual.hpp"
 
 namespace crocoddyl {
@@ -58,6 +60,11 @@ void DifferentialActionModelFreeInvDynamicsTpl<Scalar>::init(
                     "should be " +
                         std::to_string(nu_) + ")");
   }
+  if (actuation_->get_nu() > state->get_nv()) {
+    throw_pretty("Invalid argument: "
+                 << "the actuation has more controls than joints (" +
+                        std::to_string(state->get_nv()) + ")");
+  }
   VectorXs lb =
       VectorXs::Constant(nu_, -std::numeric_limits<Scalar>::infinity());
   VectorXs ub =
@@ -102,6 +109,14 @@ void DifferentialActionModelFreeInvDynamicsTpl<Scalar>::calc(
   pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
   pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   actuation_->commands(d->multibody.actuation, x, d->pinocchio.tau);
+  const std::vector<bool>& tau_set = d->multibody.actuation->tau_set;
+  if (static_cast<std::size_t>(
+          std::count(tau_set.begin(), tau_set.end(), false)) !=
+      nv - actuation_->get_nu()) {
+    throw_pretty("Invalid argument: "
+                 << "the number of unactuated joints should be " +
+                        std::to_string(nv - actuation_->get_nu()));
+  }
   d->multibody.joint->a = u;
   d->multibody.joint->tau = d->multibody.actuation->u;
   actuation_->calc(d->multibody.actuation, x, d->multibody.joint->tau);
-- 
2.43.0


From 41648c05f571c2c52efa92f96323d627a0fa6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 94/94] fix: the pair-collision residual compiles and defines
 its pair accessors

---
 .../multibody/residuals/pair-collision.hxx    | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/pair-collision.hxx b/include/crocoddyl/multibody/residuals/pair-collision.hxx
index 1315c72..415cf99 100644
--- a/include/crocoddyl/multibody/residuals/pair-collision.hxx
+++ b/include/crocoddyl/multibody/residuals/pair-collision.hxx
@@ -50,8 +50,9 @@ void ResidualModelPairCollisionTpl<Scalar>::calc(
   pinocchio::computeDistance(*geom_model_.get(), d->geometry, pair_id_);
 
   // calculate residual
-  data->r = d->geometry.distanceResults[pair_id_].nearest_points[0] -
-            d->geometry.distanceResults[pair_id_].nearest_points[1];
+  data->r = (d->geometry.distanceResults[pair_id_].nearest_points[0] -
+             d->geometry.distanceResults[pair_id_].nearest_points[1])
+                .template cast<Scalar>();
 }
 
 template <typename Scalar>
@@ -64,7 +65,9 @@ void ResidualModelPairCollisionTpl<Scalar>::calcDiff(
 
   // calculate the vector from the joint jointId to the collision p1, expressed
   // in world frame
-  d->d = d->geometry.distanceResults[pair_id_].nearest_points[0] -
+  d->d = d->geometry.distanceResults[pair_id_]
+             .nearest_points[0]
+             .template cast<Scalar>() -
          d->pinocchio->oMi[joint_id_].translation();
   pinocchio::getJointJacobian(pin_model_, *d->pinocchio, joint_id_,
                               pinocchio::LOCAL_WORLD_ALIGNED, d->J);
@@ -79,13 +82,13 @@ void ResidualModelPairCollisionTpl<Scalar>::calcDiff(
 
 template <typename Scalar>
 template <typename NewScalar>
-ResidualModelAbstractTpl<NewScalar>
+ResidualModelPairCollisionTpl<NewScalar>
 ResidualModelPairCollisionTpl<Scalar>::cast() const {
   typedef ResidualModelPairCollisionTpl<NewScalar> ReturnType;
   typedef StateMultibodyTpl<NewScalar> StateType;
   ReturnType ret(
-      std::make_shared<StateType>(state_->template cast<NewScalar>()), nu_,
-      geom_model_, pair_id_, joint_id_);
+      std::static_pointer_cast<StateType>(state_->template cast<NewScalar>()),
+      nu_, geom_model_, pair_id_, joint_id_);
   return ret;
 }
 
@@ -103,6 +106,24 @@ ResidualModelPairCollisionTpl<Scalar>::get_geometry() const {
   return *geom_model_.get();
 }
 
+template <typename Scalar>
+pinocchio::PairIndex ResidualModelPairCollisionTpl<Scalar>::get_pair_id()
+    const {
+  return pair_id_;
+}
+
+template <typename Scalar>
+void ResidualModelPairCollisionTpl<Scalar>::set_pair_id(
+    const pinocchio::PairIndex pair_id) {
+  if (static_cast<pinocchio::PairIndex>(geom_model_->collisionPairs.size()) <=
+      pair_id) {
+    throw_pretty(
+        "Invalid argument: "
+        << "the pair index is wrong (it does not exist in the geometry model)");
+  }
+  pair_id_ = pair_id;
+}
+
 }  // namespace crocoddyl
 
 #endif  // PINOCCHIO_WITH_HPP_FCL
-- 
2.43.0

