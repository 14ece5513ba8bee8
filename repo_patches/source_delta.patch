From cd50c5ff969c58edfb7d95a4437a5a7ddd137c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/91] fix: ActionDataLQR takes the state columns of G and H
 for odd nx

---
 include/crocoddyl/core/actions/lqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..d159e2a 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -303,16 +303,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
-- 
2.43.0


From 83de67379d9540dd15d12dc7932a8e3f6eb73212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 02/91] fix: LQR actions update every data after set_LQR

---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  1 -
 include/crocoddyl/core/actions/lqr.hxx      | 43 +++++++-----------
 4 files changed, 34 insertions(+), 59 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index d159e2a..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 64381aa6bed157313bf0c09b5189fc8d90b89e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 03/91] fix: set_runningModels stores the given models

---
 include/crocoddyl/core/optctrl/shooting.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..d547915 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -459,7 +459,7 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < models.size(); ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -477,7 +477,7 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
   running_models_.clear();
   running_datas_.clear();
   for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
+    const std::shared_ptr<ActionModelAbstract>& model = models[i];
     running_models_.push_back(model);
     running_datas_.push_back(model->createData());
   }
-- 
2.43.0


From 18d42569e613efd385b2abdfaf39d68d7adc4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 04/91] fix: initialise the updated flag and thread count in
 every ShootingProblem constructor

---
 include/crocoddyl/core/optctrl/shooting.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index d547915..ea788e4 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -134,7 +135,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From a43a2d2fa3084cad4d143b37280b778b84df0405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 05/91] fix: BoxQP line search uses the gradient, not its
 opposite, in the Armijo condition

---
 src/core/solvers/box-qp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..92e4b7b 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -159,7 +159,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     dx_.setZero();
     for (std::size_t i = 0; i < nf_; ++i) {
       dx_(solution_.free_idx[i]) = dxf(i);
-      g_(solution_.free_idx[i]) = -qf(i);
+      g_(solution_.free_idx[i]) = qf(i);
     }
 
     // Try different step lengths
-- 
2.43.0


From 986813482794860f87851f1f0c3905cdb94a66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 06/91] fix: BoxQP takes a projected gradient step when the
 projected Newton step is no descent

---
 src/core/solvers/box-qp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 92e4b7b..d6e12bb 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -163,6 +163,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     }
 
     // Try different step lengths
+    bool accepted = false;
     fold_ = 0.5 * x_.dot(H * x_) + q.dot(x_);
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
@@ -174,10 +175,21 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
       fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_);
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
+        accepted = true;
         break;
       }
     }
 
+    // The projected Newton direction might not be a descent one when it leaves
+    // the box (Bertsekas, 1982). In this case, we take a projected gradient
+    // step, which always decreases the cost.
+    if (!accepted && nf_ != 0) {
+      const double L = H.cwiseAbs().rowwise().sum().maxCoeff() + reg_;
+      for (std::size_t i = 0; i < nx_; ++i) {
+        x_(i) = std::max(std::min(x_(i) - g_(i) / L, ub(i)), lb(i));
+      }
+    }
+
     // Check convergence
     if (qf.lpNorm<Eigen::Infinity>() <= th_grad_) {
       solution_.x = x_;
-- 
2.43.0


From e992da4777c97374c071fc3367f035ded13ceebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 07/91] fix: multiplyByJacobian_J and its transpose start from
 a zero matrix

---
 include/crocoddyl/core/control-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..7a8f762 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -33,7 +33,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs AJ(A.rows(), nu_);
+  MatrixXs AJ = MatrixXs::Zero(A.rows(), nu_);
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -43,7 +43,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs JTA(nu_, A.cols());
+  MatrixXs JTA = MatrixXs::Zero(nu_, A.cols());
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From 85a1637108912e4ab8a89bad1a119cee1d0e3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 08/91] fix: StateVector::Jintegrate sets the whole Jacobian
 with setto

---
 include/crocoddyl/core/states/euclidean.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..01ff26b 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,7 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
-        Jfirst.diagonal().array() = Scalar(1.);
+        Jfirst.setIdentity();
         break;
       case addto:
         Jfirst.diagonal().array() += Scalar(1.);
@@ -149,7 +149,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
-        Jsecond.diagonal().array() = Scalar(1.);
+        Jsecond.setIdentity();
         break;
       case addto:
         Jsecond.diagonal().array() += Scalar(1.);
-- 
2.43.0


From 44af35e6748e9e87dd63aa3a93c146d8fa9b34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 09/91] fix: StateNumDiff honours the assignment operator and
 transports by the numerical Jacobian

---
 include/crocoddyl/core/numdiff/state.hxx | 47 +++++++++++++++++++-----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..25c1aeb 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -145,7 +145,7 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                          Eigen::Ref<MatrixXs> Jfirst,
                                          Eigen::Ref<MatrixXs> Jsecond,
                                          const Jcomponent firstsecond,
-                                         const AssignmentOp) const {
+                                         const AssignmentOp op) const {
   assert_pretty(
       is_a_Jcomponent(firstsecond),
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
@@ -162,6 +162,24 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
   VectorXs tmp_x_ = VectorXs::Zero(nx_);
   VectorXs dx_ = VectorXs::Zero(ndx_);
   VectorXs x0_ = VectorXs::Zero(nx_);
+  MatrixXs J_ = MatrixXs::Zero(ndx_, ndx_);
+  const auto assign = [&J_, op](Eigen::Ref<MatrixXs> J) {
+    switch (op) {
+      case setto:
+        J = J_;
+        break;
+      case addto:
+        J += J_;
+        break;
+      case rmfrom:
+        J -= J_;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
+  };
 
   // x0_ = integrate(x, dx)
   integrate(x, dx, x0_);
@@ -175,15 +193,16 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jfirst.setZero();
+    J_.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = xh_jac;
       integrate(x, dx_, tmp_x_);
       integrate(tmp_x_, dx, tmp_x_);
-      diff(x0_, tmp_x_, Jfirst.col(i));
+      diff(x0_, tmp_x_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jfirst /= xh_jac;
+    J_ /= xh_jac;
+    assign(Jfirst);
   }
   if (firstsecond == second || firstsecond == both) {
     const Scalar dxh_jac = e_jac_ * std::max(Scalar(1.), dx.norm());
@@ -194,14 +213,15 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jsecond.setZero();
+    J_.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = dxh_jac;
       integrate(x, dx + dx_, tmp_x_);
-      diff(x0_, tmp_x_, Jsecond.col(i));
+      diff(x0_, tmp_x_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jsecond /= dxh_jac;
+    J_ /= dxh_jac;
+    assign(Jsecond);
   }
 }
 
@@ -215,8 +235,17 @@ StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
 
 template <typename Scalar>
 void StateNumDiffTpl<Scalar>::JintegrateTransport(
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&,
-    Eigen::Ref<MatrixXs>, const Jcomponent) const {}
+    const Eigen::Ref<const VectorXs>& x, const Eigen::Ref<const VectorXs>& dx,
+    Eigen::Ref<MatrixXs> Jin, const Jcomponent firstsecond) const {
+  if (firstsecond != first && firstsecond != second) {
+    throw_pretty(
+        "Invalid argument: firstsecond must be either first or second. both "
+        "not supported for this operation.");
+  }
+  MatrixXs J = MatrixXs::Zero(ndx_, ndx_);
+  Jintegrate(x, dx, J, J, firstsecond, setto);
+  Jin = (J * Jin).eval();
+}
 
 template <typename Scalar>
 const Scalar StateNumDiffTpl<Scalar>::get_disturbance() const {
-- 
2.43.0


From dd8ef3c92aa85af95642ac317a41a59ce5193129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 10/91] fix: ActivationModelWeightedQuad refreshes the Hessian
 of every data after set_weights

---
 .../core/activations/weighted-quadratic.hpp   | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..3ee7b72 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,14 +56,7 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
@@ -71,10 +64,6 @@ class ActivationModelWeightedQuadTpl
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
 
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +83,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +99,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 3f8b4bc5876f102ab13188b728272941cdfb3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 11/91] fix: Hessian of the weighted quadratic barrier uses
 squared weights, as its value

---
 .../crocoddyl/core/activations/weighted-quadratic-barrier.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 01eb433..2f06f04 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -75,7 +75,7 @@ class ActivationModelWeightedQuadraticBarrierTpl
                        Scalar(0.), Scalar(1.), Scalar(0.)));
     }
 
-    data->Arr.diagonal().array() *= weights_.array();
+    data->Arr.diagonal().array() *= weights_.array().square();
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
-- 
2.43.0


From 04890cccee9016f447be0342776ecb2da477d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 12/91] fix: Hessians of the smooth 1-norm and 2-norm
 activations for any eps and dimension

---
 include/crocoddyl/core/activations/smooth-1norm.hpp | 2 +-
 include/crocoddyl/core/activations/smooth-2norm.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/smooth-1norm.hpp b/include/crocoddyl/core/activations/smooth-1norm.hpp
index 9ccb0ff..c2843ea 100644
--- a/include/crocoddyl/core/activations/smooth-1norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-1norm.hpp
@@ -103,7 +103,7 @@ class ActivationModelSmooth1NormTpl
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = r.cwiseProduct(d->a.cwiseInverse());
     data->Arr.diagonal() =
-        d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
+        eps_ * d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
   };
 
   /**
diff --git a/include/crocoddyl/core/activations/smooth-2norm.hpp b/include/crocoddyl/core/activations/smooth-2norm.hpp
index 3e8493d..aec5049 100644
--- a/include/crocoddyl/core/activations/smooth-2norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-2norm.hpp
@@ -91,7 +91,9 @@ class ActivationModelSmooth2NormTpl
     }
 
     data->Ar = r / data->a_value;
-    data->Arr.diagonal().array() = Scalar(1) / pow(data->a_value, Scalar(3));
+    data->Arr.diagonal().array() =
+        (data->a_value * data->a_value - r.array().square()) /
+        pow(data->a_value, Scalar(3));
   };
 
   /**
-- 
2.43.0


From 9a8927377e3927d55aeafa1c5bf952a71d5c0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 13/91] fix: initialise the dynamics flag in every
 ResidualModelJointEffort constructor

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From c579c05dcc97f9691289367894b9b6d98f9e47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 14/91] fix: terminal Jacobian of the joint-acceleration
 residual is zero, as its value

---
 include/crocoddyl/core/residuals/joint-acceleration.hpp | 7 +++++++
 include/crocoddyl/core/residuals/joint-acceleration.hxx | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hpp b/include/crocoddyl/core/residuals/joint-acceleration.hpp
index 055a3e2..42f2778 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hpp
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hpp
@@ -126,6 +126,13 @@ class ResidualModelJointAccelerationTpl
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override;
 
+  /**
+   * @brief @copydoc Base::calcDiff(const std::shared_ptr<ResidualDataAbstract>&
+   * data, const Eigen::Ref<const VectorXs>& x)
+   */
+  virtual void calcDiff(const std::shared_ptr<ResidualDataAbstract>& data,
+                        const Eigen::Ref<const VectorXs>& x) override;
+
   /**
    * @brief Create the joint-acceleration residual data
    */
diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hxx b/include/crocoddyl/core/residuals/joint-acceleration.hxx
index 5d81e04..19fd6e9 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hxx
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hxx
@@ -70,6 +70,13 @@ void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
   data->Ru = d->joint->da_du;
 }
 
+template <typename Scalar>
+void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
+    const std::shared_ptr<ResidualDataAbstract>& data,
+    const Eigen::Ref<const VectorXs>&) {
+  data->Rx.setZero();
+}
+
 template <typename Scalar>
 std::shared_ptr<ResidualDataAbstractTpl<Scalar> >
 ResidualModelJointAccelerationTpl<Scalar>::createData(
-- 
2.43.0


From 9a25fd57636ee9899e24cab09d17a61e1f351f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 15/91] fix: squashed actuation reports the inner Jacobian with
 respect to the state

---
 include/crocoddyl/core/actuation/actuation-squashing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..0955d5d 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -58,6 +58,7 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
 
     squashing_->calcDiff(d->squashing, u);
     actuation_->calcDiff(d->actuation, x, d->squashing->u);
+    data->dtau_dx = d->actuation->dtau_dx;
     data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;
   };
 
-- 
2.43.0


From a2a8df057b1ca96aaa6cd11604ba160e2f757d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 16/91] fix: removing an inactive cost keeps the active
 residual dimension

---
 include/crocoddyl/core/costs/cost-sum.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..dc9bbba 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -71,7 +71,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From d015d152e5ec7c307f3841f7a331d6bf02fafd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 17/91] fix: adding a cost item whose name exists leaves the
 cost sum unchanged

---
 include/crocoddyl/core/costs/cost-sum.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index dc9bbba..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
-- 
2.43.0


From 617f6823fc15647dee1e0451817d18bcfd47380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 18/91] fix: constraints validate the given bounds, not the old
 ones, and their dimension

---
 include/crocoddyl/core/constraint-base.hxx      | 8 ++++----
 include/crocoddyl/core/constraints/residual.hxx | 8 +++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..adabb06 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -118,14 +118,14 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
     throw_pretty(
         "Invalid argument: the upper bound is not higher than the lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a negative "
         "infinity/min value");
diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index a5574c4..8f61803 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -14,6 +14,12 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
     std::shared_ptr<ResidualModelAbstract> residual, const VectorXs& lower,
     const VectorXs& upper, const bool T_act)
     : Base(state, residual, residual->get_nr(), 0) {
+  if (static_cast<std::size_t>(lower.size()) != residual->get_nr() ||
+      static_cast<std::size_t>(upper.size()) != residual->get_nr()) {
+    throw_pretty(
+        "Invalid argument: the dimension of the lower/upper bound is not the "
+        "same to nr.")
+  }
   lb_ = lower;
   ub_ = upper;
   for (std::size_t i = 0; i < residual_->get_nr(); ++i) {
@@ -32,7 +38,7 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
         "infinity/max value");
   }
   if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+      (ub_.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a negative "
         "infinity/max value");
-- 
2.43.0


From a0b59af64de95de458db78cb64047a7d51f8c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 19/91] fix: constraint manager keeps its bounds defined after
 every change of its constraints

---
 .../core/constraints/constraint-manager.hpp   |  5 +++
 .../core/constraints/constraint-manager.hxx   | 37 +++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 1c6d112..82bb778 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -278,6 +278,11 @@ class ConstraintModelManagerTpl {
       std::ostream& os, const ConstraintModelManagerTpl<Scalar>& model);
 
  private:
+  /**
+   * @brief Stack the bounds of the active inequality constraints
+   */
+  void update_bounds();
+
   std::shared_ptr<StateAbstract> state_;  //!< State description
   ConstraintModelContainer constraints_;  //!< Stack of constraint items
   VectorXs lb_;                           //!< Lower bound of the constraint
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index fde4255..96af822 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -58,8 +58,7 @@ void ConstraintModelManagerTpl<Scalar>::addConstraint(
       nh_T_ += constraint->get_nh();
     }
     active_set_.insert(name);
-    lb_.resize(ng_);
-    ub_.resize(ng_);
+    update_bounds();
   } else if (!active) {
     inactive_set_.insert(name);
   }
@@ -77,13 +76,12 @@ void ConstraintModelManagerTpl<Scalar>::removeConstraint(
         ng_T_ -= it->second->constraint->get_ng();
         nh_T_ -= it->second->constraint->get_nh();
       }
-      lb_.resize(ng_);
-      ub_.resize(ng_);
       active_set_.erase(name);
     } else {
       inactive_set_.erase(name);
     }
     constraints_.erase(it);
+    update_bounds();
   } else {
     std::cout << "Warning: we couldn't remove the " << name
               << " constraint item, it doesn't exist." << std::endl;
@@ -105,8 +103,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.insert(name);
       inactive_set_.erase(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      update_bounds();
     } else if (!active && it->second->active) {
       ng_ -= it->second->constraint->get_ng();
       nh_ -= it->second->constraint->get_nh();
@@ -117,8 +114,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.erase(name);
       inactive_set_.insert(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      update_bounds();
     }
   } else {
     std::cout << "Warning: we couldn't change the status of the " << name
@@ -126,6 +122,23 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
   }
 }
 
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::update_bounds() {
+  lb_.resize(ng_);
+  ub_.resize(ng_);
+  std::size_t ng_i = 0;
+  typename ConstraintModelContainer::const_iterator it;
+  for (it = constraints_.begin(); it != constraints_.end(); ++it) {
+    const std::shared_ptr<ConstraintItem>& m_i = it->second;
+    if (m_i->active) {
+      const std::size_t ng = m_i->constraint->get_ng();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
+      ng_i += ng;
+    }
+  }
+}
+
 template <typename Scalar>
 void ConstraintModelManagerTpl<Scalar>::calc(
     const std::shared_ptr<ConstraintDataManager>& data,
@@ -170,8 +183,8 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
       ng_i += ng;
       nh_i += nh;
     }
@@ -217,8 +230,8 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
       ng_i += ng;
       nh_i += nh;
     }
-- 
2.43.0


From 9bc879174d91e9ec0d81673645d60c7344d97c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 20/91] fix: ConstraintDataManager::resize allocates the memory
 it maps

---
 include/crocoddyl/core/constraints/constraint-manager.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 82bb778..91bd5e0 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -368,6 +368,12 @@ struct ConstraintDataManagerTpl {
     const std::size_t nu = model->get_nu();
     const std::size_t ng = running_node ? model->get_ng() : model->get_ng_T();
     const std::size_t nh = running_node ? model->get_nh() : model->get_nh_T();
+    g_internal.conservativeResize(ng);
+    Gx_internal.conservativeResize(ng, ndx);
+    Gu_internal.conservativeResize(ng, nu);
+    h_internal.conservativeResize(nh);
+    Hx_internal.conservativeResize(nh, ndx);
+    Hu_internal.conservativeResize(nh, nu);
     new (&g) Eigen::Map<VectorXs>(g_internal.data(), ng);
     new (&Gx) Eigen::Map<MatrixXs>(Gx_internal.data(), ng, ndx);
     new (&Gu) Eigen::Map<MatrixXs>(Gu_internal.data(), ng, nu);
-- 
2.43.0


From af384e2ff77da007985dd41835a661b5a4208eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 21/91] fix: reject joint-effort references of wrong dimension
 at construction

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 29c0824..93c5abc 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -20,6 +20,11 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
       actuation_(actuation),
       uref_(uref),
       fwddyn_(fwddyn) {
+  if (static_cast<std::size_t>(uref_.size()) != nr_) {
+    throw_pretty("Invalid argument: "
+                 << "uref has wrong dimension (it should be " +
+                        std::to_string(nr_) + ")");
+  }
   if (nu_ == 0) {
     throw_pretty("Invalid argument: "
                  << "it seems to be an autonomous system, if so, don't add "
@@ -34,7 +39,13 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
       uref_(uref),
-      fwddyn_(false) {}
+      fwddyn_(false) {
+  if (static_cast<std::size_t>(uref_.size()) != nr_) {
+    throw_pretty("Invalid argument: "
+                 << "uref has wrong dimension (it should be " +
+                        std::to_string(nr_) + ")");
+  }
+}
 
 template <typename Scalar>
 ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
-- 
2.43.0


From 9c0c9250d4298e87a18c6307191bf7b0d32d073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 22/91] fix: derivative of the first RK stage for RK3 and
 Lie-group states

---
 include/crocoddyl/core/integrator/rk.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..188695e 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -206,11 +206,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
     //   is ki_data.Fx
     d->dki_dx[i].topRows(nv) = d->dyi_dx[i].bottomRows(nv);
     dkvi_dq.noalias() = dki_dqi * dqi_dq;
-    if (i == 1) {
-      dkvi_dv = time_step_ / Scalar(2.) * dki_dqi;
-    } else {
-      dkvi_dv.noalias() = dki_dqi * dqi_dv;
-    }
+    dkvi_dv.noalias() = dki_dqi * dqi_dv;
     dkvi_dq.noalias() += dki_dvi * dvi_dq;
     dkvi_dv.noalias() += dki_dvi * dvi_dv;
     //  ii. d->dki_du[i].noalias() = d->dki_dy[i] * d->dyi_du[i], where dki_dy
-- 
2.43.0


From 291f73104edc9bbbf2d4ed6ddf609735451800c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 23/91] fix: checkData of integrated actions dereferenced null
 for foreign data

---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..fd538f0 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 188695e..26306a1 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -353,7 +353,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From c7f195e7a86172fe16540a92b9b3b308a43095a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 24/91] fix: BoxDDP forward pass rolls out the terminal state
 too

---
 src/core/solvers/box-ddp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..39bc580 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -153,12 +153,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
-- 
2.43.0


From 562d23c45335ea87baf2d25eae3a400d7d2ebfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 25/91] fix: SolverIpopt reports the feasibility of its result,
 not of the warm start

---
 src/core/solvers/ipopt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 4b6f4e3..d5b9e52 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -43,8 +43,10 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
   cost_ = ipopt_iface_->get_cost();
   iter_ = ipopt_app_->Statistics()->IterationCount();
 
-  return ipopt_status_ == Ipopt::Solve_Succeeded ||
-         ipopt_status_ == Ipopt::Solved_To_Acceptable_Level;
+  // The claim about the warm start does not hold for the returned trajectory
+  is_feasible_ = ipopt_status_ == Ipopt::Solve_Succeeded ||
+                 ipopt_status_ == Ipopt::Solved_To_Acceptable_Level;
+  return is_feasible_;
 }
 
 void SolverIpopt::resizeData() {
-- 
2.43.0


From 85599068f5b1d0e5782aa607cf1491a45b2e0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 26/91] fix: SolverIpopt resizes its data for edited problems
 and does not accumulate constraints

---
 src/core/solvers/ipopt.cpp             | 3 +++
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index d5b9e52..50c0e88 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -28,6 +28,9 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
+  if (problem_->is_updated()) {
+    resizeData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..44cb6c0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,7 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From d24881867fe5f06ba953609804c8764aaf892672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 27/91] fix: IpoptInterface::eval_f starts the objective from
 zero

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 44cb6c0..7bfed1c 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -263,6 +263,7 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
     model->calc(data, datas_[t]->x, datas_[t]->u);
   }
 
+  obj_value = 0.;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp simd reduction(+ : obj_value)
 #endif
-- 
2.43.0


From 13d7b9b8d5ced48af55bb66f8e45c20f2e6aeb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 28/91] fix: IpoptInterface::eval_h scales the terminal Hessian
 by the objective factor

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 7bfed1c..e2e9d11 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -703,7 +703,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 568ad92c98d373f80f12b1b7fabeb2cc2fb4e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 29/91] fix: IpoptInterface evaluates the models at the given
 point before their derivatives

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index e2e9d11..5ad9f28 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -496,6 +496,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
@@ -642,6 +643,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-- 
2.43.0


From cf6c0404cb34b5dbd6dfc9e4c9949907d1dccc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 30/91] fix: inequality feasibility takes the maximum (LInf) or
 the sum (L1) over all nodes

---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..994e7a7 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -147,8 +147,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ = std::max(
+            tmp_feas_, (problem_->get_terminalData()->g - g_adj_.back())
+                           .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -157,8 +158,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From a4587279dab561eca87906542e564152eeba3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 31/91] fix: box solvers size the QP for each node's control
 dimension

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 39bc580..ec926c0 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -77,6 +77,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
 
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
 
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..85c5b06 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -76,6 +76,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
 
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
 
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
-- 
2.43.0


From a05467ae3c4d7b5f7d6263e69886633208948064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 32/91] fix: increase a zero regularization in DDP-type solvers

---
 src/core/solvers/ddp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..ac2636f 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -9,6 +9,9 @@
 
 #include "crocoddyl/core/solvers/ddp.hpp"
 
+#include <algorithm>
+#include <limits>
+
 namespace crocoddyl {
 
 SolverDDP::SolverDDP(std::shared_ptr<ShootingProblem> problem)
@@ -396,7 +399,11 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ == 0.) {
+    preg_ = std::max(reg_min_, std::numeric_limits<double>::epsilon());
+  } else {
+    preg_ *= reg_incfactor_;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 7bb23ac467942058f2e612bf246cefef08a25844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:29 +0000
Subject: [PATCH 33/91] fix: SolverIntro's Schur solver used the equality
 residuals of a rejected trial

---
 include/crocoddyl/core/solvers/intro.hpp |  3 +++
 src/core/solvers/intro.cpp               | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/intro.hpp b/include/crocoddyl/core/solvers/intro.hpp
index 7f446a7..dba0d97 100644
--- a/include/crocoddyl/core/solvers/intro.hpp
+++ b/include/crocoddyl/core/solvers/intro.hpp
@@ -195,6 +195,9 @@ class SolverIntro : public SolverFDDP {
   std::vector<Eigen::MatrixXd>
       Ks_;  //!< Feedback gain related to the equality constraints
   std::vector<Eigen::MatrixXd> QuuinvHuT_;
+  std::vector<Eigen::VectorXd>
+      h_;  //!< Equality constraints of the candidate, kept for the Schur solver
+           //!< as the line search overwrites the ones in the node data
   std::vector<Eigen::LLT<Eigen::MatrixXd> > Qzz_llt_;  //!< Cholesky LLT solver
   std::vector<Eigen::FullPivLU<Eigen::MatrixXd> >
       Hu_lu_;  //!< Full-pivot LU solvers used for computing the span and
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..0c9ae62 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -33,6 +33,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
   ks_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
+  h_.resize(T);
   Qzz_llt_.resize(T);
   Hu_lu_.resize(T);
   Hu_qr_.resize(T);
@@ -58,6 +59,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     ks_[t] = Eigen::VectorXd::Zero(nh);
     Ks_[t] = Eigen::MatrixXd::Zero(nh, ndx);
     QuuinvHuT_[t] = Eigen::MatrixXd::Zero(nu, nh);
+    h_[t] = Eigen::VectorXd::Zero(nh);
     Qzz_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nh);
     Hu_lu_[t] = Eigen::FullPivLU<Eigen::MatrixXd>(nh, nu);
     Hu_qr_[t] = Eigen::ColPivHouseholderQR<Eigen::MatrixXd>(nu, nh);
@@ -219,6 +221,7 @@ void SolverIntro::resizeData() {
     ks_[t].conservativeResize(nh);
     Ks_[t].conservativeResize(nh, ndx);
     QuuinvHuT_[t].conservativeResize(nu, nh);
+    h_[t].conservativeResize(nh);
   }
   STOP_PROFILER("SolverIntro::resizeData");
 }
@@ -287,6 +290,11 @@ double SolverIntro::calcDiff() {
       }
       break;
     case Schur:
+      for (std::size_t t = 0; t < T; ++t) {
+        if (models[t]->get_nu() > 0 && models[t]->get_nh() > 0) {
+          h_[t] = datas[t]->h;
+        }
+      }
       break;
   }
 
@@ -386,7 +394,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h;
+        ks_[t] = h_[t];
         ks_[t].noalias() -= data->Hu * k_[t];
         Ks_[t] = data->Hx;
         Ks_[t].noalias() -= data->Hu * K_[t];
-- 
2.43.0


From 80aaa71075214f63afd6ff6175f6f4b74195f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 34/91] fix: one-sided control limits count as control limits

---
 include/crocoddyl/core/action-base.hxx      | 2 +-
 include/crocoddyl/core/diff-action-base.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index f059805..da6fba9 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -241,7 +241,7 @@ void ActionModelAbstractTpl<Scalar>::set_u_ub(const VectorXs& u_ub) {
 template <typename Scalar>
 void ActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
diff --git a/include/crocoddyl/core/diff-action-base.hxx b/include/crocoddyl/core/diff-action-base.hxx
index 623763b..f013a4c 100644
--- a/include/crocoddyl/core/diff-action-base.hxx
+++ b/include/crocoddyl/core/diff-action-base.hxx
@@ -225,7 +225,7 @@ void DifferentialActionModelAbstractTpl<Scalar>::set_u_ub(
 template <typename Scalar>
 void DifferentialActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
-- 
2.43.0


From 8b89743b288a39cd51523d1321936b38ac29f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 35/91] fix: box solvers count controls moving to their limits
 in the improvement

---
 src/core/solvers/box-ddp.cpp  | 8 ++++++--
 src/core/solvers/box-fddp.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index ec926c0..04a5562 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -102,10 +102,14 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     k_[t] = -boxqp_sol.x;
 
     // The box-QP clamped the gradient direction; this is important for
-    // accounting the algorithm advancement (i.e. stopping criteria)
+    // accounting the algorithm advancement (i.e. stopping criteria). Controls
+    // that still move towards their limit keep their gradient, as this motion
+    // contributes to the expected improvement.
     START_PROFILER("SolverBoxDDP::Qu_proj");
     for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
-      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
+      if (k_[t](boxqp_sol.clamped_idx[i]) == 0.) {
+        Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
+      }
     }
     STOP_PROFILER("SolverBoxDDP::Qu_proj");
   }
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 85c5b06..faddebc 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -95,9 +95,13 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
     k_[t] = -boxqp_sol.x;
 
     // The box-QP clamped the gradient direction; this is important for
-    // accounting the algorithm advancement (i.e. stopping criteria)
+    // accounting the algorithm advancement (i.e. stopping criteria). Controls
+    // that still move towards their limit keep their gradient, as this motion
+    // contributes to the expected improvement.
     for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
-      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
+      if (k_[t](boxqp_sol.clamped_idx[i]) == 0.) {
+        Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
+      }
     }
   }
 }
-- 
2.43.0


From 4f0f66e431e550411fd2977410f52ffbf5e2d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 36/91] fix: check the whole warm start before storing any of
 it in setCandidate

---
 src/core/solver-base.cpp | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 994e7a7..a68717a 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -216,13 +216,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  if (xs_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      xs_[t] = model->get_state()->zero();
-    }
-    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
-  } else {
+  // Check both lists before changing the current candidate
+  if (xs_warm.size() != 0) {
     if (xs_warm.size() != T + 1) {
       throw_pretty("Warm start state vector has wrong dimension, got "
                    << xs_warm.size() << " expecting " << (T + 1));
@@ -249,16 +244,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                           std::to_string(nx) + "). ActionModel: "
                    << *problem_->get_terminalModel());
     }
-    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
   }
-
-  if (us_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::size_t nu = model->get_nu();
-      us_[t] = Eigen::VectorXd::Zero(nu);
-    }
-  } else {
+  if (us_warm.size() != 0) {
     if (us_warm.size() != T) {
       throw_pretty("Warm start control has wrong dimension, got "
                    << us_warm.size() << " expecting " << T);
@@ -276,6 +263,24 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                      << *model);
       }
     }
+  }
+
+  if (xs_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      xs_[t] = model->get_state()->zero();
+    }
+    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
+  } else {
+    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
+  }
+  if (us_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::size_t nu = model->get_nu();
+      us_[t] = Eigen::VectorXd::Zero(nu);
+    }
+  } else {
     std::copy(us_warm.begin(), us_warm.end(), us_.begin());
   }
   is_feasible_ = is_feasible;
-- 
2.43.0


From 908842f604ba3d47c16ab2e16330909d979fe21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 37/91] fix: resize the solver data in every solve, also when
 another solver of the problem cleared the updated flag

---
 src/core/solvers/ddp.cpp   | 6 +++---
 src/core/solvers/fddp.cpp  | 6 +++---
 src/core/solvers/intro.cpp | 6 +++---
 src/core/solvers/ipopt.cpp | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index ac2636f..3328be4 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -46,9 +46,9 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double init_reg) {
   START_PROFILER("SolverDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // The updated flag is cleared by whoever reads it first (e.g., another solver
+  // of this problem); so we do not rely on it to find out about new dimensions
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..df2e70c 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -25,9 +25,9 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::size_t maxiter, const bool is_feasible,
                        const double init_reg) {
   START_PROFILER("SolverFDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // The updated flag is cleared by whoever reads it first (e.g., another solver
+  // of this problem); so we do not rely on it to find out about new dimensions
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 0c9ae62..f9b5104 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -74,9 +74,9 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::size_t maxiter, const bool is_feasible,
                         const double init_reg) {
   START_PROFILER("SolverIntro::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // The updated flag is cleared by whoever reads it first (e.g., another solver
+  // of this problem); so we do not rely on it to find out about new dimensions
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 50c0e88..47f9368 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -28,9 +28,9 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // The updated flag is cleared by whoever reads it first (e.g., another solver
+  // of this problem); so we do not rely on it to find out about new dimensions
+  resizeData();
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
-- 
2.43.0


From 0878a6907fb75c59157aea31cf15728f0dd45b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 38/91] fix: resize the KKT solver's data when its problem was
 edited and forget the previous solve's feasibility

---
 include/crocoddyl/core/solvers/kkt.hpp | 1 +
 src/core/solvers/kkt.cpp               | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/solvers/kkt.hpp b/include/crocoddyl/core/solvers/kkt.hpp
index f9f9970..bd2990b 100644
--- a/include/crocoddyl/core/solvers/kkt.hpp
+++ b/include/crocoddyl/core/solvers/kkt.hpp
@@ -27,6 +27,7 @@ class SolverKKT : public SolverAbstract {
       const std::vector<Eigen::VectorXd>& init_us = DEFAULT_VECTOR,
       const std::size_t maxiter = 100, const bool is_feasible = false,
       const double regInit = 1e-9);
+  virtual void resizeData();
   virtual void computeDirection(const bool recalc = true);
   virtual double tryStep(const double steplength = 1);
   virtual double stoppingCriteria();
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..a4fb0a5 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,7 +37,9 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  resizeData();
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     while (true) {
@@ -86,6 +88,11 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
   return false;
 }
 
+void SolverKKT::resizeData() {
+  SolverAbstract::resizeData();
+  allocateData();
+}
+
 void SolverKKT::computeDirection(const bool recalc) {
   const std::size_t T = problem_->get_T();
   if (recalc) {
-- 
2.43.0


From 8fc53b630a246f6985ee0bd11e1c495b3485254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 39/91] fix: BoxQP rejects acceptance thresholds outside (0,
 0.5)

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index d6e12bb..bd90469 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -28,7 +28,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -229,7 +229,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From 41748cbb26ac2ce9479a0d6e9ed1651c090095fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 40/91] fix: set_alphas rejects empty step lists and
 non-positive first steps

---
 src/core/solvers/box-qp.cpp | 6 ++++++
 src/core/solvers/ddp.cpp    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index bd90469..fba237d 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -251,7 +251,13 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas has to be non-empty.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 3328be4..4a8d54f 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -571,7 +571,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas has to be non-empty.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From 3a0c7674bad3b332ac1f4fbfe95f5a6812cdb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 41/91] fix: set_alpha of the activations rejects negative
 values as the constructors do

---
 include/crocoddyl/core/activations/2norm-barrier.hpp      | 7 ++++++-
 include/crocoddyl/core/activations/quadratic-flat-exp.hpp | 7 ++++++-
 include/crocoddyl/core/activations/quadratic-flat-log.hpp | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/2norm-barrier.hpp b/include/crocoddyl/core/activations/2norm-barrier.hpp
index 7af172b..c25c6db 100644
--- a/include/crocoddyl/core/activations/2norm-barrier.hpp
+++ b/include/crocoddyl/core/activations/2norm-barrier.hpp
@@ -144,7 +144,12 @@ class ActivationModel2NormBarrierTpl
    * @brief Get and set the threshold factor
    */
   const Scalar& get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar& alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar& alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the 2-norm barrier model
diff --git a/include/crocoddyl/core/activations/quadratic-flat-exp.hpp b/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
index f03653f..dd6eef4 100644
--- a/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
+++ b/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
@@ -122,7 +122,12 @@ class ActivationModelQuadFlatExpTpl
   }
 
   Scalar get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the quadratic flat-exp model
diff --git a/include/crocoddyl/core/activations/quadratic-flat-log.hpp b/include/crocoddyl/core/activations/quadratic-flat-log.hpp
index 4f4c19c..67b3429 100644
--- a/include/crocoddyl/core/activations/quadratic-flat-log.hpp
+++ b/include/crocoddyl/core/activations/quadratic-flat-log.hpp
@@ -120,7 +120,12 @@ class ActivationModelQuadFlatLogTpl
   }
 
   Scalar get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the quadratic flat-log model
-- 
2.43.0


From b5a2e36f6a4bf1c6c6448bf4f697f06d865d7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 42/91] fix: quadratic barriers reject bounds and weights of
 another dimension

---
 .../core/activations/quadratic-barrier.hpp      |  9 ++++++++-
 .../activations/weighted-quadratic-barrier.hpp  | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..2b37df3 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -179,7 +179,14 @@ class ActivationModelQuadraticBarrierTpl
   }
 
   const ActivationBounds& get_bounds() const { return bounds_; };
-  void set_bounds(const ActivationBounds& bounds) { bounds_ = bounds; };
+  void set_bounds(const ActivationBounds& bounds) {
+    if (static_cast<std::size_t>(bounds.lb.size()) != nr_) {
+      throw_pretty(
+          "Invalid argument: " << "bounds have wrong dimension (it should be " +
+                                      std::to_string(nr_) + ")");
+    }
+    bounds_ = bounds;
+  };
 
   /**
    * @brief Print relevant information of the quadratic barrier model
diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 2f06f04..14699b9 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -36,7 +36,13 @@ class ActivationModelWeightedQuadraticBarrierTpl
 
   explicit ActivationModelWeightedQuadraticBarrierTpl(
       const ActivationBounds& bounds, const VectorXs& weights)
-      : Base(bounds.lb.size()), bounds_(bounds), weights_(weights) {};
+      : Base(bounds.lb.size()), bounds_(bounds), weights_(weights) {
+    if (weights.size() != bounds.lb.size()) {
+      throw_pretty("Invalid argument: "
+                   << "weight vector has wrong dimension (it should be " +
+                          std::to_string(bounds.lb.size()) + ")");
+    }
+  };
   virtual ~ActivationModelWeightedQuadraticBarrierTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -92,7 +98,14 @@ class ActivationModelWeightedQuadraticBarrierTpl
 
   const ActivationBounds& get_bounds() const { return bounds_; };
   const VectorXs& get_weights() const { return weights_; };
-  void set_bounds(const ActivationBounds& bounds) { bounds_ = bounds; };
+  void set_bounds(const ActivationBounds& bounds) {
+    if (static_cast<std::size_t>(bounds.lb.size()) != nr_) {
+      throw_pretty(
+          "Invalid argument: " << "bounds have wrong dimension (it should be " +
+                                      std::to_string(nr_) + ")");
+    }
+    bounds_ = bounds;
+  };
   void set_weights(const VectorXs& weights) {
     if (weights.size() != weights_.size()) {
       throw_pretty("Invalid argument: "
-- 
2.43.0


From f1e5b556589a57cee9b1a930b95575a28df1b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 43/91] fix: SquashingModelSmoothSat rejects bounds of another
 dimension

---
 .../crocoddyl/core/actuation/squashing/smooth-sat.hpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..f9e3fc4 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -31,6 +31,16 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
                              const Eigen::Ref<const VectorXs>& u_ub,
                              const std::size_t ns)
       : Base(ns) {
+    if (static_cast<std::size_t>(u_lb.size()) != ns) {
+      throw_pretty(
+          "Invalid argument: " << "u_lb has wrong dimension (it should be " +
+                                      std::to_string(ns) + ")");
+    }
+    if (static_cast<std::size_t>(u_ub.size()) != ns) {
+      throw_pretty(
+          "Invalid argument: " << "u_ub has wrong dimension (it should be " +
+                                      std::to_string(ns) + ")");
+    }
     u_lb_ = u_lb;
     u_ub_ = u_ub;
 
-- 
2.43.0


From 38519ac6ac0285bea6378e17b9b7cb66b70c7f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:14 +0000
Subject: [PATCH 44/91] fix: set_LQR rejects A and B with a wrong number of
 columns

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 14 +++++++++-----
 include/crocoddyl/core/actions/lqr.hxx      | 11 +++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..ad169da 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -357,20 +357,24 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
     throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+        "Invalid argument: " << "B has wrong dimension (it should be " +
+                                    std::to_string(nq) + " x " +
+                                    std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..6e63bd4 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -339,15 +339,18 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
     throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+        "Invalid argument: " << "B has wrong dimension (it should be " +
+                                    std::to_string(nx) + " x " +
+                                    std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0


From 6ff759d23683bc116af1983a0c3a1798aa03f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:14 +0000
Subject: [PATCH 45/91] fix: the ShootingProblem constructor with datas checks
 the terminal dimensions

---
 include/crocoddyl/core/optctrl/shooting.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index ea788e4..ca486c3 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -111,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
-- 
2.43.0


From c752bff5a3da902f07323bdd5405d1b49cd51da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 46/91] fix: NumDiff actions keep the control and constraint
 bounds of the wrapped model

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 ++
 include/crocoddyl/core/numdiff/diff-action.hxx | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..c94d67f 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -24,6 +24,8 @@ ActionModelNumDiffTpl<Scalar>::ActionModelNumDiffTpl(
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
   this->set_u_lb(model_->get_u_lb());
   this->set_u_ub(model_->get_u_ub());
+  this->g_lb_ = model_->get_g_lb();
+  this->g_ub_ = model_->get_g_ub();
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..32dd434 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -24,6 +24,10 @@ DifferentialActionModelNumDiffTpl<Scalar>::DifferentialActionModelNumDiffTpl(
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
   if (with_gauss_approx_ && nr_ == 1)
     throw_pretty("No Gauss approximation possible with nr = 1");
+  this->set_u_lb(model_->get_u_lb());
+  this->set_u_ub(model_->get_u_ub());
+  this->g_lb_ = model_->get_g_lb();
+  this->g_ub_ = model_->get_g_ub();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 13b647abae8e345f963fc6d1e0ffe2eaaade84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 47/91] fix: NumDiff actions return the cost residual of the
 wrapped model

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 ++
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index c94d67f..f671f46 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -46,6 +46,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  data->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -63,6 +64,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  data->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 32dd434..c38c9a7 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -48,6 +48,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  data->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -65,6 +66,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  data->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
-- 
2.43.0


From ab54868e2f98430eec595cf5200cc6ab38b9182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 48/91] fix: ConstraintModelNumDiff keeps the bounds of the
 wrapped constraint

---
 include/crocoddyl/core/numdiff/constraint.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/numdiff/constraint.hxx b/include/crocoddyl/core/numdiff/constraint.hxx
index 41ca28c..65895bf 100644
--- a/include/crocoddyl/core/numdiff/constraint.hxx
+++ b/include/crocoddyl/core/numdiff/constraint.hxx
@@ -16,7 +16,12 @@ ConstraintModelNumDiffTpl<Scalar>::ConstraintModelNumDiffTpl(
     : Base(model->get_state(), model->get_nu(), model->get_ng(),
            model->get_nh()),
       model_(model),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  if (model_->get_ng() > 0) {
+    this->lb_ = model_->get_lb();
+    this->ub_ = model_->get_ub();
+  }
+}
 
 template <typename Scalar>
 void ConstraintModelNumDiffTpl<Scalar>::calc(
-- 
2.43.0


From 1d102e4df9af36bd5c4cec317eea785daaf23708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 49/91] fix: the terminal calcDiff of ResidualModelNumDiff
 computes its disturbance

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From bc7214b979e5207b56a64327cab8febf86631d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 50/91] fix: ActuationModelNumDiff returns which torques the
 wrapped model sets

---
 include/crocoddyl/core/numdiff/actuation.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/actuation.hxx b/include/crocoddyl/core/numdiff/actuation.hxx
index 5fe231c..160b5c7 100644
--- a/include/crocoddyl/core/numdiff/actuation.hxx
+++ b/include/crocoddyl/core/numdiff/actuation.hxx
@@ -35,6 +35,7 @@ void ActuationModelNumDiffTpl<Scalar>::calc(
   Data* d = static_cast<Data*>(data.get());
   model_->calc(d->data_0, x, u);
   data->tau = d->data_0->tau;
+  data->tau_set = d->data_0->tau_set;
 }
 
 template <typename Scalar>
@@ -49,6 +50,7 @@ void ActuationModelNumDiffTpl<Scalar>::calc(
   Data* d = static_cast<Data*>(data.get());
   model_->calc(d->data_0, x);
   data->tau = d->data_0->tau;
+  data->tau_set = d->data_0->tau_set;
 }
 
 template <typename Scalar>
-- 
2.43.0


From d1aba328472d34cc054edfdb5c17a73905e31f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 51/91] fix: ControlParametrizationModelNumDiff::calc returns
 the control

---
 include/crocoddyl/core/numdiff/control.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..d0a9f4c 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 2a1d2edf77feb2d5ea39371e5ecd646704687fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 52/91] fix: RK quasiStatic starts from zero whatever its data
 held

Multiplying by zero keeps NaN and infinities left by an earlier evaluation.
---
 include/crocoddyl/core/integrator/rk.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 26306a1..a584323 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -384,7 +384,7 @@ void IntegratedActionModelRKTpl<Scalar>::quasiStatic(
   Data* d = static_cast<Data*>(data.get());
   const std::shared_ptr<ControlParametrizationDataAbstract>& u0_data =
       d->control[0];
-  u0_data->w *= Scalar(0.);
+  u0_data->w.setZero();
   differential_->quasiStatic(d->differential[0], u0_data->w, x, maxiter, tol);
   control_->params(u0_data, Scalar(0.), u0_data->w);
   u = u0_data->u;
-- 
2.43.0


From 48e22fc46f569a10111580bd315efe02cde67e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 53/91] fix: copying an action model copies its neutral control

The copy constructor of ActionModelAbstractTpl left unone_ empty, so the
default terminal calc/calcDiff of a copied model ran with a control of size
zero.
---
 include/crocoddyl/core/action-base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index da6fba9..4791cd5 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -42,6 +42,7 @@ ActionModelAbstractTpl<Scalar>::ActionModelAbstractTpl(
       ng_T_(other.ng_T_),
       nh_T_(other.nh_T_),
       state_(other.state_),
+      unone_(other.unone_),
       g_lb_(other.g_lb_),
       g_ub_(other.g_ub_),
       u_lb_(other.u_lb_),
-- 
2.43.0


From e86664d150a8fe0774a30e3a9f7d9df9235061d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:08 +0000
Subject: [PATCH 54/91] fix: copying an LQR model copies its limits and bounds

The copy constructors of ActionModelLQRTpl and DifferentialActionModelLQRTpl
kept the cost, dynamics and constraint terms only; the control limits and the
constraint bounds of the copy were the unbounded defaults and drift_free was
always false.
---
 include/crocoddyl/core/actions/diff-lqr.hxx | 7 ++++++-
 include/crocoddyl/core/actions/lqr.hxx      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index ad169da..a586028 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -78,10 +78,15 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+      drift_free_(copy.drift_free_) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  this->g_lb_ = copy.g_lb_;
+  this->g_ub_ = copy.g_ub_;
+  this->u_lb_ = copy.u_lb_;
+  this->u_ub_ = copy.u_ub_;
+  this->has_control_limits_ = copy.has_control_limits_;
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 6e63bd4..323218d 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -77,10 +77,15 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+      drift_free_(copy.drift_free_) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  this->g_lb_ = copy.g_lb_;
+  this->g_ub_ = copy.g_ub_;
+  this->u_lb_ = copy.u_lb_;
+  this->u_ub_ = copy.u_ub_;
+  this->has_control_limits_ = copy.has_control_limits_;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 4ec24c1f70f6d2ccf9ebb23a64a43bfc4344b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:16 +0000
Subject: [PATCH 55/91] fix: casting a state keeps its bounds

---
 include/crocoddyl/core/numdiff/state.hxx    | 2 ++
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index 25c1aeb..776dba8 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -230,6 +230,8 @@ template <typename NewScalar>
 StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
   typedef StateNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(state_->template cast<NewScalar>());
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index 01ff26b..26df78e 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -182,6 +182,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From e6135ca0e5ab6a88929054a143202190897a3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 56/91] fix: casting an LQR model keeps its limits, bounds and
 drift-free flag

---
 include/crocoddyl/core/actions/diff-lqr.hpp | 3 +++
 include/crocoddyl/core/actions/diff-lqr.hxx | 5 +++++
 include/crocoddyl/core/actions/lqr.hpp      | 3 +++
 include/crocoddyl/core/actions/lqr.hxx      | 5 +++++
 4 files changed, 16 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 7e4dd3a..8112c3d 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,6 +312,9 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
+
+  template <typename NewScalar>
+  friend class DifferentialActionModelLQRTpl;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index a586028..f3abc60 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -231,6 +231,11 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.drift_free_ = drift_free_;
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 7cf0d52..9ac53cc 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,6 +286,9 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
+
+  template <typename NewScalar>
+  friend class ActionModelLQRTpl;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 323218d..a42b7ad 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -222,6 +222,11 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.drift_free_ = drift_free_;
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 25bbf5d685d773aec4a4bb008f87985dea31cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 57/91] fix: casting a unicycle keeps its parameters

---
 include/crocoddyl/core/actions/unicycle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..453ae93 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,10 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 99b019ef6421372e1c43a5e13f653706dd8c6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 58/91] fix: casting a smooth saturation keeps its smoothness

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index f9e3fc4..20b8f5e 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -85,6 +85,7 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
     return ret;
   }
 
-- 
2.43.0


From c725c8be058c833ca4fc91d288f9782d3fddbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 59/91] fix: casting an integrated action keeps its control
 limits

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index fd538f0..7e0faeb 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index a584323..230e85e 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -341,10 +341,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
-- 
2.43.0


From d8591188c3a73bbe0c504b8f5e64a85d859e2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 60/91] fix: casting finite-difference actions keeps the
 approximation and limits

---
 include/crocoddyl/core/numdiff/action.hxx      | 4 +++-
 include/crocoddyl/core/numdiff/diff-action.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index f671f46..601f26a 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -340,7 +340,9 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  res.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index c38c9a7..94d7965 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -335,7 +335,9 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  res.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From cb5e3432dfae496a18d61947ae5db188fc86e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 61/91] fix: casting activation bounds does not shrink them
 again

---
 .../core/activations/quadratic-barrier.hpp        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index 2b37df3..4a00558 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,8 +77,19 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+    ReturnType res;
+    // lb and ub have been already scaled by beta
+    res.lb = lb.template cast<NewScalar>();
+    res.ub = ub.template cast<NewScalar>();
+    res.beta = scalar_cast<NewScalar>(beta);
+    for (Eigen::Index i = 0; i < lb.size(); ++i) {
+      if (lb(i) == -std::numeric_limits<Scalar>::max()) {
+        res.lb(i) = -std::numeric_limits<NewScalar>::max();
+      }
+      if (ub(i) == std::numeric_limits<Scalar>::max()) {
+        res.ub(i) = std::numeric_limits<NewScalar>::max();
+      }
+    }
     return res;
   }
 
-- 
2.43.0


From 94140e8cc6437167f9cb5ff3c6b69883da26b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 62/91] fix: casting an inequality without bounds keeps it an
 inequality

---
 include/crocoddyl/core/constraints/residual.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index 8f61803..ea8690f 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -174,11 +174,14 @@ template <typename NewScalar>
 ConstraintModelResidualTpl<NewScalar> ConstraintModelResidualTpl<Scalar>::cast()
     const {
   typedef ConstraintModelResidualTpl<NewScalar> ReturnType;
-  if (type_ == ConstraintType::Inequality) {
+  if (lb_.size() != 0) {
     ReturnType ret(state_->template cast<NewScalar>(),
                    residual_->template cast<NewScalar>(),
                    lb_.template cast<NewScalar>(),
                    ub_.template cast<NewScalar>(), T_constraint_);
+    if (type_ == ConstraintType::Equality) {  // the bounds have been removed
+      ret.remove_bounds();
+    }
     return ret;
   } else {
     ReturnType ret(state_->template cast<NewScalar>(),
-- 
2.43.0


From eece1b6966e5a6c17dd3ac8fb8f8b2a5e630ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 63/91] fix: keep the corrected value for negative friction
 cone parameters

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index ff4f22a..639317e 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -232,12 +232,12 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_mu(const Scalar mu) {
+  mu_ = mu;
   if (mu < Scalar(0.)) {
     mu_ = Scalar(1.);
     std::cerr << "Warning: mu has to be a positive value, set to 1."
               << std::endl;
   }
-  mu_ = mu;
 }
 
 template <typename Scalar>
@@ -247,23 +247,23 @@ void FrictionConeTpl<Scalar>::set_inner_appr(const bool inner_appr) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_min_nforce(const Scalar min_nforce) {
+  min_nforce_ = min_nforce;
   if (min_nforce < Scalar(0.)) {
     min_nforce_ = Scalar(0.);
     std::cerr << "Warning: min_nforce has to be a positive value, set to 0"
               << std::endl;
   }
-  min_nforce_ = min_nforce;
 }
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_max_nforce(const Scalar max_nforce) {
+  max_nforce_ = max_nforce;
   if (max_nforce < Scalar(0.)) {
     max_nforce_ = std::numeric_limits<Scalar>::infinity();
     std::cerr << "Warning: max_nforce has to be a positive value, set to "
                  "infinity value"
               << std::endl;
   }
-  max_nforce_ = max_nforce;
 }
 
 template <typename Scalar>
-- 
2.43.0


From bbbdd0efb3432f097531630491ecba76ea05807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 64/91] fix: orient the friction cone along the given surface
 normal

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index 639317e..d002ad4 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -137,7 +137,7 @@ void FrictionConeTpl<Scalar>::update(const Vector3s& normal, const Scalar mu,
         << "Warning: normal is not an unitary vector, then we normalized it"
         << std::endl;
   }
-  R_ = Quaternions::FromTwoVectors(nsurf, Vector3s::UnitZ()).toRotationMatrix();
+  R_ = Quaternions::FromTwoVectors(Vector3s::UnitZ(), nsurf).toRotationMatrix();
   set_mu(mu);
   set_inner_appr(inner_appr);
   set_min_nforce(min_nforce);
@@ -183,7 +183,7 @@ const typename MathBaseTpl<Scalar>::Matrix3s& FrictionConeTpl<Scalar>::get_R()
 
 template <typename Scalar>
 typename MathBaseTpl<Scalar>::Vector3s FrictionConeTpl<Scalar>::get_nsurf() {
-  return R_.row(2).transpose();
+  return R_.col(2);
 }
 
 template <typename Scalar>
@@ -227,7 +227,7 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
         << std::endl;
   }
   R_ =
-      Quaternions::FromTwoVectors(normal, Vector3s::UnitZ()).toRotationMatrix();
+      Quaternions::FromTwoVectors(Vector3s::UnitZ(), normal).toRotationMatrix();
 }
 
 template <typename Scalar>
-- 
2.43.0


From d1a4925913ef035e37e3b9a89e8e41aad4c6e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 65/91] fix: build a CoP support from a wrench cone

---
 include/crocoddyl/multibody/cop-support.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 0cef53c..0709772 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -22,11 +22,14 @@ CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const WrenchConeTpl<Scalar>& other)
-    : A_(other.get_A()),
-      ub_(other.get_ub()),
-      lb_(other.get_lb()),
-      R_(other.get_R()),
-      box_(other.get_box()) {}
+    : R_(other.get_R()), box_(other.get_box()) {
+  A_.setZero();
+  ub_.setZero();
+  lb_.setZero();
+
+  // Update the inequality matrix and bounds
+  update();
+}
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const CoPSupportTpl<Scalar>& other)
-- 
2.43.0


From 12e44d5581bc8ad5fd85843cc75a56519dc42343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 66/91] fix: infinite support boxes do not produce NaN
 inequalities

---
 include/crocoddyl/multibody/cop-support.hxx | 14 ++++++++++----
 include/crocoddyl/multibody/wrench-cone.hxx | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 0709772..d910245 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -71,10 +71,16 @@ void CoPSupportTpl<Scalar>::update() {
   //  0  0 -L  0 -1  0]
   const Scalar L = box_(0) / Scalar(2.);
   const Scalar W = box_(1) / Scalar(2.);
-  A_.row(0) << -W * R_.col(2).transpose(), R_.col(0).transpose();
-  A_.row(1) << -W * R_.col(2).transpose(), -R_.col(0).transpose();
-  A_.row(2) << -L * R_.col(2).transpose(), R_.col(1).transpose();
-  A_.row(3) << -L * R_.col(2).transpose(), -R_.col(1).transpose();
+  // Note that an unbounded side of the box does not impose any constraint
+  const Scalar inf = std::numeric_limits<Scalar>::infinity();
+  if (W < inf) {
+    A_.row(0) << -W * R_.col(2).transpose(), R_.col(0).transpose();
+    A_.row(1) << -W * R_.col(2).transpose(), -R_.col(0).transpose();
+  }
+  if (L < inf) {
+    A_.row(2) << -L * R_.col(2).transpose(), R_.col(1).transpose();
+    A_.row(3) << -L * R_.col(2).transpose(), -R_.col(1).transpose();
+  }
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/multibody/wrench-cone.hxx b/include/crocoddyl/multibody/wrench-cone.hxx
index 6f53dc8..0dce2bc 100644
--- a/include/crocoddyl/multibody/wrench-cone.hxx
+++ b/include/crocoddyl/multibody/wrench-cone.hxx
@@ -182,14 +182,23 @@ void WrenchConeTpl<Scalar>::update() {
   //  0  0 -W -1  0  0;
   //  0  0 -L  0  1  0;
   //  0  0 -L  0 -1  0]
-  A_.row(nf_ + 1) << -W * R_transpose.row(2), R_transpose.row(0);
-  A_left.row(nf_ + 2) = A_left.row(nf_ + 1);
-  A_right.row(nf_ + 2) = -R_transpose.row(0);
-  A_.row(nf_ + 3) << -L * R_transpose.row(2), R_transpose.row(1);
-  A_left.row(nf_ + 4) = A_left.row(nf_ + 3);
-  A_right.row(nf_ + 4) = -R_transpose.row(1);
+  // Note that an unbounded side of the box does not impose any constraint
+  const Scalar inf = std::numeric_limits<Scalar>::infinity();
+  if (W < inf) {
+    A_.row(nf_ + 1) << -W * R_transpose.row(2), R_transpose.row(0);
+    A_left.row(nf_ + 2) = A_left.row(nf_ + 1);
+    A_right.row(nf_ + 2) = -R_transpose.row(0);
+  }
+  if (L < inf) {
+    A_.row(nf_ + 3) << -L * R_transpose.row(2), R_transpose.row(1);
+    A_left.row(nf_ + 4) = A_left.row(nf_ + 3);
+    A_right.row(nf_ + 4) = -R_transpose.row(1);
+  }
 
   // Yaw-tau information
+  if (!(L < inf && W < inf)) {
+    return;
+  }
   const Scalar mu_LW = -mu * (L + W);
   // The segment of the matrix that encodes the minimum torque is defined as
   // [ W  L -mu*(L+W) -mu -mu -1;
-- 
2.43.0


From 382540278914199413f5bf410176911d10f1459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 67/91] fix: stopwatch minimum and maximum account for every
 sample

---
 src/core/utils/stop-watch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index d4051c7..34457f0 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -150,9 +150,9 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
   perf_info.last_time = lapse;
 
   // Update min/max time
-  if (lapse >= perf_info.max_time)
+  if (perf_info.stops == 1 || lapse > perf_info.max_time)
     perf_info.max_time = lapse;
-  else if (lapse <= perf_info.min_time)
+  if (perf_info.stops == 1 || lapse < perf_info.min_time)
     perf_info.min_time = lapse;
 
   // Update total time
-- 
2.43.0


From 677f9721feb96106159e1af50541c9be3a5af4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 68/91] fix: stopwatch pauses use the clock of the stopwatch

---
 include/crocoddyl/core/utils/stop-watch.hpp |  2 ++
 src/core/utils/stop-watch.cpp               | 27 +++++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/crocoddyl/core/utils/stop-watch.hpp b/include/crocoddyl/core/utils/stop-watch.hpp
index 02bc53e..1d63f8c 100644
--- a/include/crocoddyl/core/utils/stop-watch.hpp
+++ b/include/crocoddyl/core/utils/stop-watch.hpp
@@ -260,6 +260,7 @@ class Stopwatch {
           min_time(std::numeric_limits<long double>::max()),
           max_time(std::numeric_limits<long double>::min()),
           last_time(0),
+          paused_time(0),
           paused(false),
           stops(0) {}
 
@@ -268,6 +269,7 @@ class Stopwatch {
     long double min_time;     //!< Minimum time
     long double max_time;     //!< Maximum time
     long double last_time;    //!< Last time
+    long double paused_time;  //!< Time of the current cycle until its pauses
     bool paused;  //!< Tells if this performance has been paused, only for
                   //!< internal use
     int stops;    //!< How many cycles have been this stopwatch executed?
diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index 34457f0..e629f59 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -117,8 +117,7 @@ void Stopwatch::start(const string& perf_name) {
   perf_info.clock_start = take_time();
 
   // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
+  if (!perf_info.paused) perf_info.paused_time = 0;
 
   perf_info.paused = false;
 }
@@ -146,7 +145,12 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
 
   if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
 
-  // Update last time
+  // Update total time
+  perf_info.total_time += lapse;
+
+  // Update last time, which includes the time until the pauses
+  lapse += perf_info.paused_time;
+  perf_info.paused_time = 0;
   perf_info.last_time = lapse;
 
   // Update min/max time
@@ -154,15 +158,12 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
     perf_info.max_time = lapse;
   if (perf_info.stops == 1 || lapse < perf_info.min_time)
     perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
 }
 
 void Stopwatch::pause(const string& perf_name) {
   if (!active) return;
 
-  long double clock_end = (long double)clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -170,14 +171,18 @@ void Stopwatch::pause(const string& perf_name) {
 
   PerformanceData& perf_info = records_of->find(perf_name)->second;
 
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
+  // check whether the performance has been reset or is already paused
+  if (perf_info.clock_start == 0 || perf_info.paused) return;
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
-  perf_info.last_time += lapse;
+  perf_info.paused_time += lapse;
+  perf_info.last_time = perf_info.paused_time;
   perf_info.total_time += lapse;
+  perf_info.paused = true;
 }
 
 void Stopwatch::reset_all() {
@@ -229,6 +234,7 @@ void Stopwatch::reset(const string& perf_name) {
   perf_info.min_time = 0;
   perf_info.max_time = 0;
   perf_info.last_time = 0;
+  perf_info.paused_time = 0;
   perf_info.paused = false;
   perf_info.stops = 0;
 }
@@ -355,6 +361,7 @@ void Stopwatch::Watcher::_start() {
   }
 
   p->clock_start = w.take_time();
+  if (!p->paused) p->paused_time = 0;
   p->paused = false;
 }
 
-- 
2.43.0


From c29a1827c8be1e2f7f5a6a5617dc9bf7748bf93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 69/91] fix: close the profiler regions of the box DDP solver

---
 src/core/solvers/box-ddp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 04a5562..93de017 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -72,6 +72,7 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
         !is_feasible_) {
       // No control limits on this model: Use vanilla DDP
       SolverDDP::computeGains(t);
+      STOP_PROFILER("SolverBoxDDP::computeGains");
       return;
     }
 
@@ -84,7 +85,7 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
-    START_PROFILER("SolverBoxDDP::boxQP");
+    STOP_PROFILER("SolverBoxDDP::boxQP");
 
     // Compute controls
     START_PROFILER("SolverBoxDDP::Quu_invproj");
@@ -168,6 +169,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
     STOP_PROFILER("SolverBoxDDP::forwardPass");
     throw_pretty("forward_error");
   }
+  STOP_PROFILER("SolverBoxDDP::forwardPass");
 }
 
 const std::vector<Eigen::MatrixXd>& SolverBoxDDP::get_Quu_inv() const {
-- 
2.43.0


From 0567427a8ca0d3ebc4a96df0f885aa7c93ab6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 70/91] fix: close the profiler region of solvers that give up

---
 src/core/solvers/ddp.cpp   | 1 +
 src/core/solvers/fddp.cpp  | 1 +
 src/core/solvers/intro.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 4a8d54f..463af15 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -71,6 +71,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverDDP::solve");
           return false;
         } else {
           continue;
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index df2e70c..2216929 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -50,6 +50,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverFDDP::solve");
           return false;
         } else {
           continue;
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index f9b5104..8d3c215 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -102,6 +102,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverIntro::solve");
           return false;
         } else {
           continue;
-- 
2.43.0


From d6b87170cbb3c20a527eedb72309588b61dfd457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 71/91] fix: printing diagnostics does not change the stream
 formatting

---
 src/core/utils/callbacks.cpp  |  5 +++++
 src/core/utils/stop-watch.cpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/core/utils/callbacks.cpp b/src/core/utils/callbacks.cpp
index 2320b5a..89ebdd9 100644
--- a/src/core/utils/callbacks.cpp
+++ b/src/core/utils/callbacks.cpp
@@ -134,6 +134,9 @@ void CallbackVerbose::operator()(SolverAbstract& solver) {
   if (solver.get_iter() % 10 == 0) {
     std::cout << header_ << std::endl << std::flush;
   }
+  // The formatting used below is restored at the end
+  const std::ios_base::fmtflags flags = std::cout.flags();
+  const std::streamsize precision = std::cout.precision();
   auto space_sign = [this](const double value) {
     std::stringstream stream;
     if (value >= 0.) {
@@ -234,6 +237,8 @@ void CallbackVerbose::operator()(SolverAbstract& solver) {
   }
   std::cout << std::endl;
   std::cout << std::flush;
+  std::cout.flags(flags);
+  std::cout.precision(precision);
 }
 
 }  // namespace crocoddyl
diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index e629f59..bef7f53 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -198,6 +198,9 @@ void Stopwatch::reset_all() {
 void Stopwatch::report_all(int precision, std::ostream& output) {
   if (!active) return;
 
+  // The formatting used below is restored at the end
+  const std::ios_base::fmtflags flags = output.flags();
+
   output << "\n"
          << std::setw(STOP_WATCH_MAX_NAME_LENGTH) << std::left
          << "*** PROFILING RESULTS [ms] ";
@@ -218,6 +221,7 @@ void Stopwatch::report_all(int precision, std::ostream& output) {
   for (it = records_of->begin(); it != records_of->end(); ++it) {
     if (it->second.stops > 0) report(it->first, precision, output);
   }
+  output.flags(flags);
 }
 
 void Stopwatch::reset(const string& perf_name) {
@@ -259,6 +263,10 @@ void Stopwatch::report(const string& perf_name, int precision,
 
   PerformanceData& perf_info = records_of->find(perf_name)->second;
 
+  // The formatting used below is restored at the end
+  const std::ios_base::fmtflags flags = output.flags();
+  const std::streamsize stream_precision = output.precision();
+
   output << std::setw(STOP_WATCH_MAX_NAME_LENGTH) << std::left << perf_name;
   output << std::fixed << std::setprecision(precision)
          << std::setw(STOP_WATCH_TIME_WIDTH) << (perf_info.min_time * 1e3)
@@ -278,6 +286,8 @@ void Stopwatch::report(const string& perf_name, int precision,
          << std::setw(STOP_WATCH_TIME_WIDTH) << perf_info.total_time * 1e3
          << std::endl
          << std::flush;
+  output.flags(flags);
+  output.precision(stream_precision);
 }
 
 long double Stopwatch::get_time_so_far(const string& perf_name) {
-- 
2.43.0


From ae5d83109185840629af7f8c7d62c36ccf63da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:49 +0000
Subject: [PATCH 72/91] fix: Ipopt solves that stop before their first
 iteration have no statistics

---
 src/core/solvers/ipopt.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 47f9368..b9989a2 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -44,7 +44,12 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
   std::copy(ipopt_iface_->get_us().begin(), ipopt_iface_->get_us().end(),
             us_.begin());
   cost_ = ipopt_iface_->get_cost();
-  iter_ = ipopt_app_->Statistics()->IterationCount();
+  // There are no statistics if Ipopt stopped before its first iteration
+  const Ipopt::SmartPtr<Ipopt::SolveStatistics> statistics =
+      ipopt_app_->Statistics();
+  iter_ = Ipopt::IsValid(statistics)
+              ? static_cast<std::size_t>(statistics->IterationCount())
+              : 0;
 
   // The claim about the warm start does not hold for the returned trajectory
   is_feasible_ = ipopt_status_ == Ipopt::Solve_Succeeded ||
-- 
2.43.0


From c6ea11e235dd8fdab3f33b4d7776ad064dd986db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:21 +0000
Subject: [PATCH 73/91] fix: solvers reject a negative initial regularization

A negative value, which set_preg and set_dreg already reject, never reaches
reg_max when it is multiplied by reg_incfactor; solve looped forever if the
search direction could not be computed.
---
 src/core/solvers/ddp.cpp   | 4 ++++
 src/core/solvers/fddp.cpp  | 4 ++++
 src/core/solvers/intro.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 463af15..f26cbe7 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -45,6 +45,10 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double init_reg) {
+  if (init_reg < 0.) {
+    throw_pretty("Invalid argument: "
+                 << "init_reg value has to be positive.");
+  }
   START_PROFILER("SolverDDP::solve");
   // The updated flag is cleared by whoever reads it first (e.g., another solver
   // of this problem); so we do not rely on it to find out about new dimensions
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 2216929..6e9a310 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -24,6 +24,10 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::vector<Eigen::VectorXd>& init_us,
                        const std::size_t maxiter, const bool is_feasible,
                        const double init_reg) {
+  if (init_reg < 0.) {
+    throw_pretty("Invalid argument: "
+                 << "init_reg value has to be positive.");
+  }
   START_PROFILER("SolverFDDP::solve");
   // The updated flag is cleared by whoever reads it first (e.g., another solver
   // of this problem); so we do not rely on it to find out about new dimensions
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 8d3c215..ece9d51 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -73,6 +73,10 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double init_reg) {
+  if (init_reg < 0.) {
+    throw_pretty("Invalid argument: "
+                 << "init_reg value has to be positive.");
+  }
   START_PROFILER("SolverIntro::solve");
   // The updated flag is cleared by whoever reads it first (e.g., another solver
   // of this problem); so we do not rely on it to find out about new dimensions
-- 
2.43.0


From 1e9ee8b10aa1568049ce94bdc11f03967abafc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:31 +0000
Subject: [PATCH 74/91] fix: initialize the new entries of resized controls and
 gains

When the control dimension of a node grows, conservativeResize leaves the new
entries of us_, k_ and K_ uninitialized. SolverBoxDDP and SolverBoxFDDP then
warm-start their box QP with them.
---
 src/core/solver-base.cpp | 2 +-
 src/core/solvers/ddp.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index a68717a..cebe1de 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -79,7 +79,7 @@ void SolverAbstract::resizeData() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     const std::size_t ng = model->get_ng();
-    us_[t].conservativeResize(nu);
+    us_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
     g_adj_[t].conservativeResize(ng);
   }
 
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index f26cbe7..a2f43e7 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -191,8 +191,10 @@ void SolverDDP::resizeData() {
     Qxu_[t].conservativeResize(ndx, nu);
     Quu_[t].conservativeResize(nu, nu);
     Qu_[t].conservativeResize(nu);
-    K_[t].conservativeResize(nu, ndx);
-    k_[t].conservativeResize(nu);
+    // The gains are reused before being recomputed (e.g., to warm-start the
+    // box QP), thus their new entries have to be initialized
+    K_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, ndx));
+    k_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
     us_try_[t].conservativeResize(nu);
     FuTVxx_p_[t].conservativeResize(nu, ndx);
     Quuk_[t].conservativeResize(nu);
-- 
2.43.0


From afee071899165e8c3e59d878aaca33e9d69b7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 75/91] fix: SolverIntro's null-space methods handle redundant
 equality constraints

With linearly dependent rows of Hu the span factors were not square:
PartialPivLU was given a rectangular matrix (an assertion, and out-of-bounds
accesses in release builds). Use a basis of the rows instead.
---
 src/core/solvers/intro.cpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index ece9d51..b89cb17 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -250,19 +250,25 @@ double SolverIntro::calcDiff() {
         const std::shared_ptr<crocoddyl::ActionDataAbstract>& data = datas[t];
         if (model->get_nu() > 0 && model->get_nh() > 0) {
           Hu_lu_[t].compute(data->Hu);
-          Hu_rank_[t] = Hu_lu_[t].rank();
-          YZ_[t].leftCols(Hu_rank_[t]).noalias() =
-              (Hu_lu_[t].permutationP() * data->Hu).transpose();
-          YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) = Hu_lu_[t].kernel();
+          const std::size_t rank = Hu_lu_[t].rank();
+          Hu_rank_[t] = rank;
+          // The first rows of P * Hu are a basis of the row space; further rows
+          // (if any) are redundant.
+          YZ_[t].leftCols(rank).noalias() =
+              (Hu_lu_[t].permutationP() * data->Hu).topRows(rank).transpose();
+          YZ_[t].rightCols(model->get_nu() - rank) = Hu_lu_[t].kernel();
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
-              Y = YZ_[t].leftCols(Hu_lu_[t].rank());
-          Hy_[t].noalias() = data->Hu * Y;
+              Y = YZ_[t].leftCols(rank);
+          Hy_[t].noalias() =
+              (Hu_lu_[t].permutationP() * data->Hu).topRows(rank) * Y;
           Hy_lu_[t].compute(Hy_[t]);
           const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
               Hy_lu_[t].inverse();
-          ks_[t].noalias() = Hy_inv * data->h;
-          Ks_[t].noalias() = Hy_inv * data->Hx;
+          ks_[t].noalias() =
+              Hy_inv * (Hu_lu_[t].permutationP() * data->h).head(rank);
+          Ks_[t].noalias() =
+              Hy_inv * (Hu_lu_[t].permutationP() * data->Hx).topRows(rank);
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
@@ -279,16 +285,21 @@ double SolverIntro::calcDiff() {
         if (model->get_nu() > 0 && model->get_nh() > 0) {
           Hu_qr_[t].compute(data->Hu.transpose());
           YZ_[t] = Hu_qr_[t].householderQ();
-          Hu_rank_[t] = Hu_qr_[t].rank();
+          const std::size_t rank = Hu_qr_[t].rank();
+          Hu_rank_[t] = rank;
+          // The first rows of the permuted Hu are a basis of the row space;
+          // further rows (if any) are redundant.
+          const Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> P(
+              Hu_qr_[t].colsPermutation().transpose());
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
-              Y = YZ_[t].leftCols(Hu_qr_[t].rank());
-          Hy_[t].noalias() = data->Hu * Y;
+              Y = YZ_[t].leftCols(rank);
+          Hy_[t].noalias() = (P * data->Hu).topRows(rank) * Y;
           Hy_lu_[t].compute(Hy_[t]);
           const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
               Hy_lu_[t].inverse();
-          ks_[t].noalias() = Hy_inv * data->h;
-          Ks_[t].noalias() = Hy_inv * data->Hx;
+          ks_[t].noalias() = Hy_inv * (P * data->h).head(rank);
+          Ks_[t].noalias() = Hy_inv * (P * data->Hx).topRows(rank);
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
-- 
2.43.0


From e2060993d87a9e31b6fdffb8a00900c3c0c5844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 76/91] fix: upper bounds of the multibody actions' inequality
 constraints

get_g_ub() returned the lower bounds when there is no constraint manager.
---
 include/crocoddyl/multibody/actions/contact-fwddyn.hxx | 2 +-
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 2 +-
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 2 +-
 include/crocoddyl/multibody/actions/free-invdyn.hxx    | 2 +-
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
index 04793bf..e4ce077 100644
--- a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
@@ -415,7 +415,7 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index b3d60be..9fa3c7a 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -457,7 +457,7 @@ DifferentialActionModelContactInvDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 723d2f0..7ff8e91 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -309,7 +309,7 @@ DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/free-invdyn.hxx b/include/crocoddyl/multibody/actions/free-invdyn.hxx
index 6a30f4d..5d34bc3 100644
--- a/include/crocoddyl/multibody/actions/free-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-invdyn.hxx
@@ -303,7 +303,7 @@ DifferentialActionModelFreeInvDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index c16a94a..8d3470c 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -355,7 +355,7 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
-- 
2.43.0


From 8cf065ee916502ecf95dccb3b7d42c7e17b7c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 77/91] fix: casting a multibody action keeps its armature

---
 include/crocoddyl/multibody/actions/contact-fwddyn.hxx | 6 ++++++
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 6 ++++++
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
index e4ce077..87c96d6 100644
--- a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
@@ -280,6 +280,9 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -288,6 +291,9 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ContactType>(contacts_->template cast<NewScalar>()),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 7ff8e91..b538481 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -197,12 +197,18 @@ DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()));
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
         std::static_pointer_cast<StateType>(state_->template cast<NewScalar>()),
         actuation_->template cast<NewScalar>(),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()));
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 8d3470c..3abea2c 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -158,6 +158,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -166,6 +169,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
-- 
2.43.0


From 452ea24945294aadaed5bdd70c3c98effe73fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 78/91] fix: casting a contact stack keeps its
 compute-all-contacts status

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 3534be4..d0d5903 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -425,6 +425,7 @@ ContactModelMultipleTpl<NewScalar> ContactModelMultipleTpl<Scalar>::cast()
     const ContactType& m_i = it_m->second->template cast<NewScalar>();
     ret.addContact(name, m_i.contact, m_i.active);
   }
+  ret.setComputeAllContacts(compute_all_contacts_);
   return ret;
 }
 
-- 
2.43.0


From a40edad1d9b96a3bda32b81ebdf4cab2465baf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 79/91] fix: removing an inactive contact or impulse keeps the
 active dimension

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 +++-
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index d0d5903..6348aa8 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -60,7 +60,9 @@ template <typename Scalar>
 void ContactModelMultipleTpl<Scalar>::removeContact(const std::string& name) {
   typename ContactModelContainer::iterator it = contacts_.find(name);
   if (it != contacts_.end()) {
-    nc_ -= it->second->contact->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->contact->get_nc();
+    }
     nc_total_ -= it->second->contact->get_nc();
     contacts_.erase(it);
     active_set_.erase(name);
diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index a4efe87..748b4b7 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -41,7 +41,9 @@ template <typename Scalar>
 void ImpulseModelMultipleTpl<Scalar>::removeImpulse(const std::string& name) {
   typename ImpulseModelContainer::iterator it = impulses_.find(name);
   if (it != impulses_.end()) {
-    nc_ -= it->second->impulse->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->impulse->get_nc();
+    }
     nc_total_ -= it->second->impulse->get_nc();
     impulses_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 6330bf62010a1ad0e9efa1a6f170b8c6e9bfb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 80/91] fix: contacts or impulses on the same joint add their
 forces

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 ++--
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 6348aa8..8de0874 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -254,7 +254,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
       } else {
         m_i->contact->setZeroForce(d_i);
       }
@@ -275,7 +275,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
         nc += nc_i;
       } else {
         m_i->contact->setZeroForce(d_i);
diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index 748b4b7..f9cc3af 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -183,7 +183,7 @@ void ImpulseModelMultipleTpl<Scalar>::updateForce(
       m_i->impulse->updateForce(d_i, force_i);
       const pinocchio::JointIndex joint =
           state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-      data->fext[joint] = d_i->fext;
+      data->fext[joint] += d_i->fext;
       nc += nc_i;
     } else {
       m_i->impulse->setZeroForce(d_i);
-- 
2.43.0


From a3b215bd89d4a8e7deee7a595276c14dd742476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 81/91] fix: derivatives of the 2d contact's position gain

They missed the motion along the lateral axis of the contact frame.
---
 include/crocoddyl/multibody/contacts/contact-2d.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-2d.hxx b/include/crocoddyl/multibody/contacts/contact-2d.hxx
index d4e1d8e..579b472 100644
--- a/include/crocoddyl/multibody/contacts/contact-2d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-2d.hxx
@@ -107,11 +107,10 @@ void ContactModel2DTpl<Scalar>::calcDiff(
 
   if (gains_[0] != 0.) {
     const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
-    d->oRf(0, 0) = oRf(0, 0);
-    d->oRf(1, 0) = oRf(2, 0);
-    d->oRf(0, 1) = oRf(0, 2);
-    d->oRf(1, 1) = oRf(2, 2);
-    d->da0_dx.leftCols(nv).noalias() += gains_[0] * d->oRf * d->Jc;
+    d->da0_dx.leftCols(nv).row(0).noalias() +=
+        gains_[0] * oRf.row(0) * d->fJf.template topRows<3>();
+    d->da0_dx.leftCols(nv).row(1).noalias() +=
+        gains_[0] * oRf.row(2) * d->fJf.template topRows<3>();
   }
   if (gains_[1] != 0.) {
     d->da0_dx.leftCols(nv).row(0).noalias() +=
-- 
2.43.0


From d69c8224d171300072fb3e013a86d848ef57b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 82/91] fix: the 2d contact reports its force in the contact
 frame

as the other contacts do, and as its own derivatives assume.
---
 include/crocoddyl/multibody/contacts/contact-2d.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-2d.hxx b/include/crocoddyl/multibody/contacts/contact-2d.hxx
index 579b472..ae1b901 100644
--- a/include/crocoddyl/multibody/contacts/contact-2d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-2d.hxx
@@ -133,7 +133,7 @@ void ContactModel2DTpl<Scalar>::updateForce(
   }
   Data* d = static_cast<Data*>(data.get());
   const Eigen::Ref<const Matrix3s> R = d->jMf.rotation();
-  data->f.linear() = R.col(0) * force[0] + R.col(2) * force[1];
+  data->f.linear() << force[0], Scalar(0.), force[1];
   data->f.angular().setZero();
   data->fext.linear() = R.col(0) * force[0] + R.col(2) * force[1];
   data->fext.angular() = d->jMf.translation().cross(data->fext.linear());
-- 
2.43.0


From 5ad1f8056733ee4a4619f12c63f20f06f872109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 83/91] fix: derivatives of the 6d impulse in the world frame

Its Jacobian is expressed in the local frame aligned with the world.
---
 include/crocoddyl/multibody/impulses/impulse-6d.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/impulses/impulse-6d.hxx b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
index c617b8b..61e1784 100644
--- a/include/crocoddyl/multibody/impulses/impulse-6d.hxx
+++ b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
@@ -61,7 +61,8 @@ void ImpulseModel6DTpl<Scalar>::calcDiff(
     case pinocchio::ReferenceFrame::LOCAL_WORLD_ALIGNED:
       const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
       d->v0 = pinocchio::getFrameVelocity(*state_->get_pinocchio().get(),
-                                          *d->pinocchio, id_, type_);
+                                          *d->pinocchio, id_,
+                                          pinocchio::LOCAL_WORLD_ALIGNED);
       pinocchio::skew(d->v0.linear(), d->vv_skew);
       pinocchio::skew(d->v0.angular(), d->vw_skew);
       d->vv_world_skew.noalias() = d->vv_skew * oRf;
-- 
2.43.0


From 3c0d95a7780a5935a4dd629cbf399e4835edef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 84/91] fix: derivatives of the impulse dynamics with armature

The RNEA derivatives overwrite the mass matrix, which loses the armature.
---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 3abea2c..f48e408 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -285,6 +285,9 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
   data->pinocchio.M.template triangularView<Eigen::StrictlyLower>() =
       data->pinocchio.M.transpose()
           .template triangularView<Eigen::StrictlyLower>();
+  if (!with_armature_) {
+    data->pinocchio.M.diagonal() += armature_;
+  }
   data->Fx.topLeftCorner(nv, nv).setIdentity();
   data->Fx.topRightCorner(nv, nv).setZero();
   data->Fx.bottomLeftCorner(nv, nv).noalias() =
-- 
2.43.0


From c1b02788ab2b63b8a40f63fb71fbde3ff0eb8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 85/91] fix: derivatives of the impulse dynamics with
 restitution

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index f48e408..7db23ef 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -272,7 +272,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       data->Kinv);
 
   pinocchio::computeForwardKinematicsDerivatives(
-      *pinocchio_, data->pinocchio, q, data->pinocchio.dq_after, data->vnone);
+      *pinocchio_, data->pinocchio, q,
+      data->pinocchio.dq_after + r_coeff_ * v, data->vnone);
   impulses_->calcDiff(data->multibody.impulses, x);
   impulses_->updateRneaDiff(data->multibody.impulses, data->pinocchio);
 
@@ -296,6 +297,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       a_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
   data->Fx.bottomRightCorner(nv, nv).noalias() =
       a_partial_dtau * data->pinocchio.M;
+  data->Fx.bottomRightCorner(nv, nv).noalias() -=
+      r_coeff_ * a_partial_da * data->multibody.impulses->Jc.topRows(nc);
 
   // Computing the cost derivatives
   if (enable_force_) {
@@ -304,7 +307,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
     data->df_dx.topLeftCorner(nc, nv).noalias() +=
         f_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
     data->df_dx.topRightCorner(nc, nv).noalias() =
-        f_partial_da * data->multibody.impulses->Jc.topRows(nc);
+        (Scalar(1.) + r_coeff_) * f_partial_da *
+        data->multibody.impulses->Jc.topRows(nc);
     impulses_->updateVelocityDiff(data->multibody.impulses,
                                   data->Fx.bottomRows(nv));
     impulses_->updateForceDiff(data->multibody.impulses,
-- 
2.43.0


From b190e0a9931cf271750579cdbff3b522905841ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:20 +0000
Subject: [PATCH 86/91] fix: quasi-static forces with inactive contacts in the
 inverse dynamics

The static problem included stale Jacobian rows for the inactive contacts.
---
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index 9fa3c7a..a796a0c 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -292,7 +292,7 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::quasiStatic(
   const std::size_t nq = state_->get_nq();
   const std::size_t nv = state_->get_nv();
   const std::size_t nu = actuation_->get_nu();
-  std::size_t nc = contacts_->get_nc_total();
+  std::size_t nc = contacts_->get_nc();
   const Eigen::VectorBlock<const Eigen::Ref<const VectorXs>, Eigen::Dynamic> q =
       x.head(nq);
   d->tmp_xstatic.head(nq) = q;
-- 
2.43.0


From 91f4ef867b81f2dff8d14f14a869e07cd6d2afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:20 +0000
Subject: [PATCH 87/91] fix: StateMultibody sets the whole Jacobians of diff
 and integrate

The blocks between configuration and velocity kept what the matrices held
before; StateVector sets them.
---
 include/crocoddyl/multibody/states/multibody.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index e31619e..2ce4cea 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -132,6 +132,7 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + ")");
     }
 
+    Jfirst.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);
     Jfirst.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)-1;
@@ -143,6 +144,7 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
+    Jsecond.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1);
     Jsecond.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)1;
@@ -161,8 +163,10 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
+    Jfirst.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);
+    Jsecond.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1);
     Jfirst.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)-1;
@@ -192,6 +196,7 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         pinocchio::dIntegrate(*pinocchio_.get(), x.head(nq_), dx.head(nv_),
                               Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0,
                               pinocchio::SETTO);
@@ -225,6 +230,7 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         pinocchio::dIntegrate(*pinocchio_.get(), x.head(nq_), dx.head(nv_),
                               Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1,
                               pinocchio::SETTO);
-- 
2.43.0


From 94079296cf018809f52f4dd5908653e4ca61f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:20 +0000
Subject: [PATCH 88/91] fix: set_thrusters replaces the thrusters

It added the new thrusters to the effect of the old ones.
---
 .../multibody/actuations/floating-base-thrusters.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index ccc5c60..f823332 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -305,8 +305,8 @@ class ActuationModelFloatingBaseThrustersTpl
     for (std::size_t i = 0; i < n_thrusters_; ++i) {
       const Thruster& p = thrusters_[i];
       const Vector3s& f_z = p.pose.rotation() * Vector3s::UnitZ();
-      W_thrust_.template topRows<3>().col(i) += f_z;
-      W_thrust_.template middleRows<3>(3).col(i).noalias() +=
+      W_thrust_.template topRows<3>().col(i) = f_z;
+      W_thrust_.template middleRows<3>(3).col(i).noalias() =
           p.pose.translation().cross(f_z);
       switch (p.type) {
         case CW:
-- 
2.43.0


From 4e59ddbce21e22054107acc519247fb7316ec8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:46 +0000
Subject: [PATCH 89/91] fix: every data of the thruster actuation sees new
 thrusters

Only the first data used after set_thrusters was updated.
---
 .../multibody/actuations/floating-base-thrusters.hpp  | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index f823332..9b166ea 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -170,8 +170,7 @@ class ActuationModelFloatingBaseThrustersTpl
                  thrusters.size()),
         thrusters_(thrusters),
         n_thrusters_(thrusters.size()),
-        W_thrust_(state_->get_nv(), nu_),
-        update_data_(true) {
+        W_thrust_(state_->get_nv(), nu_) {
     if (!state->get_pinocchio()->existJointName("root_joint")) {
       throw_pretty(
           "Invalid argument: "
@@ -205,9 +204,7 @@ class ActuationModelFloatingBaseThrustersTpl
           "Invalid argument: " << "u has wrong dimension (it should be " +
                                       std::to_string(nu_) + ")");
     }
-    if (update_data_) {
-      updateData(data);
-    }
+    updateData(data);
     data->tau.noalias() = data->dtau_du * u;
   }
 
@@ -236,6 +233,7 @@ class ActuationModelFloatingBaseThrustersTpl
   virtual void commands(const std::shared_ptr<Data>& data,
                         const Eigen::Ref<const VectorXs>&,
                         const Eigen::Ref<const VectorXs>& tau) override {
+    updateData(data);
     data->u.noalias() = data->Mtau * tau;
   }
 
@@ -321,7 +319,6 @@ class ActuationModelFloatingBaseThrustersTpl
     // torque inputs
     Mtau_ = pseudoInverse(W_thrust_);
     S_.noalias() = W_thrust_ * Mtau_;
-    update_data_ = true;
   }
 
   const MatrixXs& get_Wthrust() const { return W_thrust_; }
@@ -345,7 +342,6 @@ class ActuationModelFloatingBaseThrustersTpl
                    //!< joint torque inputs
   MatrixXs S_;     //!< Selection matrix for under-actuation part
 
-  bool update_data_;
   using Base::nu_;
   using Base::state_;
 
@@ -357,7 +353,6 @@ class ActuationModelFloatingBaseThrustersTpl
     for (std::size_t k = 0; k < nv; ++k) {
       data->tau_set[k] = if_static(S_(k, k));
     }
-    update_data_ = false;
   }
 
   // Use for floating-point types
-- 
2.43.0


From 578ab9a135e1f7a422202e6ed0b7a77b5177eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:46 +0000
Subject: [PATCH 90/91] fix: contact residuals refresh the Jacobians of every
 data

With inverse dynamics, only the first data used after set_reference was
updated.
---
 .../multibody/residuals/contact-cop-position.hpp          | 2 --
 .../multibody/residuals/contact-cop-position.hxx          | 8 +-------
 .../multibody/residuals/contact-friction-cone.hpp         | 2 --
 .../multibody/residuals/contact-friction-cone.hxx         | 8 +-------
 .../crocoddyl/multibody/residuals/contact-wrench-cone.hpp | 2 --
 .../crocoddyl/multibody/residuals/contact-wrench-cone.hxx | 8 +-------
 6 files changed, 3 insertions(+), 27 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hpp b/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
index baa03f5..076d8d0 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
@@ -248,8 +248,6 @@ class ResidualModelContactCoPPositionTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   CoPSupport cref_;           //!< Reference support region of CoP
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
index dd38c78..fa54b6e 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
@@ -15,7 +15,6 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     const CoPSupport& cref, const std::size_t nu, const bool fwddyn)
     : Base(state, 4, nu, fwddyn ? true : false, fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       cref_(cref) {}
 
@@ -25,7 +24,6 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     const CoPSupport& cref)
     : Base(state, 4),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       cref_(cref) {}
 
@@ -50,9 +48,7 @@ template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -84,7 +80,6 @@ void ResidualModelContactCoPPositionTpl<Scalar>::updateJacobians(
   const Matrix46& A = cref_.get_A();
   data->Rx.noalias() = A * df_dx;
   data->Ru.noalias() = A * df_du;
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -137,7 +132,6 @@ template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::set_reference(
     const CoPSupport& reference) {
   cref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp b/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
index a181476..1d638c2 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
@@ -224,8 +224,6 @@ class ResidualModelContactFrictionConeTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   FrictionCone fref_;         //!< Reference contact friction cone
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
index 73fdcd7..fb4d6ea 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
@@ -20,7 +20,6 @@ ResidualModelContactFrictionConeTpl<Scalar>::
     : Base(state, fref.get_nf() + 1, nu, fwddyn ? true : false,
            fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -38,7 +37,6 @@ ResidualModelContactFrictionConeTpl<Scalar>::
                                         const FrictionCone& fref)
     : Base(state, fref.get_nf() + 1),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -71,9 +69,7 @@ template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -121,7 +117,6 @@ void ResidualModelContactFrictionConeTpl<Scalar>::updateJacobians(
     default:
       break;
   }
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -173,7 +168,6 @@ template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::set_reference(
     const FrictionCone& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
index 7c7031a..1969144 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
@@ -232,8 +232,6 @@ class ResidualModelContactWrenchConeTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   WrenchCone fref_;           //!< Reference contact wrench cone
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
index a57e3d1..2f9e98e 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
@@ -17,7 +17,6 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
     : Base(state, fref.get_nf() + 13, nu, fwddyn ? true : false,
            fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -34,7 +33,6 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
     const WrenchCone& fref)
     : Base(state, fref.get_nf() + 13),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -67,9 +65,7 @@ template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -101,7 +97,6 @@ void ResidualModelContactWrenchConeTpl<Scalar>::updateJacobians(
   const MatrixX6s& A = fref_.get_A();
   data->Rx.noalias() = A * df_dx;
   data->Ru.noalias() = A * df_du;
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -154,7 +149,6 @@ template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::set_reference(
     const WrenchCone& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 8cd979ed2dbf0a04fc81ad21271da498a5d06c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:35 +0000
Subject: [PATCH 91/91] fix: casting a multibody state keeps its bounds

---
 include/crocoddyl/multibody/states/multibody.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index 2ce4cea..37faed5 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -296,6 +296,8 @@ StateMultibodyTpl<NewScalar> StateMultibodyTpl<Scalar>::cast() const {
   typedef pinocchio::ModelTpl<NewScalar> ModelType;
   ReturnType res(
       std::make_shared<ModelType>(pinocchio_->template cast<NewScalar>()));
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0

