From c0ea50145e2c97d7f2bcaf03d32fafe730dae936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 01/67] fix: adaptive mu update must not restore an accepted
 point that was never stored

---
 src/Algorithm/IpAdaptiveMuUpdate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpAdaptiveMuUpdate.cpp b/src/Algorithm/IpAdaptiveMuUpdate.cpp
index fda6939..b579df4 100644
--- a/src/Algorithm/IpAdaptiveMuUpdate.cpp
+++ b/src/Algorithm/IpAdaptiveMuUpdate.cpp
@@ -359,7 +359,7 @@ bool AdaptiveMuUpdate::UpdateBarrierParameter()
       {
          IpData().SetFreeMuMode(false);
 
-         if( restore_accepted_iterate_ )
+         if( restore_accepted_iterate_ && IsValid(accepted_point_) )
          {
             // Restore most recent accepted iterate to start fixed mode from
             Jnlst().Printf(J_DETAILED, J_BARRIER_UPDATE,
-- 
2.43.0


From 86c1dcf654505f76840105076bc20f646c54152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 02/67] fix: no infinite constraint scaling factor if the
 Jacobian is zero at the starting point

---
 src/Algorithm/IpGradientScaling.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Algorithm/IpGradientScaling.cpp b/src/Algorithm/IpGradientScaling.cpp
index f4e8252..799813e 100644
--- a/src/Algorithm/IpGradientScaling.cpp
+++ b/src/Algorithm/IpGradientScaling.cpp
@@ -166,6 +166,12 @@ void GradientScaling::DetermineScalingParametersImpl(
                dc = NULL;
             }
          }
+         else if( arow_max <= dbl_min )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Jacobian of equality constraints is zero at starting point.  Cannot determine scaling factor based on scaling_constr_target_gradient option.\n");
+            dc = NULL;
+         }
          else
          {
             dc->Set(scaling_constr_target_gradient_ / arow_max);
@@ -213,6 +219,12 @@ void GradientScaling::DetermineScalingParametersImpl(
                dd = NULL;
             }
          }
+         else if( arow_max <= dbl_min )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Jacobian of inequality constraints is zero at starting point.  Cannot determine scaling factor based on scaling_constr_target_gradient option.\n");
+            dd = NULL;
+         }
          else
          {
             dd->Set(scaling_constr_target_gradient_ / arow_max);
-- 
2.43.0


From 2bea083fc9982c1ef432fd7d3cf0d90f7f7d92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 03/67] fix: provide slacks for scaling the linear system of
 the least-square initialization

---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 226e2cf..66cda13 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -194,6 +194,26 @@ bool DefaultIterateInitializer::SetInitialIterates()
       return false;
    }
 
+   if( least_square_init_primal_ || least_square_init_duals_ )
+   {
+      // The least square estimates are computed with the linear solver, which
+      // may ask for the slacks of the current point to scale the system.
+      // There is no such point yet, so provide some strictly feasible slacks.
+      SmartPtr<IteratesVector> init = IpData().curr()->MakeNewContainer();
+      SmartPtr<Vector> zero_s = init->s()->MakeNew();
+      zero_s->Set(0.);
+      SmartPtr<const Vector> init_s;
+      push_variables(Jnlst(), slack_bound_push_, slack_bound_frac_, "s", *zero_s, init_s, *IpNLP().d_L(), *IpNLP().d_U(),
+                     *IpNLP().Pd_L(), *IpNLP().Pd_U());
+      init->Set_s(*init_s);
+      init->create_new_v_L();
+      init->create_new_v_U();
+      init->v_L_NonConst()->Set(1.);
+      init->v_U_NonConst()->Set(1.);
+      IpData().set_trial(init);
+      IpData().CopyTrialToCurrent();
+   }
+
    // get a container of the current point. We will modify parts of
    // this IteratesVector to set the trial point.
    SmartPtr<IteratesVector> iterates = IpData().curr()->MakeNewContainer();
-- 
2.43.0


From 94ca445a76018f6d75bff882ee2b4268538e4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 04/67] fix: limited-memory update without history in the
 restoration phase

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 662f52e..3c3d0ad 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -384,7 +384,7 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
 
             bool augment_memory = UpdateInternalData(*s_new, *y_new, ypart_new);
 
-            if( update_for_resto_ )
+            if( update_for_resto_ && limited_memory_max_history_ > 0 )
             {
                Number dmin = D_->Min();
                if( dmin <= 0. )
-- 
2.43.0


From ec12b1c0cd360098f7f3a83ca38a33ed8d6dafe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 05/67] fix: mehrotra_algorithm must choose an existing value
 for alpha_for_y

---
 src/Algorithm/IpIpoptAlg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpIpoptAlg.cpp b/src/Algorithm/IpIpoptAlg.cpp
index d9092e5..176c90d 100644
--- a/src/Algorithm/IpIpoptAlg.cpp
+++ b/src/Algorithm/IpIpoptAlg.cpp
@@ -102,7 +102,7 @@ void IpoptAlgorithm::RegisterOptions(
       "with the \"probing\" oracle, and \"corrector_type=affine\" is used without any safeguards; "
       "you should not set any of those options explicitly in addition. "
       "Also, unless otherwise specified, the values of \"bound_push\", \"bound_frac\", and "
-      "\"bound_mult_init_val\" are set more aggressive, and sets \"alpha_for_y=bound_mult\". "
+      "\"bound_mult_init_val\" are set more aggressive, and sets \"alpha_for_y=bound-mult\". "
       "The Mehrotra's predictor-corrector algorithm works usually very well for LPs and convex QPs.");
    roptions->SetRegisteringCategory("Undocumented");
    roptions->AddBoolOption("sb",
@@ -178,7 +178,7 @@ bool IpoptAlgorithm::InitializeImpl(
       new_options->SetNumericValueIfUnset("bound_frac", 0.2);
       new_options->SetNumericValueIfUnset("bound_mult_init_val", 10.);
       new_options->SetNumericValueIfUnset("constr_mult_init_max", 0.);
-      new_options->SetStringValueIfUnset("alpha_for_y", "bound_mult");
+      new_options->SetStringValueIfUnset("alpha_for_y", "bound-mult");
       new_options->SetStringValueIfUnset("least_square_init_primal", "yes");
 
       my_options = ConstPtr(new_options);
-- 
2.43.0


From 02b0ad7f1a6c7d4d75718744d09c4820e50a6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 06/67] fix: limited-memory SR1 must not restore a backup that
 was never stored or predates a reset

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 3c3d0ad..9a5e837 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -270,6 +270,9 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
          sigma_ = limited_memory_init_val_;
       }
       SetW();
+
+      // There is no update yet that could be undone, so undoing should lead back to this state.
+      StoreInternalDataBackup();
       return;
    }
 
-- 
2.43.0


From 7f74652cc7136e4bcc0f77b961ef84475b0d11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 07/67] fix: do not access constraint values after a failed
 evaluation if check_derivatives_for_naninf is set

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..09fb0de 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -580,7 +580,7 @@ SmartPtr<const Vector> OrigIpoptNLP::c(
          timing_statistics_.c_eval_time().End();
          if( !success || !IsFiniteNumber(unscaled_c->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_c->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The equality constraints contain an invalid number\n");
                unscaled_c->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_c");
@@ -629,7 +629,7 @@ SmartPtr<const Vector> OrigIpoptNLP::d(
          DBG_PRINT_VECTOR(2, "unscaled_d", *unscaled_d);
          if( !success || !IsFiniteNumber(unscaled_d->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_d->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The inequality constraints contain an invalid number\n");
                unscaled_d->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_d");
-- 
2.43.0


From e8f5c473c1cef2eb0c4f420c1c2c58bd6eef2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 08/67] fix: initialize all column starts of an empty
 finite-difference Jacobian

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..0b20fee 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2965,7 +2965,7 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    else
    {
-      memset(findiff_jac_ia_, 0, n_full_x_ * sizeof(Index));
+      memset(findiff_jac_ia_, 0, (n_full_x_ + 1) * sizeof(Index));
    }
    const Index* ja = findiff_jac_converter->JA();
    for( Index i = 0; i < findiff_jac_nnz_; i++ )
-- 
2.43.0


From cbca8080d994404046631cb29c753a4f39881e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 09/67] fix: a failed constraint evaluation must not count as
 done for the next request at the same point

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0b20fee..4efcfa2 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2845,7 +2845,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From cd68d098f06df227612f1af41cd13dec9ba52ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 10/67] fix: report new_x=true if the previous evaluation was
 at another point (finite differences, reused constraint values)

---
 src/Interfaces/IpTNLPAdapter.cpp | 24 +++++++++++++++++-------
 src/Interfaces/IpTNLPAdapter.hpp |  2 ++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 4efcfa2..6b48f33 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -55,6 +55,7 @@ TNLPAdapter::TNLPAdapter(
      y_d_tag_for_iterates_(0),
      x_tag_for_g_(0),
      x_tag_for_jac_g_(0),
+     full_x_is_new_(true),
      jac_idx_map_(NULL),
      h_idx_map_(NULL),
      x_fixed_map_(NULL),
@@ -1718,6 +1719,7 @@ bool TNLPAdapter::Eval_f(
    {
       new_x = true;
    }
+   full_x_is_new_ = false;
    return tnlp_->eval_f(n_full_x_, full_x_, new_x, f);
 }
 
@@ -1737,6 +1739,7 @@ bool TNLPAdapter::Eval_grad_f(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&g_f));
    Number* values = dg_f->Values();
 
+   full_x_is_new_ = false;
    if( gradient_approximation_ == OBJGRAD_EXACT )
    {
       if( IsValid(P_x_full_x_) )
@@ -1773,6 +1776,7 @@ bool TNLPAdapter::Eval_grad_f(
             x_pos = P_x_full_x_->ExpandedPosIndices();
          }
 
+         full_x_is_new_ = true;
          // Compute the finite difference objective
          for( Index i = 0; i < g_f.Dim(); i++ )
          {
@@ -1970,6 +1974,7 @@ bool TNLPAdapter::Eval_h(
    DBG_ASSERT(dynamic_cast<SymTMatrix*>(&h));
    Number* values = st_h->Values();
 
+   full_x_is_new_ = false;
    if( h_idx_map_ )
    {
       Number* full_h = new Number[nz_full_h_];
@@ -2713,6 +2718,7 @@ bool TNLPAdapter::ResortBoundMultipliers(
       memset(mult, 0, sizeof(Number) * n_full_x_);
 
       bool new_x = update_local_x(x);
+      full_x_is_new_ = false;
       if( !tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, mult) )
       {
          delete[] mult;
@@ -2799,16 +2805,17 @@ bool TNLPAdapter::update_local_x(
    const Vector& x
 )
 {
-   if( x.GetTag() == x_tag_for_iterates_ )
+   if( x.GetTag() != x_tag_for_iterates_ )
    {
-      return false;
-   }
-
-   ResortX(x, full_x_);
+      ResortX(x, full_x_);
 
-   x_tag_for_iterates_ = x.GetTag();
+      x_tag_for_iterates_ = x.GetTag();
+      full_x_is_new_ = true;
+   }
 
-   return true;
+   // still true if full_x_ was changed, but no function of the TNLP has been evaluated there
+   // or if finite differences had functions evaluated at other points since
+   return full_x_is_new_;
 }
 
 bool TNLPAdapter::update_local_lambda(
@@ -2840,6 +2847,7 @@ bool TNLPAdapter::internal_eval_g(
    }
 
    x_tag_for_g_ = x_tag_for_iterates_;
+   full_x_is_new_ = false;
 
    bool retval = tnlp_->eval_g(n_full_x_, full_x_, new_x, n_full_g_, full_g_);
 
@@ -2866,6 +2874,7 @@ bool TNLPAdapter::internal_eval_jac_g(
    bool retval;
    if( jacobian_approximation_ == JAC_EXACT )
    {
+      full_x_is_new_ = false;
       retval = tnlp_->eval_jac_g(n_full_x_, full_x_, new_x, n_full_g_, nz_full_jac_g_, NULL, NULL, jac_g_);
    }
    else
@@ -2877,6 +2886,7 @@ bool TNLPAdapter::internal_eval_jac_g(
          Number* full_g_pert = new Number[n_full_g_];
          Number* full_x_pert = new Number[n_full_x_];
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
+         full_x_is_new_ = true;
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
          {
diff --git a/src/Interfaces/IpTNLPAdapter.hpp b/src/Interfaces/IpTNLPAdapter.hpp
index c92faf7..25e75de 100644
--- a/src/Interfaces/IpTNLPAdapter.hpp
+++ b/src/Interfaces/IpTNLPAdapter.hpp
@@ -568,6 +568,8 @@ private:
    TaggedObject::Tag y_d_tag_for_iterates_;
    TaggedObject::Tag x_tag_for_g_;
    TaggedObject::Tag x_tag_for_jac_g_;
+   /** whether full_x_ differs from the point in the most recent evaluation of the TNLP */
+   bool full_x_is_new_;
    ///@}
 
    /**@name Methods to update the values in the local copies of vectors */
-- 
2.43.0


From b6dd89e7dbd161bc3e3ce3b2baca3dacc59f1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 11/67] fix: finite-difference derivatives for fixed variables
 must not be uninitialized

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 6b48f33..4d21ceb 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -428,6 +428,11 @@ bool TNLPAdapter::GetSpaces(
 
       // allocate internal space to store the full jacobian
       jac_g_ = new Number[nz_full_jac_g_];
+      if( jacobian_approximation_ != JAC_EXACT )
+      {
+         // finite differences do not set entries for fixed variables
+         memset(jac_g_, 0, nz_full_jac_g_ * sizeof(Number));
+      }
 
       /* Spaces for bounds. We need to remove the fixed variables
        * and find out which bounds do not exist. */
@@ -1780,6 +1785,7 @@ bool TNLPAdapter::Eval_grad_f(
          // Compute the finite difference objective
          for( Index i = 0; i < g_f.Dim(); i++ )
          {
+            values[i] = 0.;
             Index ivar = x_pos != NULL ? x_pos[i] : i;
             if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
             {
-- 
2.43.0


From 4f483d40c2335b2611ad6fba191c39c9d2c71fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 12/67] fix: ignore dependencies reported by the linear solver
 that do not belong to a constraint

---
 src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
index c284bef..55e8057 100644
--- a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
+++ b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
@@ -709,6 +709,12 @@ ESymSolverStatus TSymLinearSolver::DetermineDependentRows(
       for( std::list<Index>::iterator i = c_deps.begin(); i != c_deps.end(); ++i )
       {
          *i -= n_cols;
+         if( *i < 0 )
+         {
+            // the linear solver found a dependency that does not belong to a constraint
+            c_deps.clear();
+            return SYMSOLVER_FATAL_ERROR;
+         }
       }
    }
 
-- 
2.43.0


From f65e0ea52133c3bfe15ab964140e7c6a8aee48c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 13/67] fix: evaluate derivative checker and dependency
 detector inside the bounds also for starting points outside

---
 src/Interfaces/IpTNLPAdapter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 4d21ceb..b263c4f 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3045,8 +3045,9 @@ bool TNLPAdapter::CheckDerivatives(
    IpResetRandom01();
    for( Index i = 0; i < nx; i++ )
    {
-      const Number lower = Max(x_l[i], xref[i] - point_perturbation_radius_);
-      const Number upper = Min(x_u[i], xref[i] + point_perturbation_radius_);
+      const Number projected = Max(x_l[i], Min(x_u[i], xref[i]));
+      const Number lower = Max(x_l[i], projected - point_perturbation_radius_);
+      const Number upper = Min(x_u[i], projected + point_perturbation_radius_);
       const Number interval = upper - lower;
       const Number random_number = IpRandom01();
       xref[i] = lower + random_number * interval;
@@ -3527,8 +3528,9 @@ bool TNLPAdapter::DetermineDependentConstraints(
    IpResetRandom01();
    for( Index i = 0; i < n_full_x_; i++ )
    {
-      const Number lower = Max(x_l[i], full_x_[i] - point_perturbation_radius_);
-      const Number upper = Min(x_u[i], full_x_[i] + point_perturbation_radius_);
+      const Number projected = Max(x_l[i], Min(x_u[i], full_x_[i]));
+      const Number lower = Max(x_l[i], projected - point_perturbation_radius_);
+      const Number upper = Min(x_u[i], projected + point_perturbation_radius_);
       const Number interval = upper - lower;
       const Number random_number = IpRandom01();
       full_x_[i] = lower + random_number * interval;
-- 
2.43.0


From ca75f5111e8702a7d1261c1793d3e583f0a21a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 14/67] fix: failure of the restoration phase before there is
 any trial point

---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 87c96da..2846d1e 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -201,7 +201,8 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
          // In case of a failure, we still copy the values of primal and
          // dual variables into the data fields of the regular NLP, so
          // that they will be returned to the user
-         SmartPtr<IteratesVector> trial = IpData().trial()->MakeNewContainer();
+         // (all components are set below; there may not be a trial point yet)
+         SmartPtr<IteratesVector> trial = IpData().curr()->MakeNewContainer();
 
          SmartPtr<const Vector> resto_curr_x = resto_curr->x();
          SmartPtr<const CompoundVector> cx = static_cast<const CompoundVector*>(GetRawPtr(resto_curr_x));
-- 
2.43.0


From 56feb3ea104ee30bcd97a7c98a7621c720638dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 15/67] fix: numeric options keep the value they were set to,
 not only 6 digits

---
 src/Common/IpOptionsList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..ec387bb 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -117,6 +117,11 @@ bool OptionsList::SetNumericValue(
 {
    char buffer[256];
    Snprintf(buffer, 255, "%g", value);
+   if( (Number) strtod(buffer, NULL) != value )
+   {
+      // 6 digits are not sufficient to get the same value back
+      Snprintf(buffer, 255, "%.17g", value);
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From 878d1dcfc617acae2f3d763fd9b2ab5a88c63e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 16/67] fix: mehrotra_algorithm must not use an affine step
 that was not computed

---
 src/Algorithm/IpPDSearchDirCalc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithm/IpPDSearchDirCalc.cpp b/src/Algorithm/IpPDSearchDirCalc.cpp
index 7df9903..ffb8296 100644
--- a/src/Algorithm/IpPDSearchDirCalc.cpp
+++ b/src/Algorithm/IpPDSearchDirCalc.cpp
@@ -78,10 +78,9 @@ bool PDSearchDirCalculator::ComputeSearchDirection()
       rhs->Set_y_c(*IpCq().curr_c());
       rhs->Set_y_d(*IpCq().curr_d_minus_s());
       Index nbounds = IpNLP().x_L()->Dim() + IpNLP().x_U()->Dim() + IpNLP().d_L()->Dim() + IpNLP().d_U()->Dim();
-      if( nbounds > 0 && mehrotra_algorithm_ )
+      if( nbounds > 0 && mehrotra_algorithm_ && IpData().HaveAffineDeltas() )
       {
          // set up the right hand side a la Mehrotra
-         DBG_ASSERT(IpData().HaveAffineDeltas());
          DBG_ASSERT(!IpData().HaveDeltas());
          const SmartPtr<const IteratesVector> delta_aff = IpData().delta_aff();
 
-- 
2.43.0


From 7df3b749be16043fea640e916bb454952ff4e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 17/67] fix: bound multipliers must have a value when initial
 slacks are corrected

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 09fb0de..08d84c9 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -388,6 +388,12 @@ bool OrigIpoptNLP::InitializeStructures(
    v_L = d_l_space_->MakeNew();
    v_U = d_u_space_->MakeNew();
 
+   // bound multipliers are used to correct small slacks, which may happen before they are initialized
+   z_L->Set(1.);
+   z_U->Set(1.);
+   v_L->Set(1.);
+   v_U->Set(1.);
+
    retValue = nlp_->GetStartingPoint(GetRawPtr(x), init_x, GetRawPtr(y_c), init_y_c, GetRawPtr(y_d), init_y_d,
                                      GetRawPtr(z_L), init_z_L, GetRawPtr(z_U), init_z_U);
 
-- 
2.43.0


From 6918d32fd18eff5d88daeab2a66c58546d9aa65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 18/67] fix: do not return the unset iterate of a restoration
 phase that failed to initialize

---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 2846d1e..208a01d 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -196,7 +196,9 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
    if( resto_status != SUCCESS )
    {
       SmartPtr<const IteratesVector> resto_curr = resto_ip_data->curr();
-      if( IsValid(resto_curr) )
+      // there is no point to return if the initialization of the restoration phase failed because of an evaluation error
+      if( IsValid(resto_curr)
+          && (resto_status != INVALID_NUMBER_DETECTED || resto_ip_data->iter_count() > IpData().iter_count() + 1) )
       {
          // In case of a failure, we still copy the values of primal and
          // dual variables into the data fields of the regular NLP, so
-- 
2.43.0


From 7473790af5113b0ad938fd2817fdcd6d0c65a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 19/67] fix: no scaling factors from derivatives that are not
 finite

---
 src/Algorithm/IpGradientScaling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/IpGradientScaling.cpp b/src/Algorithm/IpGradientScaling.cpp
index 799813e..edc9274 100644
--- a/src/Algorithm/IpGradientScaling.cpp
+++ b/src/Algorithm/IpGradientScaling.cpp
@@ -99,7 +99,7 @@ void GradientScaling::DetermineScalingParametersImpl(
    // Calculate grad_f scaling
    //
    SmartPtr<Vector> grad_f = x_space->MakeNew();
-   if( nlp_->Eval_grad_f(*x, *grad_f) )
+   if( nlp_->Eval_grad_f(*x, *grad_f) && grad_f->HasValidNumbers() )
    {
       Number max_grad_f = grad_f->Amax();
       df = 1.;
@@ -144,7 +144,7 @@ void GradientScaling::DetermineScalingParametersImpl(
       // Calculate c scaling
       //
       SmartPtr<Matrix> jac_c = jac_c_space->MakeNew();
-      if( nlp_->Eval_jac_c(*x, *jac_c) )
+      if( nlp_->Eval_jac_c(*x, *jac_c) && jac_c->HasValidNumbers() )
       {
          dc = c_space->MakeNew();
          const Number dbl_min = std::numeric_limits<Number>::min();
@@ -197,7 +197,7 @@ void GradientScaling::DetermineScalingParametersImpl(
       // Calculate d scaling
       //
       SmartPtr<Matrix> jac_d = jac_d_space->MakeNew();
-      if( nlp_->Eval_jac_d(*x, *jac_d) )
+      if( nlp_->Eval_jac_d(*x, *jac_d) && jac_d->HasValidNumbers() )
       {
          dd = d_space->MakeNew();
          const Number dbl_min = std::numeric_limits<Number>::min();
-- 
2.43.0


From 5d79592b5d084d57d7715383ea43eb88f006b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 20/67] fix: multipliers of fixed variables also if a time
 limit was reached

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index b263c4f..035b912 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2191,6 +2191,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From 6c197b3c6d8b1928f61d1f49b4fc6f32066d14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 21/67] fix: report the values of constraints that the
 dependency detector removed

---
 src/Interfaces/IpTNLPAdapter.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 035b912..8d2d070 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2177,11 +2177,18 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    Number* full_g = new Number[n_full_g_];
-   // TODO:
-   if( c.Dim() + d.Dim() < n_full_g_ )
+   if( P_c_g_->NCols() + d.Dim() < n_full_g_ )
    {
-      const Number zero = 0.;
-      IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
+      // some constraints have been removed because they are dependent
+      if( internal_eval_g(full_x_is_new_) )
+      {
+         IpBlasCopy(n_full_g_, full_g_, 1, full_g, 1);
+      }
+      else
+      {
+         const Number zero = 0.;
+         IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
+      }
    }
    ResortG(c, d, full_g, true);
 
-- 
2.43.0


From 75389ce150a2059e1bb1a709964d78a1ef1561df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 22/67] fix: initialize the tag of the cached validity of a
 vector

---
 src/LinAlg/IpVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 67aab42..0c74120 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -542,6 +542,7 @@ inline Vector::Vector(
      min_cache_tag_(0),
      sum_cache_tag_(0),
      sumlogs_cache_tag_(0),
+     valid_cache_tag_(0),
      cached_valid_(0)
 {
    DBG_ASSERT(IsValid(owner_space_));
-- 
2.43.0


From 0b46e5e37da11c6a909af4572a16a23e8d1a2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 23/67] fix: do not read behind the end of the piecewise
 penalty list

---
 src/contrib/CGPenalty/IpPiecewisePenalty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrib/CGPenalty/IpPiecewisePenalty.cpp b/src/contrib/CGPenalty/IpPiecewisePenalty.cpp
index 1686949..4c6b75d 100644
--- a/src/contrib/CGPenalty/IpPiecewisePenalty.cpp
+++ b/src/contrib/CGPenalty/IpPiecewisePenalty.cpp
@@ -56,7 +56,7 @@ bool PiecewisePenalty::Acceptable(
          }
       }
       // Then check the ending entry of the list.
-      iter = PiecewisePenalty_list_.end()--;
+      iter = PiecewisePenalty_list_.end() - 1;
       value = iter->barrier_obj + iter->pen_r * iter->infeasi - trial_barrier - iter->pen_r * trial_inf;
       if( value <= 0. && trial_inf <= iter->infeasi )
       {
@@ -73,7 +73,7 @@ bool PiecewisePenalty::Acceptable(
          }
       }
       // Finally, check the middle entries of the list.
-      for( iter = PiecewisePenalty_list_.begin() + 1; iter != PiecewisePenalty_list_.end(); ++iter )
+      for( iter = PiecewisePenalty_list_.begin() + 1; iter != PiecewisePenalty_list_.end() - 1; ++iter )
       {
          Number value_left, value_mid, value_right;
          value_mid = iter->barrier_obj + iter->pen_r * iter->infeasi - trial_barrier - iter->pen_r * trial_inf;
-- 
2.43.0


From ad4bfdaca56a69b1ce5acea3909e3d7cb15f69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 24/67] fix: penalty parameters of the Chen-Goldfarb line
 search must not be read uninitialized

---
 src/contrib/CGPenalty/IpCGPenaltyData.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyData.cpp b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
index 9f93162..aaef03c 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyData.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
@@ -29,6 +29,9 @@ bool CGPenaltyData::Initialize(
 
    penalty_initialized_ = false;
    kkt_penalty_initialized_ = false;
+   // with adaptive mu, the penalty parameters are read before the search direction calculator sets them
+   curr_penalty_ = 1.;
+   curr_kkt_penalty_ = 1.;
    curr_penalty_pert_ = 0.;
    max_alpha_x_ = 1.;
    never_try_pure_Newton_ = false;
-- 
2.43.0


From 7009084f85d313a5dba8ba2dd4ee0689c96b2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 25/67] fix: position of relaxed fixed variables must be known
 to the dependency detector

---
 src/Interfaces/IpTNLPAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 8d2d070..89e7545 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -502,6 +502,7 @@ bool TNLPAdapter::GetSpaces(
                      n_x_l++;
                      x_u_map[n_x_u] = n_x_var;
                      n_x_u++;
+                     x_not_fixed_map[n_x_var] = i;
                      n_x_var++;
                      break;
                   default:
-- 
2.43.0


From 06a740328ccd51471de8f584c440a0b5a8e5f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 26/67] fix: empty rows between nonempty ones in the conversion
 from triplet to CSR format

---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..be3c459 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row < irow )
          {
-            // this is in a new row
+            // this is in a new row (there may be empty rows in between)
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From 710b22bf1ee1d1d669f9d15645272219bb40a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 27/67] fix: slack-based scaling factors for linear systems
 extended by a low-rank Hessian

---
 .../LinearSolvers/IpSlackBasedTSymScalingMethod.cpp          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
index b72fdc7..80d92d8 100644
--- a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
+++ b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
@@ -24,7 +24,7 @@ bool SlackBasedTSymScalingMethod::InitializeImpl(
 }
 
 bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
-   Index         /*n*/,
+   Index         n,
    Index         /*nnz*/,
    const Index*  /*airn*/,
    const Index*  /*ajcn*/,
@@ -70,7 +70,8 @@ bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
    TripletHelper::FillValuesFromVector(ns, *tmp, scaling_factors);
    scaling_factors += ns;
 
-   for( Index i = 0; i < nc + nd; i++ )
+   // the system can be larger than nx+ns+nc+nd (low-rank Hessian in extended form)
+   for( Index i = 0; i < n - nx - ns; i++ )
    {
       scaling_factors[i] = 1.;
    }
-- 
2.43.0


From 6e377bbca34f28c0e77b599a31cbf49ec02125e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 28/67] fix: DenseSymMatrix::AddMatrix must apply beta also if
 alpha is zero

---
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 0761d78..d3b22eb 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -80,7 +80,7 @@ void DenseSymMatrix::AddMatrix(
    DBG_ASSERT(beta == 0. || initialized_);
    DBG_ASSERT(Dim() == A.Dim());
 
-   if( alpha == 0. )
+   if( alpha == 0. && beta == 1. )
    {
       return;
    }
-- 
2.43.0


From c1356bb199333f4b8abaa66e18a74d5bdfe37b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 29/67] fix: NaN does not satisfy the bounds of a numeric
 option

---
 src/Common/IpRegOptions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..f76b83f 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -557,11 +557,12 @@ public:
    ) const
    {
       DBG_ASSERT(type_ == OT_Number);
-      if( has_lower_ && ((lower_strict_ == true && value <= lower_) || (lower_strict_ == false && value < lower_)) )
+      // note that comparisons with NaN are always false
+      if( has_lower_ && !(lower_strict_ ? value > lower_ : value >= lower_) )
       {
          return false;
       }
-      if( has_upper_ && ((upper_strict_ == true && value >= upper_) || (upper_strict_ == false && value > upper_)) )
+      if( has_upper_ && !(upper_strict_ ? value < upper_ : value <= upper_) )
       {
          return false;
       }
-- 
2.43.0


From 12203e9567527439ab54b10270bfe1daa0fc1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 30/67] fix: empty quoted strings and unreadable streams when
 reading options

---
 src/Common/IpOptionsList.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index ec387bb..7c22797 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -863,10 +863,10 @@ bool OptionsList::readnexttoken(
 )
 {
    token.erase();
-   char c = is.get();
+   int c = is.get();
 
    // First get rid of all comments and white spaces
-   while( !is.eof() && (isspace(c) || c == '#') )
+   while( is.good() && (isspace(c) || c == '#') )
    {
       if( c == '#' )
       {
@@ -875,30 +875,36 @@ bool OptionsList::readnexttoken(
       c = is.get();
    }
 
+   if( !is.good() )
+   {
+      return false;
+   }
+
    bool inside_quotes = (c == '"');
    if( inside_quotes )
    {
-      if( is.eof() )
+      c = is.get();
+      if( !is.good() )
       {
          return false;   // eof after quotation symbol
       }
-      c = is.get();
-   }
-
-   if( is.eof() )
-   {
-      return false;
+      if( c == '"' )
+      {
+         // the empty string
+         inside_quotes = false;
+         c = is.get();
+      }
    }
 
    // Now read the token
-   while( !is.eof() && (inside_quotes || !isspace(c)) )
+   while( is.good() && (inside_quotes || !isspace(c)) )
    {
       token += (char) c;
       c = is.get();
       if( inside_quotes && (c == '"') )
       {
          inside_quotes = false;
-         if( !is.eof() )
+         if( is.good() )
          {
             c = is.get();
          }
-- 
2.43.0


From 2e0c342da0325270620df23a46814b689b177ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 31/67] fix: values of numeric options that are no number or
 too large for an integer must be refused

---
 src/Common/IpOptionsList.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7c22797..f4ea93c 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -15,6 +15,18 @@
 namespace Ipopt
 {
 
+/** whether a string consists of nothing but white space */
+static bool only_spaces(
+   const char* p
+)
+{
+   while( isspace((unsigned char) *p) )
+   {
+      ++p;
+   }
+   return *p == '\0';
+}
+
 bool OptionsList::SetStringValue(
    const std::string& tag,
    const std::string& value,
@@ -555,7 +567,7 @@ bool OptionsList::GetNumericValue(
       }
       char* p_end;
       Number retval = strtod(buffer, &p_end);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      if( p_end == buffer || !only_spaces(p_end) )
       {
          delete[] buffer;
          std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric value \"" + strvalue
@@ -621,8 +633,8 @@ bool OptionsList::GetIntegerValue(
    if( find_tag(tag, prefix, strvalue) )
    {
       char* p_end;
-      size_t retval = strtol(strvalue.c_str(), &p_end, 10);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      long retval = strtol(strvalue.c_str(), &p_end, 10);
+      if( p_end == strvalue.c_str() || !only_spaces(p_end) || static_cast<Index>(retval) != retval )
       {
          std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer value \"" + strvalue
                            + "\" found.\n";
@@ -762,7 +774,7 @@ bool OptionsList::ReadFromStream(
             }
             char* p_end;
             Number retval = strtod(buffer, &p_end);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            if( p_end == buffer || !only_spaces(p_end) )
             {
                delete[] buffer;
                std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric option value \""
@@ -777,8 +789,8 @@ bool OptionsList::ReadFromStream(
          else if( option->Type() == OT_Integer )
          {
             char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            long retval = strtol(value.c_str(), &p_end, 10);
+            if( p_end == value.c_str() || !only_spaces(p_end) || static_cast<Index>(retval) != retval )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
-- 
2.43.0


From 45ff5ce182fec03a2f2c9a1d081e40de7cb4235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 32/67] fix: Initialize must report an option without value at
 the end of the options file

---
 src/Interfaces/IpIpoptApplication.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 44525ae..866bf4c 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -168,7 +168,10 @@ ApplicationReturnStatus IpoptApplication::Initialize(
       if( is.good() )
       {
          // stream exists, read the content
-         options_->ReadFromStream(*jnlst_, is, allow_clobber);
+         if( !options_->ReadFromStream(*jnlst_, is, allow_clobber) )
+         {
+            return Invalid_Option;
+         }
       }
 
       bool no_output;
-- 
2.43.0


From 871afa64d8259a623142e64c9c3cb6e3fe64af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 33/67] fix: an unterminated quoted option name must be
 reported

---
 src/Common/IpOptionsList.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index f4ea93c..0b45b71 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -724,6 +724,14 @@ bool OptionsList::ReadFromStream(
 
       if( !readnexttoken(is, tag) )
       {
+         if( !tag.empty() )
+         {
+            // end of file inside of a quoted string
+            jnlst.Printf(J_ERROR, J_MAIN,
+                         "Error reading tag %s from file.\n", tag.c_str());
+            return false;
+         }
+
          // That's it - end of file reached.
          jnlst.Printf(J_DETAILED, J_MAIN,
                       "Finished reading options from file.\n");
-- 
2.43.0


From 4c670ef929c0ba193dd9644a1e15ad3ef19c536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 34/67] fix: long names and values must not be cut off in the
 printed list of options

---
 src/Common/IpOptionsList.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 0b45b71..6339e6b 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -27,6 +27,17 @@ static bool only_spaces(
    return *p == '\0';
 }
 
+/** adds blanks to the left or right of a string until it has at least the given width */
+static std::string padded(
+   const std::string& s,
+   size_t             width,
+   bool               leftaligned
+)
+{
+   std::string blanks(s.length() < width ? width - s.length() : 0, ' ');
+   return leftaligned ? s + blanks : blanks + s;
+}
+
 bool OptionsList::SetStringValue(
    const std::string& tag,
    const std::string& value,
@@ -674,8 +685,9 @@ void OptionsList::PrintList(
    list += buffer;
    for( std::map<std::string, OptionValue>::const_iterator p = options_.begin(); p != options_.end(); ++p )
    {
-      Snprintf(buffer, 255, "%40s = %-20s %6" IPOPT_INDEX_FORMAT "\n", p->first.c_str(), p->second.Value().c_str(), p->second.Counter());
-      list += buffer;
+      // name and value can be longer than the buffer
+      Snprintf(buffer, 255, " %6" IPOPT_INDEX_FORMAT "\n", p->second.Counter());
+      list += padded(p->first, 40, false) + " = " + padded(p->second.Value(), 20, true) + buffer;
    }
 }
 
@@ -702,8 +714,9 @@ void OptionsList::PrintUserOptions(
          {
             used = no;
          }
-         Snprintf(buffer, 255, "%40s = %-20s %4s\n", p->first.c_str(), p->second.Value().c_str(), used);
-         list += buffer;
+         // name and value can be longer than the buffer
+         Snprintf(buffer, 255, " %4s\n", used);
+         list += padded(p->first, 40, false) + " = " + padded(p->second.Value(), 20, true) + buffer;
       }
    }
 }
-- 
2.43.0


From 83f9c934bc8bbc02ad007ba5f0e21fb566c8eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 35/67] fix: all categories of the same priority must be in the
 documentation of options

---
 src/Common/IpRegOptions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index f76b83f..3cb9dfc 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -123,7 +123,8 @@ public:
       {
          DBG_ASSERT(IsValid(lhs));
          DBG_ASSERT(IsValid(rhs));
-         return lhs->priority_ > rhs->priority_;
+         // categories with the same priority are different
+         return lhs->priority_ > rhs->priority_ || (lhs->priority_ == rhs->priority_ && lhs->name_ < rhs->name_);
       }
    };
 
-- 
2.43.0


From 457ff22ba0217ad5b5b409a61d01841aebfb1666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 36/67] fix: initialize and copy all members of a registered
 option

---
 src/Common/IpRegOptions.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 3cb9dfc..27bf2ca 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -175,7 +175,12 @@ public:
       : type_(OT_Unknown),
         advanced_(false),
         has_lower_(false),
+        lower_strict_(false),
+        lower_(0.),
         has_upper_(false),
+        upper_strict_(false),
+        upper_(0.),
+        default_number_(0.),
         counter_(counter)
    { }
 
@@ -194,7 +199,12 @@ public:
         type_(OT_Unknown),
         advanced_(advanced),
         has_lower_(false),
+        lower_strict_(false),
+        lower_(0.),
         has_upper_(false),
+        upper_strict_(false),
+        upper_(0.),
+        default_number_(0.),
         counter_(counter)
    { }
 
@@ -208,10 +218,14 @@ public:
         type_(copy.type_),
         advanced_(copy.advanced_),
         has_lower_(copy.has_lower_),
+        lower_strict_(copy.lower_strict_),
         lower_(copy.lower_),
         has_upper_(copy.has_upper_),
+        upper_strict_(copy.upper_strict_),
         upper_(copy.upper_),
+        default_number_(copy.default_number_),
         valid_strings_(copy.valid_strings_),
+        default_string_(copy.default_string_),
         counter_(copy.counter_)
    { }
 
-- 
2.43.0


From b7baa087431e6560ae8d478f7ead9f99c12cd680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 37/67] fix: messages longer than the buffer of a stream
 journal must not be written behind its end

---
 src/Common/IpJournalist.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/Common/IpJournalist.cpp b/src/Common/IpJournalist.cpp
index eab931a..4701be7 100644
--- a/src/Common/IpJournalist.cpp
+++ b/src/Common/IpJournalist.cpp
@@ -509,8 +509,33 @@ void StreamJournal::PrintfImpl(
    DBG_START_METH("StreamJournal::PrintfImpl", 0);
    if( os_ )
    {
+#ifdef HAVE_VSNPRINTF
+# ifdef IPOPT_HAS_VA_COPY
+      va_list apcopy;
+      va_copy(apcopy, ap);
+# endif
+      int len = vsnprintf(buffer_, sizeof(buffer_), pformat, ap);
+# ifdef IPOPT_HAS_VA_COPY
+      if( len >= (int) sizeof(buffer_) )
+      {
+         // message does not fit into buffer_
+         std::vector<char> longbuffer(len + 1);
+         vsnprintf(&longbuffer[0], longbuffer.size(), pformat, apcopy);
+         *os_ << &longbuffer[0];
+      }
+      else
+# endif
+      if( len >= 0 )
+      {
+         *os_ << buffer_;
+      }
+# ifdef IPOPT_HAS_VA_COPY
+      va_end(apcopy);
+# endif
+#else
       vsprintf(buffer_, pformat, ap);
       *os_ << buffer_;
+#endif
       DBG_EXEC(0, *os_ << std::flush);
    }
 }
-- 
2.43.0


From cada470be7f2cfdf15e658fef7c441138c81419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 38/67] fix: LaTeX documentation of a string option must not
 repeat the descriptions of previous values

---
 src/Common/IpRegOptions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Common/IpRegOptions.cpp b/src/Common/IpRegOptions.cpp
index 9e9cd4d..bfe415d 100644
--- a/src/Common/IpRegOptions.cpp
+++ b/src/Common/IpRegOptions.cpp
@@ -279,6 +279,7 @@ void RegisteredOption::OutputLatexDescription(
 
          if( (*i).description_.length() > 0 )
          {
+            latex_desc = "";
             MakeValidLatexString((*i).description_, latex_desc);
             jnlst.Printf(J_SUMMARY, J_DOCUMENTATION,
                          ": %s", latex_desc.c_str());
-- 
2.43.0


From 00f3ac83b6eb4ea5418fec454a7d07c59b588f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 39/67] fix: ElementWiseSelect must select by the sign of the
 entries only

---
 src/LinAlg/IpDenseVector.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..e10d512 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -405,9 +405,10 @@ void DenseVector::ElementWiseSelectImpl(
       {
          return;
       }
+      const Number sgn = scalar_ > 0.0 ? 1.0 : -1.0;
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = sgn * dense_x->scalar_;
       }
       else
       {
@@ -415,7 +416,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = sgn * values_x[i];
          }
       }
    }
@@ -423,20 +424,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From 29c217b7fb35f62a33d51b7588d58d6d51c43481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 40/67] fix: CopyToPos must copy the value of a homogeneous
 vector and keep the other elements

---
 src/LinAlg/IpDenseVector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index e10d512..91e01f2 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1545,12 +1545,17 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
+   if( initialized_ && homogeneous_ )
+   {
+      // keep values of elements outside of the subrange
+      set_values_from_scalar();
+   }
    Number* vals = values_allocated();
    homogeneous_ = false;
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From 4b2b17cfdccd660f5f2506b81b781b1d7989e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 41/67] fix: ElementWiseSqrt must leave an empty vector alone

---
 src/LinAlg/IpDenseVector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 91e01f2..cb9262d 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -600,6 +600,12 @@ void DenseVector::ElementWiseAbsImpl()
 void DenseVector::ElementWiseSqrtImpl()
 {
    DBG_ASSERT(initialized_);
+
+   if( Dim() == 0 )
+   {
+      return;
+   }
+
    if( homogeneous_ )
    {
       scalar_ = std::sqrt(scalar_);
-- 
2.43.0


From 36a172d6985a032e9bca38fcb5755725c8bc4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 42/67] fix: DenseVector::AddTwoVectors must add the second
 vector only once

---
 src/LinAlg/IpDenseVector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index cb9262d..b8b32c2 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1032,10 +1032,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From 7110f3fdd00b1e03d60c96cae6b4de88363990c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 43/67] fix: IpBlasGemv must not exchange the numbers of rows
 and columns

---
 src/LinAlg/IpBlas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpBlas.cpp b/src/LinAlg/IpBlas.cpp
index 735e5e2..82d0c2b 100644
--- a/src/LinAlg/IpBlas.cpp
+++ b/src/LinAlg/IpBlas.cpp
@@ -322,7 +322,7 @@ void IpBlasGemv(
    Index         incY
 )
 {
-   ipindex M = nCols, N = nRows, LDA = ldA, INCX = incX, INCY = incY;
+   ipindex M = nRows, N = nCols, LDA = ldA, INCX = incX, INCY = incY;
 
    char TRANS;
    if( trans )
-- 
2.43.0


From 9c5505f485ba16c18fdff15ba976f3730ad6603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 44/67] fix: row and column norms of dense matrices must follow
 the storage by columns

---
 src/LinAlg/IpDenseGenMatrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 481f65b..0b65f3b 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -384,9 +384,9 @@ void DenseGenMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
 
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol < NCols(); jcol++ )
+      for( Index irow = 0; irow < NRows(); irow++ )
       {
          vec_vals[irow] = Max(vec_vals[irow], std::abs(*vals));
          vals++;
@@ -409,7 +409,7 @@ void DenseGenMatrix::ComputeColAMaxImpl(
    const Number* vals = values_;
    for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      Index i = IpBlasIamax(NRows(), vals, 1);
+      Index i = IpBlasIamax(NRows(), vals, 1) - 1;
       vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
       vals += NRows();
    }
-- 
2.43.0


From 7a146756bcac1f661062ec8453efac6abc948feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 45/67] fix: row norms of dense symmetric matrices must follow
 the storage by columns

---
 src/LinAlg/IpDenseSymMatrix.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index d3b22eb..db9e274 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -241,15 +241,13 @@ void DenseSymMatrix::ComputeRowAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&rows_norms));
    Number* vec_vals = dense_vec->Values();
 
-   const Number* vals = values_;
    for( Index irow = 0; irow < NRows(); irow++ )
    {
       for( Index jcol = 0; jcol <= irow; jcol++ )
       {
-         const Number f = std::abs(*vals);
+         const Number f = std::abs(values_[irow + jcol * NRows()]);
          vec_vals[irow] = Max(vec_vals[irow], f);
          vec_vals[jcol] = Max(vec_vals[jcol], f);
-         vals++;
       }
    }
 }
-- 
2.43.0


From 88b194b50a2be9f7875f9bbb84269f71a82589d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 46/67] fix: an ExpandedMultiVectorMatrix with finite entries
 has valid numbers

---
 src/LinAlg/IpExpandedMultiVectorMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
index 9b45e88..f0e7cf3 100644
--- a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
+++ b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
@@ -168,7 +168,7 @@ bool ExpandedMultiVectorMatrix::HasValidNumbersImpl() const
 {
    for( Index i = 0; i < NRows(); i++ )
    {
-      if( IsValid(vecs_[i]) && vecs_[i]->HasValidNumbers() )
+      if( IsValid(vecs_[i]) && !vecs_[i]->HasValidNumbers() )
       {
          return false;
       }
-- 
2.43.0


From a485d7dcfbcf8679b1d7f297548a5e297cf47491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 47/67] fix: row norms and AddMSinvZ of an identity matrix must
 take its factor into account

---
 src/LinAlg/IpIdentityMatrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..cc18a52 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -52,12 +52,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::abs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::abs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
@@ -91,7 +91,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
-- 
2.43.0


From 69033323ff14d1baa359fdfd640871a3b7140108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 48/67] fix: row norms of a SymTMatrix must not discard the
 given norms if not asked to initialize them

---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..118f180 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -182,9 +182,6 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
-
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
    {
-- 
2.43.0


From 896e2abd19b22a795cab9032797a1d6a4f95c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 49/67] fix: column norms of a compound matrix belong to its
 block columns

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index c994c78..8519ccf 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -702,7 +702,7 @@ void CompoundMatrix::ComputeColAMaxImpl(
             SmartPtr<Vector> vec_i;
             if( comp_vec )
             {
-               vec_i = comp_vec->GetCompNonConst(irow);
+               vec_i = comp_vec->GetCompNonConst(jcol);
             }
             else
             {
-- 
2.43.0


From 4e410a7b3abd1615628c5eb0e7b19babd6da082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 50/67] fix: row norms of a compound symmetric matrix need the
 column norms of the blocks below the diagonal

---
 src/LinAlg/IpCompoundSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundSymMatrix.cpp b/src/LinAlg/IpCompoundSymMatrix.cpp
index 0c190a4..f653f1b 100644
--- a/src/LinAlg/IpCompoundSymMatrix.cpp
+++ b/src/LinAlg/IpCompoundSymMatrix.cpp
@@ -231,7 +231,7 @@ void CompoundSymMatrix::ComputeRowAMaxImpl(
          }
          else if( jcol > irow && ConstComp(jcol, irow) )
          {
-            ConstComp(jcol, irow)->ComputeRowAMax(*vec_i, false);
+            ConstComp(jcol, irow)->ComputeColAMax(*vec_i, false);
          }
       }
    }
-- 
2.43.0


From bba16c54c4a5d392080fc4fffbdc14035945656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 51/67] fix: operations of dense matrices must accept
 homogeneous vectors

---
 src/LinAlg/IpDenseGenMatrix.cpp | 6 +++---
 src/LinAlg/IpDenseSymMatrix.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 0b65f3b..00ed94c 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -43,7 +43,7 @@ void DenseGenMatrix::ScaleColumns(
    DBG_ASSERT(scal_vec.Dim() == NCols());
    DBG_ASSERT(initialized_);
 
-   const Number* scal_values = scal_vec.Values();
+   const Number* scal_values = scal_vec.ExpandedValues();
 
    for( Index j = 0; j < NCols(); j++ )
    {
@@ -346,7 +346,7 @@ void DenseGenMatrix::MultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = false;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::TransMultVectorImpl(
@@ -368,7 +368,7 @@ void DenseGenMatrix::TransMultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = true;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::ComputeRowAMaxImpl(
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index db9e274..596166b 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,7 +51,7 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
-   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseSymMatrix::FillIdentity(
@@ -195,7 +195,7 @@ void DenseSymMatrix::SpecialAddForLMSR1(
    DBG_ASSERT(dim == L.NCols());
 
    // First add the diagonal matrix
-   const Number* Dvalues = D.Values();
+   const Number* Dvalues = D.ExpandedValues();
    for( Index i = 0; i < dim; i++ )
    {
       values_[i + i * dim] += Dvalues[i];
-- 
2.43.0


From 041c91df486d8ef473fcd2cbd48d82f6819a815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 52/67] fix: a compound matrix with different numbers of block
 rows and columns is not diagonal

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index 8519ccf..9f8f386 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -859,7 +859,7 @@ void CompoundMatrixSpace::SetCompSpace(
    comp_spaces_[irow][jcol] = &mat_space;
    allocate_block_[irow][jcol] = auto_allocate;
 
-   diagonal_ = true;
+   diagonal_ = NComps_Rows() == NComps_Cols();
    for( Index i = 0; i < NComps_Rows(); i++ )
    {
       for( Index j = 0; j < NComps_Cols(); j++ )
-- 
2.43.0


From a99c4aaaff16dd80a5ba32a9db7618e52e60589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 53/67] fix: gradient of Lagrangian for fixed variables in
 TNLP::get_curr_violations() with fixed_variable_treatment=make_constraint

The gradient of the term y_c*(x-x_fixed) is y_c and already equals -z_L+z_U,
but y_c*(1-x_fixed) was added on top of it.
---
 src/Interfaces/IpTNLP.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 66b6067..b1a34b9 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -894,25 +894,8 @@ bool TNLP::get_curr_violations(
       // such that the Gradient of the Lagrangian will be zero, so leaving them at 0 is correct here
       tnlp_adapter->ResortX(*curr_grad_lag_x(ip_data, ip_cq, orignlp, restonlp, scaled), grad_lag_x, false);
 
-      // if fixed_variable_treatment is make_constraint, then fixed variable contribute y_c*x to the Lagrangian
-      // however, we want to get -z_L + z_U
-      // using z_L = -y_c^-, z_U = y_c^+, this means to add -z_L + z_U - y_c x = y_c - y_c x = y_c (1-x)
-      if( n_x_fixed > 0 && fixed_variable_treatment == TNLPAdapter::MAKE_CONSTRAINT )
-      {
-         SmartPtr<const DenseVector> y_c = curr_y_c(ip_data, ip_cq, orignlp, restonlp, scaled);
-         const Number* c_rhs = tnlp_adapter->GetC_Rhs();
-         DBG_ASSERT(y_c->Dim() >= n_x_fixed);
-         if( y_c->IsHomogeneous() )
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Scalar() * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-         else
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Values()[y_c->Dim() - n_x_fixed + i] * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-      }
+      // if fixed_variable_treatment is make_constraint, then a fixed variable contributes y_c*(x-x_fixed) to the Lagrangian,
+      // the derivative of which, y_c, equals -z_L + z_U for z_L = y_c^-, z_U = y_c^+, so nothing needs to be corrected here
    }
 
    if( nlp_constraint_violation != NULL || compl_g != NULL )
-- 
2.43.0


From e276fb28890883b5674abb732db3a704601bbb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 54/67] fix: scaling of constraint bounds in
 TNLP::get_curr_violations()

orig_d_L() and orig_d_U() have entries only for those inequalities that have the
respective bound, so the scaling for the full d(x) was applied to the wrong entries.
---
 src/Interfaces/IpTNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index b1a34b9..3f3352d 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -914,7 +914,7 @@ bool TNLP::get_curr_violations(
          // orig_d_L is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_L);
+            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_L(), d_L, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_L() returns NULL, use d_L instead
@@ -949,7 +949,7 @@ bool TNLP::get_curr_violations(
          // orig_d_U is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_U);
+            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_U(), d_U, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_U() returns NULL, use d_U instead
-- 
2.43.0


From d3dc328eaa3aace1fe6aecfa2d6dadce8ca383fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 55/67] fix: restoration phase output with print level J_MATRIX
 when no Hessian has been computed yet

---
 src/Algorithm/IpRestoIterationOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoIterationOutput.cpp b/src/Algorithm/IpRestoIterationOutput.cpp
index d9d662f..9725374 100644
--- a/src/Algorithm/IpRestoIterationOutput.cpp
+++ b/src/Algorithm/IpRestoIterationOutput.cpp
@@ -290,7 +290,10 @@ void RestoIterationOutput::WriteOutput()
    {
       IpCq().curr_jac_c()->Print(Jnlst(), J_MATRIX, J_MAIN, "jac_c");
       IpCq().curr_jac_d()->Print(Jnlst(), J_MATRIX, J_MAIN, "jac_d");
-      IpData().W()->Print(Jnlst(), J_MATRIX, J_MAIN, "W");
+      if( IsValid(IpData().W()) )
+      {
+         IpData().W()->Print(Jnlst(), J_MATRIX, J_MAIN, "W");
+      }
    }
 
    Jnlst().Printf(J_DETAILED, J_MAIN,
-- 
2.43.0


From b24c03009ecaa6fc054b78d6c5c99d169bc9fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 56/67] fix: scale user-provided initial bound multipliers
 inversely to the variables

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 08d84c9..3e2adb7 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -440,7 +440,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         // multipliers scale like the gradient, i.e., inversely to x
+         SmartPtr<Vector> z_x = x_space_->MakeNew();
+         Px_L_->MultVector(1., *z_L, 0., *z_x);
+         z_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(z_x));
+         Px_L_->TransMultVector(1., *z_x, 0., *z_L);
       }
       if( obj_scal != 1. )
       {
@@ -452,7 +456,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         // multipliers scale like the gradient, i.e., inversely to x
+         SmartPtr<Vector> z_x = x_space_->MakeNew();
+         Px_U_->MultVector(1., *z_U, 0., *z_x);
+         z_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(z_x));
+         Px_U_->TransMultVector(1., *z_x, 0., *z_U);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From e4adbd6bcd31edbb381ff7c2289b721faeca23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 57/67] fix: derived quantities of the restoration phase
 problem that depend on mu through the objective were cached without it

---
 src/Algorithm/IpIpoptCalculatedQuantities.cpp | 56 ++++++++++++++-----
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/Algorithm/IpIpoptCalculatedQuantities.cpp b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
index df366ea..1f07c77 100644
--- a/src/Algorithm/IpIpoptCalculatedQuantities.cpp
+++ b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
@@ -2009,9 +2009,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::curr_grad_lag_x()
    deps[3] = GetRawPtr(z_L);
    deps[4] = GetRawPtr(z_U);
 
-   if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps) )
+   // the objective of the restoration phase problem depends on mu
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
+
+   if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
    {
-      if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps) )
+      if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
       {
          SmartPtr<Vector> tmp = x->MakeNew();
          DBG_PRINT_VECTOR(2, "curr_grad_f", *curr_grad_f());
@@ -2023,7 +2027,7 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::curr_grad_lag_x()
          ip_nlp_->Px_U()->MultVector(1., *z_U, 1., *tmp);
          result = ConstPtr(tmp);
       }
-      curr_grad_lag_x_cache_.AddCachedResult(result, deps);
+      curr_grad_lag_x_cache_.AddCachedResult(result, deps, sdeps);
    }
 
    return result;
@@ -2048,9 +2052,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_grad_lag_x()
    deps[3] = GetRawPtr(z_L);
    deps[4] = GetRawPtr(z_U);
 
-   if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps) )
+   // the objective of the restoration phase problem depends on mu
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
+
+   if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
    {
-      if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps) )
+      if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
       {
          SmartPtr<Vector> tmp = x->MakeNew();
          DBG_PRINT_VECTOR(2, "trial_grad_f", *trial_grad_f());
@@ -2060,7 +2068,7 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_grad_lag_x()
          ip_nlp_->Px_U()->MultVector(1., *z_U, 1., *tmp);
          result = ConstPtr(tmp);
       }
-      trial_grad_lag_x_cache_.AddCachedResult(result, deps);
+      trial_grad_lag_x_cache_.AddCachedResult(result, deps, sdeps);
    }
 
    return result;
@@ -2676,8 +2684,10 @@ Number IpoptCalculatedQuantities::curr_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   // the objective of the restoration phase problem depends on mu
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !curr_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -2722,8 +2732,10 @@ Number IpoptCalculatedQuantities::trial_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   // the objective of the restoration phase problem depends on mu
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !trial_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -2769,8 +2781,10 @@ Number IpoptCalculatedQuantities::unscaled_curr_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   // the objective of the restoration phase problem depends on mu
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !unscaled_curr_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -3073,7 +3087,11 @@ Number IpoptCalculatedQuantities::curr_nlp_error()
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
 
-   if( !curr_nlp_error_cache_.GetCachedResult(result, tdeps) )
+   // the objective of the restoration phase problem depends on mu
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
+
+   if( !curr_nlp_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
       Number s_d = 0;
       Number s_c = 0;
@@ -3097,7 +3115,7 @@ Number IpoptCalculatedQuantities::curr_nlp_error()
                  curr_complementarity(mu_target_, NORM_MAX)));
       result = Max(result, curr_complementarity(mu_target_, NORM_MAX) / s_c);
 
-      curr_nlp_error_cache_.AddCachedResult(result, tdeps);
+      curr_nlp_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
@@ -3129,7 +3147,11 @@ Number IpoptCalculatedQuantities::unscaled_curr_nlp_error()
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
 
-   if( !unscaled_curr_nlp_error_cache_.GetCachedResult(result, tdeps) )
+   // the objective of the restoration phase problem depends on mu
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
+
+   if( !unscaled_curr_nlp_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
 
       // Dual infeasibility
@@ -3139,7 +3161,7 @@ Number IpoptCalculatedQuantities::unscaled_curr_nlp_error()
       // Complementarity
       result = Max(result, unscaled_curr_complementarity(mu_target_, NORM_MAX));
 
-      unscaled_curr_nlp_error_cache_.AddCachedResult(result, tdeps);
+      unscaled_curr_nlp_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
@@ -3222,8 +3244,10 @@ Number IpoptCalculatedQuantities::curr_primal_dual_system_error(
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = mu;
+   // the objective of the restoration phase problem depends on mu
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !curr_primal_dual_system_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
@@ -3282,8 +3306,10 @@ Number IpoptCalculatedQuantities::trial_primal_dual_system_error(
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = mu;
+   // the objective of the restoration phase problem depends on mu
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !trial_primal_dual_system_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
-- 
2.43.0


From 9f104855d9d8fe09b626f162d41ec200203f4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 58/67] fix: problems without constraints could not be solved
 through the C interface if the constraint callbacks are NULL

---
 src/Interfaces/IpStdInterfaceTNLP.cpp | 29 ++++++++++++++++++++++++---
 src/Interfaces/IpStdInterfaceTNLP.hpp |  5 ++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index c503246..bf4f596 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -66,6 +66,7 @@ StdInterfaceTNLP::StdInterfaceTNLP(
      x_scaling_(NULL),
      g_scaling_(NULL),
      non_const_x_(NULL),
+     skipped_new_x_(false),
      x_sol_(x_sol),
      z_L_sol_(z_L_sol),
      z_U_sol_(z_U_sol),
@@ -86,9 +87,9 @@ StdInterfaceTNLP::StdInterfaceTNLP(
    ASSERT_EXCEPTION(index_style_ == 0 || index_style_ == 1, INVALID_STDINTERFACE_NLP, "Valid index styles are 0 (C style) or 1 (Fortran style)");
    ASSERT_EXCEPTION(start_x_, INVALID_STDINTERFACE_NLP, "No initial point for the variables provided.");
    ASSERT_EXCEPTION(eval_f_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the value of objective function provided.");
-   ASSERT_EXCEPTION(eval_g_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the values of constraints provided.");
+   ASSERT_EXCEPTION(eval_g_ || n_con_ == 0, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the values of constraints provided.");
    ASSERT_EXCEPTION(eval_grad_f_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the gradient of objective function provided.");
-   ASSERT_EXCEPTION(eval_jac_g_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the Jacobian of the constraints provided.");
+   ASSERT_EXCEPTION(eval_jac_g_ || n_con_ == 0, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the Jacobian of the constraints provided.");
    ASSERT_EXCEPTION(eval_h_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the Hessian of the constraints provided.");
 
    if( x_scaling != NULL )
@@ -293,6 +294,13 @@ bool StdInterfaceTNLP::eval_g(
 
    apply_new_x(new_x, n, x);
 
+   if( !eval_g_ )
+   {
+      // there are no constraints, so nothing to evaluate
+      skipped_new_x_ = skipped_new_x_ || new_x;
+      return true;
+   }
+
    Bool retval = (*eval_g_)(n, non_const_x_, (Bool) new_x, m, g, user_data_);
 
    return (retval != 0);
@@ -315,6 +323,14 @@ bool StdInterfaceTNLP::eval_jac_g(
    DBG_ASSERT((iRow != NULL && jCol != NULL && values == NULL) || (iRow == NULL && jCol == NULL && values != NULL));
 
    apply_new_x(new_x, n, x);
+
+   if( !eval_jac_g_ )
+   {
+      // there are no constraints, so nothing to evaluate
+      skipped_new_x_ = skipped_new_x_ || new_x;
+      return true;
+   }
+
    Bool retval = (*eval_jac_g_)(n, non_const_x_, (Bool) new_x, m, nele_jac, iRow, jCol, values, user_data_);
 
    return (retval != 0);
@@ -437,11 +453,18 @@ void StdInterfaceTNLP::finalize_solution(
 }
 
 void StdInterfaceTNLP::apply_new_x(
-   bool  new_x,
+   bool& new_x,
    Index n,
    const Number* x
 )
 {
+   if( skipped_new_x_ && x != NULL )
+   {
+      // the user has not seen this x yet, because there was no callback to pass it to
+      new_x = true;
+      skipped_new_x_ = false;
+   }
+
    if( new_x )
    {
       DBG_ASSERT(x != NULL);
diff --git a/src/Interfaces/IpStdInterfaceTNLP.hpp b/src/Interfaces/IpStdInterfaceTNLP.hpp
index 7acd334..ebfe041 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.hpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.hpp
@@ -288,6 +288,9 @@ private:
    /** A non-const copy of x - this is kept up-to-date in apply_new_x */
    Number* non_const_x_;
 
+   /** Whether a new x was not passed on to the user yet, because no callback for constraints was given */
+   bool skipped_new_x_;
+
    /** @name Pointers to the user provided vectors for solution */
    ///@{
    Number* x_sol_;
@@ -307,7 +310,7 @@ private:
 
    /** Update the internal state if the x value changes */
    void apply_new_x(
-      bool          new_x,
+      bool&         new_x,
       Index         n,
       const Number* x
    );
-- 
2.43.0


From f83a53f88c39a19ed40e226828737fe44d6ff505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 59/67] fix: C interface refused a warm start without
 multipliers for constraints if there are no constraints

---
 src/Interfaces/IpStdInterfaceTNLP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index bf4f596..5a157ee 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -234,7 +234,7 @@ bool StdInterfaceTNLP::get_starting_point(
       }
    }
 
-   if( init_lambda )
+   if( init_lambda && m > 0 )
    {
       if( start_lam_ == NULL )
       {
-- 
2.43.0


From 1cd978a3b2029077e2a562ff31be1f2112194ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 60/67] fix: ReOptimizeTNLP threw an exception if option
 replace_bounds is set

---
 src/Interfaces/IpIpoptApplication.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 866bf4c..78f1398 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -587,7 +587,14 @@ ApplicationReturnStatus IpoptApplication::ReOptimizeNLP(
    ASSERT_EXCEPTION(IsValid(alg_), INVALID_WARMSTART, "ReOptimizeNLP called before OptimizeNLP.");
    OrigIpoptNLP* orig_nlp = static_cast<OrigIpoptNLP*>(GetRawPtr(ip_nlp_));
    DBG_ASSERT(dynamic_cast<OrigIpoptNLP*> (GetRawPtr(ip_nlp_)));
-   ASSERT_EXCEPTION(orig_nlp->nlp() == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
+   SmartPtr<NLP> used_nlp = orig_nlp->nlp();
+   NLPBoundsRemover* bounds_remover = dynamic_cast<NLPBoundsRemover*>(GetRawPtr(used_nlp));
+   if( bounds_remover != NULL )
+   {
+      // OptimizeNLP has wrapped the NLP because of option replace_bounds
+      used_nlp = bounds_remover->nlp();
+   }
+   ASSERT_EXCEPTION(used_nlp == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
 
    return call_optimize();
 }
-- 
2.43.0


From 751ef7783dbebfd7ac756189ae7d92974117acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 61/67] fix: original bounds of a previous solve were used when
 re-optimizing with bound_relax_factor set to 0

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 3e2adb7..5bf0cfc 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -358,6 +358,14 @@ bool OrigIpoptNLP::InitializeStructures(
       relax_bounds(-bound_relax_factor_, *d_L);
       relax_bounds(bound_relax_factor_, *d_U);
    }
+   else
+   {
+      // do not keep the original bounds from a previous solve
+      orig_x_L_ = NULL;
+      orig_x_U_ = NULL;
+      orig_d_L_ = NULL;
+      orig_d_U_ = NULL;
+   }
 
    x_L_ = ConstPtr(x_L);
    Px_L_ = ConstPtr(Px_L);
-- 
2.43.0


From 8436038d063c6c36fd7bf86924a9961b1c753001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 62/67] fix: the piecewise penalty list of a previous solve was
 used when re-optimizing with the cg-penalty line search

---
 src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index 8975527..5e4ac0a 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -213,6 +213,8 @@ bool CGPenaltyLSAcceptor::InitializeImpl(
    CGPenData().SetPenaltyUninitialized();
    ls_counter_ = 0;
    best_KKT_error_ = -1.;
+   best_iterate_ = NULL;
+   PiecewisePenalty_.Clear();
    accepted_by_Armijo_ = true;
    //never_do_restor_ = true;
    jump_for_tiny_step_ = 0;
-- 
2.43.0


From 2f3cbc1709965216b008317a84fd1b2328954a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 63/67] fix: restoration phase linear solver used vectors of a
 previous solve when re-optimizing a problem with changed dimensions

---
 src/Algorithm/IpAugRestoSystemSolver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Algorithm/IpAugRestoSystemSolver.cpp b/src/Algorithm/IpAugRestoSystemSolver.cpp
index 5f95084..df2c111 100644
--- a/src/Algorithm/IpAugRestoSystemSolver.cpp
+++ b/src/Algorithm/IpAugRestoSystemSolver.cpp
@@ -49,6 +49,14 @@ bool AugRestoSystemSolver::InitializeImpl(
 )
 {
    bool retval = true;
+
+   // forget results from a previous solve
+   // these caches do not have dependencies that reflect the dimension of the problem if sigma_* are NULL
+   sigma_tilde_n_c_inv_cache_.Clear();
+   sigma_tilde_p_c_inv_cache_.Clear();
+   sigma_tilde_n_d_inv_cache_.Clear();
+   sigma_tilde_p_d_inv_cache_.Clear();
+
    if( !skip_orig_aug_solver_init_ )
    {
       retval = orig_aug_solver_->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), options, prefix);
-- 
2.43.0


From 8701b2d7a3d87159170f294e6cfdec6e9c2f3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 64/67] fix: restoration phase declared local infeasibility at
 points that satisfy all constraints

---
 src/Algorithm/IpRestoConvCheck.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoConvCheck.cpp b/src/Algorithm/IpRestoConvCheck.cpp
index 6f63421..eee4144 100644
--- a/src/Algorithm/IpRestoConvCheck.cpp
+++ b/src/Algorithm/IpRestoConvCheck.cpp
@@ -226,8 +226,10 @@ ConvergenceCheck::ConvergenceStatus RestoConvergenceCheck::CheckConvergence(
             // so we return here CONVERGED_TO_ACCEPTABLE_POINT and let MinC_1NrmRestorationPhase check again
             status = CONVERGED_TO_ACCEPTABLE_POINT;
          }
-         else if( orig_trial_inf_pr <= 1e2 * IpData().tol() )
+         else if( orig_trial_inf_pr <= 1e2 * IpData().tol()
+                  || orig_ip_cq->unscaled_trial_nlp_constraint_violation(NORM_MAX) <= 1e2 * IpData().tol() )
          {
+            // orig_trial_inf_pr may be large only because the slack variables do not match the values of the inequalities
             Jnlst().Printf(J_WARNING, J_LINE_SEARCH,
                            "Restoration phase converged to a feasible point that is\n"
                            "unacceptable to the filter for the original problem.\n");
-- 
2.43.0


From 7a9431c493de2aa5a82950abc0d3f4ef3b879d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 65/67] fix: TNLPReducer counted the Jacobian nonzeros of kept
 constraints wrongly for Fortran-style indices

---
 src/Interfaces/IpTNLPReducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPReducer.cpp b/src/Interfaces/IpTNLPReducer.cpp
index b6a603b..6527612 100644
--- a/src/Interfaces/IpTNLPReducer.cpp
+++ b/src/Interfaces/IpTNLPReducer.cpp
@@ -141,8 +141,9 @@ bool TNLPReducer::get_nlp_info(
       }
       nnz_jac_g_reduced_ = 0;
       nnz_jac_g_skipped_ = 0;
+      const Index offset = (index_style_orig_ == FORTRAN_STYLE ? 1 : 0);
       for( Index i = 0; i < nnz_jac_g_orig_; i++ )
-         if( g_keep_map_[iRow[i]] != -1 )
+         if( g_keep_map_[iRow[i] - offset] != -1 )
          {
             nnz_jac_g_reduced_++;
          }
-- 
2.43.0


From 65ae8f8d7cd9f1adab9b69c3536e53ae0e87ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 66/67] fix: replace_bounds used lower bound multipliers of a
 warm start with the wrong sign

---
 src/Algorithm/IpNLPBoundsRemover.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithm/IpNLPBoundsRemover.cpp b/src/Algorithm/IpNLPBoundsRemover.cpp
index d2babf3..fdd62fe 100644
--- a/src/Algorithm/IpNLPBoundsRemover.cpp
+++ b/src/Algorithm/IpNLPBoundsRemover.cpp
@@ -220,6 +220,11 @@ bool NLPBoundsRemover::GetStartingPoint(
    }
    bool retval = nlp_->GetStartingPoint(x, need_x, y_c, need_y_c, y_d_orig, need_y_d, z_L_orig, need_y_d, z_U_orig,
                                         need_y_d);
+   if( retval && need_y_d )
+   {
+      // the multipliers for lower bounds enter the Lagrangian with a negative sign
+      z_L_orig->Scal(-1.);
+   }
    return retval;
 }
 
-- 
2.43.0


From 97050777e9a18d2c1dd4af49113c1a87170a923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 67/67] fix: DiagMatrix::SetDiag did not mark the matrix as
 changed

---
 src/LinAlg/IpDiagMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpDiagMatrix.hpp b/src/LinAlg/IpDiagMatrix.hpp
index f12f84f..e484370 100644
--- a/src/LinAlg/IpDiagMatrix.hpp
+++ b/src/LinAlg/IpDiagMatrix.hpp
@@ -38,6 +38,7 @@ public:
    )
    {
       diag_ = &diag;
+      ObjectChanged();
    }
 
    /** Get the diagonal elements. */
-- 
2.43.0

