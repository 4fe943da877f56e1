From 2aa451f00c24a9d3805ff2732bf6f29fe50daf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 01/42] fix: re-run symbolic factorization after
 QPSolver::analyze

A solver that is re-analyzed for a problem with a different sparsity pattern
kept the symbolic factorization of the previous pattern.
---
 include/smooth/feedback/qp_solver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..8f9fa62 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -335,6 +335,9 @@ public:
       for (auto i = 0u; i < m; ++i) { nnz(n + i) = pbm.A.outerIndexPtr()[i + 1] - pbm.A.outerIndexPtr()[i] + 1; }
       H_.reserve(nnz);
     }
+
+    // sparsity pattern may have changed
+    ldlt_.first = true;
   }
 
   /**
-- 
2.43.0


From 4b60ebbafdb5e7ac343655d75273ecc5ac34b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 02/42] fix: time QPSolver with a monotonic clock

high_resolution_clock is the wall clock in libstdc++, so a clock adjustment
during a solve made max_time fire early or never. Comparing the elapsed time
also avoids overflow for large max_time values.
---
 include/smooth/feedback/qp_solver.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 8f9fa62..5507a3c 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -376,7 +376,7 @@ public:
       }
     }
 
-    const auto t0 = std::chrono::high_resolution_clock::now();
+    const auto t0 = std::chrono::steady_clock::now();
 
     // fill square symmetric system matrix H = [P A'; A 0]
     if constexpr (sparse) {
@@ -407,7 +407,7 @@ public:
       H_.template bottomRightCorner<M, M>(m, m) = (-rho_).cwiseInverse().asDiagonal();
     }
 
-    const auto t_fill = std::chrono::high_resolution_clock::now();
+    const auto t_fill = std::chrono::steady_clock::now();
 
     if (prm_.verbose) {
       using std::cout, std::left, std::setw, std::right;
@@ -431,7 +431,7 @@ public:
       ldlt_.ldlt.compute(H_);
     }
 
-    const auto t_factor = std::chrono::high_resolution_clock::now();
+    const auto t_factor = std::chrono::steady_clock::now();
 
     if (ldlt_.ldlt.info()) { ret_code = QPSolutionStatus::Unknown; }
 
@@ -498,21 +498,21 @@ public:
             << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
             << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
-            << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
+            << setw(10) << right << duration_cast<microseconds>(std::chrono::steady_clock::now() - t0).count()
             << '\n';
           // clang-format on
         }
 
         // check for timeout
         if (!ret_code) {
-          if (prm_.max_time && std::chrono::high_resolution_clock::now() > t0 + prm_.max_time.value()) {
+          if (prm_.max_time && std::chrono::steady_clock::now() - t0 > prm_.max_time.value()) {
             ret_code = QPSolutionStatus::MaxTime;
           }
         }
       }
     }
 
-    const auto t_iter = std::chrono::high_resolution_clock::now();
+    const auto t_iter = std::chrono::steady_clock::now();
 
     // polish solution if optimal
     if (ret_code.has_value() && ret_code.value() == QPSolutionStatus::Optimal && prm_.polish) {
@@ -530,7 +530,7 @@ public:
             << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
             << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
-            << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
+            << setw(10) << right << duration_cast<microseconds>(std::chrono::steady_clock::now() - t0).count()
             << '\n';
           // clang-format on
         }
@@ -541,7 +541,7 @@ public:
       }
     }
 
-    const auto t_polish = std::chrono::high_resolution_clock::now();
+    const auto t_polish = std::chrono::steady_clock::now();
 
     // unscale solution
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
-- 
2.43.0


From b861bd3edff508dbdb32fda61eef3995a3daa312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 03/42] fix: check QP stopping criteria for stop_check_iter of
 0 and 1

iter % 1 == 1 never holds, so with stop_check_iter = 1 the solver did not
terminate and ignored max_time, and stop_check_iter = 0 divided by zero.
---
 include/smooth/feedback/qp_solver.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 5507a3c..a333612 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -358,6 +358,9 @@ public:
     const Scalar alpha_comp = Scalar(1) - alpha;
     const Scalar sigma      = static_cast<Scalar>(prm_.sigma);
 
+    // iterations between checking stopping criteria
+    const uint32_t stop_check_iter = std::max<uint32_t>(1, prm_.stop_check_iter);
+
     // return code: when set algorithm is finished
     std::optional<QPSolutionStatus> ret_code = std::nullopt;
 
@@ -465,7 +468,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % stop_check_iter == 1 % stop_check_iter) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -479,7 +482,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % stop_check_iter == 1 % stop_check_iter) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From c683fde8e7c33beb155639871aaf313a12569bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 04/42] fix: only use upper triangular part of P in the QP
 solver

P is documented as upper triangular, but the stopping criteria, the objective
and the scaling used all of it.
---
 include/smooth/feedback/qp_solver.hpp | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index a333612..e20d804 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -352,6 +352,9 @@ public:
     // dynamic sizes
     const Eigen::Index n = pbm.A.cols(), m = pbm.A.rows();
 
+    // only upper triangular part of P is used
+    const auto P = pbm.P.template selfadjointView<Eigen::Upper>();
+
     // cast parameters to scalar type
     const Scalar rho_bar    = static_cast<Scalar>(prm_.rho);
     const Scalar alpha      = static_cast<Scalar>(prm_.alpha);
@@ -498,9 +501,9 @@ public:
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (P * (0.5 * x_us_) + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::steady_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -530,9 +533,9 @@ public:
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (P * (0.5 * x_us_) + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::steady_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -550,7 +553,7 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    sol_.objective = sol_.primal.dot(P * (0.5 * sol_.primal) + pbm.q);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -581,6 +584,9 @@ protected:
   {
     const Eigen::Index m = pbm.A.rows();
 
+    // only upper triangular part of P is used
+    const auto P = pbm.P.template selfadjointView<Eigen::Upper>();
+
     // norm function
     static const auto norm = [](auto && t) -> Scalar { return t.template lpNorm<Eigen::Infinity>(); };
 
@@ -592,7 +598,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = P * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -630,7 +636,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = P * dx_us_;
 
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
@@ -686,7 +692,9 @@ protected:
     // find "norm" of cost function
     for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
       for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
+        if (it.row() > it.col()) { continue; }  // only upper triangular part is used
         sx_inc_(it.col()) = std::max(sx_inc_(it.col()), std::fabs(it.value()));
+        sx_inc_(it.row()) = std::max(sx_inc_(it.row()), std::fabs(it.value()));
       }
     }
 
@@ -706,11 +714,11 @@ protected:
       sy_inc_.setZero();
       for (auto k = 0u; k < pbm.P.outerSize(); ++k) {
         for (Eigen::InnerIterator it(pbm.P, k); it; ++it) {
+          if (it.row() > it.col()) { continue; }  // only upper triangular part is used
           // upper left block of H
-          sx_inc_(it.col()) = std::max({
-            sx_inc_(it.col()),
-            std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value()),
-          });
+          const Scalar Pij  = std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value());
+          sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
+          sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
         }
       }
       for (auto k = 0u; k < pbm.A.outerSize(); ++k) {
-- 
2.43.0


From b900d21883f581b3e65a35444d5ff87af3a84371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 05/42] fix: correct dual infeasibility certificate in QP
 solver

Rows without bounds were required to have non-negative A dx so that unbounded
problems went undetected, and directions along which the cost does not decrease
were accepted as certificates so that feasible problems were reported as
DualInfeasible.
---
 include/smooth/feedback/qp_solver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index e20d804..72b2e7f 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -639,9 +639,11 @@ protected:
     Px_.noalias()        = P * dx_us_;
 
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
-      if (pbm.u(i) == inf) {
+      if (pbm.u(i) == inf && pbm.l(i) == -inf) {
+        continue;  // unbounded
+      } else if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
       } else if (pbm.l(i) == -inf) {
         dual_infeasible &= (Ax_(i) <= prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From dd2f9c644a047705de0da9087936b09160672a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 06/42] fix: handle QPs without constraints in scaling

maxCoeff() must not be called on an empty vector.
---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 72b2e7f..93a9d0d 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -742,7 +742,10 @@ protected:
       sx_.applyOnTheLeft(sx_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
       sy_.applyOnTheLeft(sy_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
-             && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
+             && std::max(
+                 (sx_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>(),
+                 (sy_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>())
+                 > 0.1);
   }
 
 private:
-- 
2.43.0


From 3f1de97da2c1aa82debb3da3e074e62e56524b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 07/42] fix: discard polished QP solutions that are not optimal

Polishing replaced the solution unconditionally, so with a wrong active set
guess (e.g. when all multipliers vanish) an infeasible point was returned as
Optimal. The polished solution is now only used if it satisfies the optimality
conditions, and PolishFailed is no longer overwritten by Optimal.
---
 include/smooth/feedback/asif.hpp      |  2 +-
 include/smooth/feedback/mpc.hpp       |  2 +-
 include/smooth/feedback/qp_solver.hpp | 20 ++++++++++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/asif.hpp b/include/smooth/feedback/asif.hpp
index 4026deb..c035d2e 100644
--- a/include/smooth/feedback/asif.hpp
+++ b/include/smooth/feedback/asif.hpp
@@ -96,7 +96,7 @@ public:
     asif_to_qp_update<G, U, DT>(qp_, pbm, prm_.asif, f_, std::forward<decltype(h)>(h), std::forward<decltype(bu)>(bu));
     auto sol = feedback::solve_qp(qp_, prm_.qp, warmstart_);
 
-    if (sol.code == QPSolutionStatus::Optimal) { warmstart_ = sol; }
+    if (sol.code == QPSolutionStatus::Optimal || sol.code == QPSolutionStatus::PolishFailed) { warmstart_ = sol; }
 
     return {rplus(u_des, sol.primal.template head<Dof<U>>()), sol.code};
   }
diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1a9a19b..2a6b886 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -509,7 +509,7 @@ public:
     // save solution to warmstart next iteration
     if (prm_.warmstart) {
       // clang-format off
-      if (sol.code == QPSolutionStatus::Optimal || sol.code == QPSolutionStatus::MaxTime || sol.code == QPSolutionStatus::MaxIterations) {
+      if (sol.code == QPSolutionStatus::Optimal || sol.code == QPSolutionStatus::PolishFailed || sol.code == QPSolutionStatus::MaxTime || sol.code == QPSolutionStatus::MaxIterations) {
         warmstart_ = sol;
       }
       // clang-format on
diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 93a9d0d..f5cdea8 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -522,7 +522,23 @@ public:
 
     // polish solution if optimal
     if (ret_code.has_value() && ret_code.value() == QPSolutionStatus::Optimal && prm_.polish) {
-      if (detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_)) {
+      auto polished  = sol_;
+      bool polish_ok = detail::polish_qp(pbm, polished, prm_, c_, sx_, sy_);
+
+      if (polish_ok) {
+        // move excess dual into constraint value and re-check optimality, active set may have been wrong
+        x_us_          = sx_.cwiseProduct(polished.primal);
+        y_us_          = sy_.cwiseProduct(polished.dual) / c_;
+        Ax_.noalias()  = pbm.A * x_us_;
+        z_us_          = (Ax_ + y_us_).cwiseMax(pbm.l).cwiseMin(pbm.u);
+        y_us_         += Ax_ - z_us_;
+        polished.dual  = c_ * sy_.cwiseInverse().cwiseProduct(y_us_);
+
+        polish_ok = x_us_.allFinite() && y_us_.allFinite() && check_stopping(pbm) == QPSolutionStatus::Optimal;
+      }
+
+      if (polish_ok) {
+        sol_ = std::move(polished);
         if (prm_.verbose) {
           // unscale solution
           x_us_ = sx_.cwiseProduct(sol_.primal);
@@ -543,7 +559,7 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        ret_code = QPSolutionStatus::PolishFailed;
       }
     }
 
-- 
2.43.0


From c68d711464b26f8eb1886d8b43c9292eb0755da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 08/42] fix: do not report a stale status after a failed QP
 solve

If solve() exits with an exception (e.g. std::bad_alloc) then sol() contained
unfinished values together with the status of the previous solve. The partially
filled system matrix was also not cleared before the next solve.
---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index f5cdea8..77a3884 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -346,6 +346,9 @@ public:
   const QPSolution<M, N, Scalar> &
   solve(const Pbm & pbm, std::optional<std::reference_wrapper<const QPSolution<M, N, Scalar>>> warmstart = {})
   {
+    // no solution available until finished
+    sol_.code = QPSolutionStatus::Unknown;
+
     // update problem scaling
     if (prm_.scaling) { scale(pbm); }
 
@@ -386,7 +389,7 @@ public:
 
     // fill square symmetric system matrix H = [P A'; A 0]
     if constexpr (sparse) {
-      if (H_.isCompressed()) { H_.coeffs().setZero(); }
+      set_zero(H_);
 
       for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
         for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
-- 
2.43.0


From dba0986528729544235031993d74d56160904130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 09/42] fix: allow QPSolver warmstart from its own solution

The initial constraint value was calculated from an already rescaled primal
when the result of sol() was passed as warmstart.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 77a3884..967954f 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -447,9 +447,9 @@ public:
     // initialize solver variables
     if (warmstart.has_value()) {
       // warmstart variables must be scaled
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From abdcddf16ed22c5f5ca13b47e806d4c45e775f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 10/42] fix: do not report non-finite QP iterates as optimal

---
 include/smooth/feedback/qp_solver.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 967954f..aed81e7 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -606,8 +606,13 @@ protected:
     // only upper triangular part of P is used
     const auto P = pbm.P.template selfadjointView<Eigen::Upper>();
 
-    // norm function
-    static const auto norm = [](auto && t) -> Scalar { return t.template lpNorm<Eigen::Infinity>(); };
+    // norm function, NaN (which fails all tests below) if there are non-finite values
+    static const auto norm = [](auto && t) -> Scalar {
+      return t.allFinite() ? t.template lpNorm<Eigen::Infinity>() : std::numeric_limits<Scalar>::quiet_NaN();
+    };
+
+    // no progress possible from non-finite iterates
+    if (!x_us_.allFinite() || !y_us_.allFinite()) { return QPSolutionStatus::Unknown; }
 
     // OPTIMALITY
 
-- 
2.43.0


From e321fc651c8d699db05f2e57fcd5e12aa1224419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 11/42] fix: require strict certificate for primal
 infeasibility in QP solver

---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index aed81e7..581dc90 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -652,7 +652,7 @@ protected:
       }
     }
 
-    if (std::max<Scalar>(norm(Aty_), u_dyp_plus_l_dyn) < prm_.eps_primal_inf * Edy_norm) {
+    if (norm(Aty_) < prm_.eps_primal_inf * Edy_norm && u_dyp_plus_l_dyn < -prm_.eps_primal_inf * Edy_norm) {
       return QPSolutionStatus::PrimalInfeasible;
     }
 
-- 
2.43.0


From eaf76c261f881c52c5ef313d1b4e378110bffb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 12/42] fix: set QP solution status after the rest of the
 solution

---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 581dc90..4c27088 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -569,11 +569,11 @@ public:
     const auto t_polish = std::chrono::steady_clock::now();
 
     // unscale solution
-    sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
     sol_.objective = sol_.primal.dot(P * (0.5 * sol_.primal) + pbm.q);
     sol_.iter      = iter;
+    sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
 
     if (prm_.verbose) {
       using std::cout, std::left, std::right, std::setw, std::chrono::microseconds;
-- 
2.43.0


From aecc4751064cade99ae173dacb668d59cbdbdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 13/42] fix: zero the right values of compressed sparse blocks

---
 include/smooth/feedback/utils/sparse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..5a9255d 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -7,6 +7,7 @@
  * @brief Sparse matrix utilities.
  */
 
+#include <algorithm>
 #include <numeric>
 #include <optional>
 
@@ -140,7 +141,9 @@ template<typename SparseMat>
 inline void set_zero(SparseMat && mat)
 {
   if (mat.isCompressed()) {
-    mat.coeffs().setZero();
+    // values of a block expression do not start at valuePtr()
+    const auto * outer = mat.outerIndexPtr();
+    std::fill_n(mat.valuePtr() + (outer ? outer[0] : 0), mat.nonZeros(), typename std::decay_t<SparseMat>::Scalar(0));
   } else {
     for (auto i = 0; i < mat.outerSize(); ++i) {
       for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
-- 
2.43.0


From 766cd14eec9a036106dac25636eccb5d6daa62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 14/42] fix: support NLPs without Hessian in Ipopt interface

---
 include/smooth/feedback/compat/ipopt.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7501e11..7b6ffe9 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -212,12 +212,14 @@ public:
         }
       }
     } else {
-      Eigen::Map<const Eigen::VectorXd> xvar(x, n);
-      Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
+      if constexpr (HessianNLP<Problem>) {
+        Eigen::Map<const Eigen::VectorXd> xvar(x, n);
+        Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
 
-      H_ += nlp_.d2f_dx2(xvar);
-      H_ *= sigma;
-      H_ += nlp_.d2g_dx2(xvar, lvar);
+        H_ += nlp_.d2f_dx2(xvar);
+        H_ *= sigma;
+        H_ += nlp_.d2g_dx2(xvar, lvar);
+      }
 
       for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
         for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
-- 
2.43.0


From 718c176ce6c6e37b0bea2374f5cbd5b69d11d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:36 +0000
Subject: [PATCH 15/42] fix: do not report stale or uninitialized status of
 aborted NLP solves

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 include/smooth/feedback/nlp.hpp          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7b6ffe9..89b9024 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -328,6 +328,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // no solution available until finished
+  ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
diff --git a/include/smooth/feedback/nlp.hpp b/include/smooth/feedback/nlp.hpp
index df25eb2..3d81827 100644
--- a/include/smooth/feedback/nlp.hpp
+++ b/include/smooth/feedback/nlp.hpp
@@ -79,7 +79,7 @@ struct NLPSolution
   };
 
   /// @brief Solver status
-  Status status;
+  Status status{Status::Unknown};
 
   /// @brief Number of iterations
   std::size_t iter{0};
-- 
2.43.0


From 82b9da17d1c69e51ddebd46d8ed9c6d4ad219a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:36 +0000
Subject: [PATCH 16/42] fix: handle Ipopt solves without iteration data

---
 include/smooth/feedback/compat/ipopt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 89b9024..52abb04 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -269,7 +269,8 @@ public:
       break;
     }
 
-    sol_.iter = ip_data->iter_count();
+    // no data available if problem is solved without iterating
+    sol_.iter = ip_data ? ip_data->iter_count() : 0;
 
     sol_.x      = Eigen::Map<const Eigen::VectorXd>(x, n);
     sol_.zl     = Eigen::Map<const Eigen::VectorXd>(z_L, n);
-- 
2.43.0


From a81339d8c90b03bfd6ee5e5ce075090e045c7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:36 +0000
Subject: [PATCH 17/42] fix: use limited-memory Hessian in Ipopt unless exact
 is asked for

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 52abb04..6acb66f 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -319,6 +319,9 @@ inline NLPSolution solve_nlp_ipopt(
   // silence welcome message
   app->Options()->SetStringValue("sb", "yes");
 
+  // default in Ipopt is exact
+  if (!use_hessian) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
+
   if (warmstart.has_value()) {
     // initial guess is given
     app->Options()->SetStringValue("warm_start_init_point", "yes");
-- 
2.43.0


From 48628d2203d5319b2640428811696d7e69f3ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 18/42] fix: do not report stale iteration count of aborted NLP
 solves

---
 include/smooth/feedback/compat/ipopt.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 6acb66f..7170932 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -334,6 +334,7 @@ inline NLPSolution solve_nlp_ipopt(
 
   // no solution available until finished
   ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
+  ipopt_nlp->sol().iter   = 0;
 
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
-- 
2.43.0


From c7bc21f9fe4abb273a6e4e4e78708fc13ea59970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 19/42] fix: handle non-finite function values in Ipopt
 interface

Non-finite derivatives crashed or misled the linear solver, and problems
solved without iterating were reported optimal with undefined values.
---
 include/smooth/feedback/compat/ipopt.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7170932..059c2ed 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -7,6 +7,8 @@
  * @brief Solve nonlinear programs with Ipopt.
  */
 
+#include <cmath>
+
 #define HAVE_CSTDDEF
 #include <IpIpoptApplication.hpp>
 #include <IpIpoptData.hpp>
@@ -133,7 +135,7 @@ public:
   {
     const auto & df_dx = nlp_.df_dx(Eigen::Map<const Eigen::VectorXd>(x, n));
     for (auto i = 0; i < n; ++i) { grad_f[i] = df_dx.coeff(0, i); }
-    return true;
+    return Eigen::Map<const Eigen::VectorXd>(grad_f, n).allFinite();
   }
 
   /**
@@ -176,6 +178,8 @@ public:
       for (auto cntr = 0u, od = 0u; od < J.outerSize(); ++od) {
         for (Eigen::InnerIterator it(J, od); it; ++it) { values[cntr++] = it.value(); }
       }
+
+      return Eigen::Map<const Eigen::VectorXd>(values, nele_jac).allFinite();
     }
     return true;
   }
@@ -224,6 +228,8 @@ public:
       for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
         for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
       }
+
+      return Eigen::Map<const Eigen::VectorXd>(values, nele_hess).allFinite();
     }
 
     return true;
@@ -239,7 +245,7 @@ public:
     const Ipopt::Number * z_L,
     const Ipopt::Number * z_U,
     Ipopt::Index m,
-    [[maybe_unused]] const Ipopt::Number * g,
+    const Ipopt::Number * g,
     const Ipopt::Number * lambda,
     Ipopt::Number obj_value,
     const Ipopt::IpoptData * ip_data,
@@ -278,6 +284,11 @@ public:
     sol_.lambda = Eigen::Map<const Eigen::VectorXd>(lambda, m);
 
     sol_.objective = obj_value;
+
+    // Ipopt does not check problems that are solved without iterating
+    if (!std::isfinite(obj_value) || !Eigen::Map<const Eigen::VectorXd>(g, m).allFinite()) {
+      sol_.status = NLPSolution::Status::Unknown;
+    }
   }
 
 private:
-- 
2.43.0


From 2038c4bde47a58b337d4755acb7f549b9f8e86c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 20/42] fix: terminate when propagating backwards in time

With a negative duration and no maximal step the default step was negative as
well, and the loop never ended.
---
 include/smooth/feedback/ekf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ekf.hpp b/include/smooth/feedback/ekf.hpp
index bd33847..3932d8c 100644
--- a/include/smooth/feedback/ekf.hpp
+++ b/include/smooth/feedback/ekf.hpp
@@ -89,7 +89,7 @@ public:
     };
 
     Scalar<G> t          = 0;
-    const Scalar<G> dt_v = dt.value_or(2 * tau);
+    const Scalar<G> dt_v = dt.value_or(2 * std::abs(tau));
     while (t + dt_v < tau) {
       // step covariance first since it depends on g_hat_
       cst_.do_step(cov_ode, P_, t, dt_v);
-- 
2.43.0


From 853ca8fce5b45386045073ac6da8f1b0ef3923c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 21/42] fix: reset degree of first interval when splitting mesh
 interval

---
 include/smooth/feedback/collocation/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index f8c9f09..8cc94fa 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -158,6 +158,7 @@ public:
           std::next(intervals_.begin(), static_cast<intptr_t>(i + 1)),
           Interval{.K = Kmin, .tau0 = tau0 + static_cast<double>(n) * taum});
       }
+      intervals_[i].K = Kmin;
     } else if (D < intervals_[i].K) {
       return;
     } else if (D <= Kmax) {
-- 
2.43.0


From d5007c4564f3648184e3d7ed71a1928571d70d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 22/42] fix: handle degenerate error estimates when refining
 mesh

---
 include/smooth/feedback/collocation/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 8cc94fa..7fc9311 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -183,7 +183,9 @@ public:
       const auto Ki = N_colloc_ival(i);
 
       if (e > target_err) {
-        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(Ki) + 1);
+        const double Kincr = std::log(e / target_err) / std::log(Ki) + 1;
+        // not a number for degree one intervals and degenerate errors: split
+        const auto Ktarget = Ki + (std::isfinite(Kincr) ? static_cast<std::size_t>(std::lround(Kincr)) : Kmax);
         refine_ph(i, Ktarget);
       }
     }
-- 
2.43.0


From 78e61f2e63d63d699ab6b89a4fac623642c7e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 23/42] fix: scale derivatives of mesh functions with interval
 length

---
 include/smooth/feedback/collocation/mesh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 7fc9311..f127187 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -470,6 +470,9 @@ public:
       }
     });
 
+    // polynomials are functions of u in [-1, 1]
+    for (auto i = 0u; i < p; ++i) { ret *= 2. / (tauf - tau0); }
+
     return ret;
   }
 
-- 
2.43.0


From a7d262472cb7bce0654de6f0d68536d7ee676341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 24/42] fix: keep state-integral terms in Hessians of
 transcribed problem

---
 include/smooth/feedback/ocp_to_nlp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_nlp.hpp b/include/smooth/feedback/ocp_to_nlp.hpp
index ab4c4d8..dba4a06 100644
--- a/include/smooth/feedback/ocp_to_nlp.hpp
+++ b/include/smooth/feedback/ocp_to_nlp.hpp
@@ -236,10 +236,10 @@ public:
 
     block_add(d2f_dx2_, x0var_B, x0var_B, d2fval.block(         1,          1, Nx, Nx), 1, true);  // x0x0
     block_add(d2f_dx2_, x0var_B, xfvar_B, d2fval.block(         1,     1 + Nx, Nx, Nx), 1, true);  // x0xf
-    block_add(d2f_dx2_, x0var_B,  qvar_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq), 1, true);  // x0q
+    block_add(d2f_dx2_,  qvar_B, x0var_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq).transpose(), 1, true);  // qx0
 
     block_add(d2f_dx2_, xfvar_B, xfvar_B, d2fval.block(    1 + Nx,     1 + Nx, Nx, Nx), 1, true);  // xfxf
-    block_add(d2f_dx2_, xfvar_B,  qvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq), 1, true);  // xfq
+    block_add(d2f_dx2_,  qvar_B, xfvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq).transpose(), 1, true);  // qxf
 
     block_add(d2f_dx2_,  qvar_B,  qvar_B, d2fval.block(1 + 2 * Nx, 1 + 2 * Nx, Nq, Nq), 1, true);  // qq
     // clang-format on
@@ -402,10 +402,10 @@ public:
 
       block_add(d2g_dx2_, x0var_B, x0var_B, d2ceval.block(         1, b0 +          1, Nx, Nx), lambda(cecon_B + j), true);  // x0x0
       block_add(d2g_dx2_, x0var_B, xfvar_B, d2ceval.block(         1, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // x0xf
-      block_add(d2g_dx2_, x0var_B,  qvar_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // x0q
+      block_add(d2g_dx2_,  qvar_B, x0var_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq).transpose(), lambda(cecon_B + j), true);  // qx0
 
       block_add(d2g_dx2_, xfvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // xfxf
-      block_add(d2g_dx2_, xfvar_B,  qvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // xfq
+      block_add(d2g_dx2_,  qvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq).transpose(), lambda(cecon_B + j), true);  // qxf
 
       block_add(d2g_dx2_,  qvar_B,  qvar_B, d2ceval.block(1 + 2 * Nx, b0 + 1 + 2 * Nx, Nq, Nq), lambda(cecon_B + j), true);  // qq
       // clang-format on
-- 
2.43.0


From 813179a98d2f5ef34e56251ee5e64cfcdf9eda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 25/42] fix: put final state weight of MPC on final state

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 2a6b886..e4fae46 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -109,7 +109,7 @@ struct MPCObj
 
     for (auto i = 0u; i < Nx; ++i) {
       for (auto j = 0u; j < Nx; ++j) {
-        if (Qtf(i, j) != 0) { hess.coeffRef(1 + i, 1 + j) = Qtf(i, j); }
+        if (Qtf(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = Qtf(i, j); }
       }
     }
 
-- 
2.43.0


From 28eeb93f877d5f92330d2adeb24a53c0bbbf0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 26/42] fix: use sparsity of R for input weights of MPC

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index e4fae46..8f96f91 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -218,7 +218,7 @@ struct MPCIntegrand
     }
     for (auto i = 0u; i < Nu; ++i) {
       for (auto j = 0u; j < Nu; ++j) {
-        if (Q(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
+        if (R(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
       }
     }
 
-- 
2.43.0


From 5c39344a06294af0edd699260d6e4f14a91e7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 27/42] fix: relinearize MPC running constraints in every call

---
 include/smooth/feedback/mpc.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 8f96f91..1e33658 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -479,10 +479,8 @@ public:
 
     // transcribe to QP
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
-      // only update if running constraints are time-dependent
-      ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    }
+    // running constraints are linearized around the desired trajectories
+    ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
-- 
2.43.0


From adbd18650ececcd6a9df8a931878fd280fb45c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 28/42] fix: use updated weights in MPC

---
 include/smooth/feedback/mpc.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1e33658..a42f29c 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -482,8 +482,15 @@ public:
     // running constraints are linearized around the desired trajectories
     ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    if (weights_changed_) {
+      ocp_to_qp_update_cost<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    }
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
+    if (weights_changed_) {
+      qp_solver_.analyze(qp_);  // sparsity pattern of cost may be different
+      weights_changed_ = false;
+    }
 
     // solve QP
     const auto & sol = qp_solver_.solve(qp_, warmstart_);
@@ -593,6 +600,8 @@ public:
     ocp_.g.R       = weights.R;
     ocp_.g.Q       = weights.Q;
     ocp_.theta.Qtf = weights.Qtf;
+
+    weights_changed_ = true;
   }
 
   /**
@@ -629,6 +638,9 @@ private:
   // internal QP solver
   QPSolver<QuadraticProgramSparse<double>> qp_solver_;
 
+  // set when cost in qp_ must be updated
+  bool weights_changed_{false};
+
   // last solution stored for warmstarting
   std::optional<QPSolution<-1, -1, double>> warmstart_{};
 };
-- 
2.43.0


From dbf3f6d76ee9fdb60125616648bd6a8e656ff55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 29/42] fix: do not share desired trajectories between copies
 of MPC

---
 include/smooth/feedback/mpc.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index a42f29c..cff2a6e 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -434,12 +434,21 @@ public:
   {}
   /// @brief Default constructor
   inline MPC() = default;
-  /// @brief Default copy constructor
-  inline MPC(const MPC &) = default;
+  /// @brief Copy constructor
+  inline MPC(const MPC & o)
+      : xdes_{o.xdes_ ? std::make_shared<detail::XDes<T, X>>(*o.xdes_) : nullptr},
+        udes_{o.udes_ ? std::make_shared<detail::UDes<T, U>>(*o.udes_) : nullptr}, mesh_{o.mesh_}, ocp_{o.ocp_},
+        prm_{o.prm_}, work_{o.work_}, qp_{o.qp_}, qp_solver_{o.qp_solver_}, weights_changed_{o.weights_changed_},
+        warmstart_{o.warmstart_}
+  {
+    // desired trajectories are not shared between copies
+    ocp_.g.xdes = xdes_;
+    ocp_.g.udes = udes_;
+  }
   /// @brief Default move constructor
   inline MPC(MPC &&) = default;
-  /// @brief Default copy assignment
-  inline MPC & operator=(const MPC &) = default;
+  /// @brief Copy assignment
+  inline MPC & operator=(const MPC & o) { return *this = MPC(o); }
   /// @brief Default move assignment
   inline MPC & operator=(MPC &&) = default;
   /// @brief Default destructor
-- 
2.43.0


From 7e51ef678f1ce951cda856a3c867981d962e9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 30/42] fix: allocate MPC problem with its analytic derivatives

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index cff2a6e..1d2a13a 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -419,7 +419,7 @@ public:
         },
         prm_{std::move(prm)}, qp_solver_{prm_.qp}
   {
-    detail::ocp_to_qp_allocate<DT>(qp_, work_, ocp_, mesh_);
+    detail::ocp_to_qp_allocate<diff::Type::Analytic>(qp_, work_, ocp_, mesh_);
     ocp_to_qp_update<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_solver_.analyze(qp_);
   }
-- 
2.43.0


From 57f190a35157f61adc4492ba0d476d219011743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 31/42] fix: do not halve second derivatives of endpoint cost
 in ocp_to_qp

---
 include/smooth/feedback/ocp_to_qp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 0e8b223..a0bd66d 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -186,9 +186,9 @@ void ocp_to_qp_update_cost(
   //// ENDPOINT COST ////
   ///////////////////////
 
-  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 0.5, true);                      // d2q / dx0x0
-  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 0.5, true);            // d2q / dx0xf
-  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 0.5, true);  // d2q / dxfxf
+  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 1, true);                      // d2q / dx0x0
+  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 1, true);            // d2q / dx0xf
+  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 1, true);  // d2q / dxfxf
 
   qp.q.segment(0, Nx) += qo_x0;       // dq / dx0
   qp.q.segment(Nx * N, Nx) += qo_xf;  // dq / dxf
-- 
2.43.0


From 1ed00e286aa64ff043ae29e85f30abf00068a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 32/42] fix: do not integrate past look-ahead times in
 asif_to_qp

---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9362474..74c9cbf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -171,8 +171,8 @@ void asif_to_qp_update(
     qp.u.template segment<nh>(k * nh).setConstant(std::numeric_limits<double>::infinity());
 
     // integrate system and sensitivity forward until next constraint
-    double dt_act = std::min(dt, tau * (k + 1) - t);
     while (t < tau * (k + 1)) {
+      const double dt_act = std::min(dt, tau * (k + 1) - t);
       state_stepper.do_step(x_ode, x, t, dt_act);
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
       t += dt_act;
-- 
2.43.0


From 0893693cfca9618df6ce22f421477b56225255ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 33/42] fix: remove unbalanced #endif in the OSQP interface

The header could not be included.
---
 include/smooth/feedback/compat/osqp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 596b0e5..a6802b1 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -150,4 +150,3 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 
 }  // namespace smooth::feedback
 
-#endif  // SMOOTH__FEEDBACK__COMPAT__OSQP_HPP_
-- 
2.43.0


From 6e06b8a463d1ac0015187fa49b2d39d5896d1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 34/42] fix: check errors of OSQP before using its workspace

The workspace pointer was used uninitialized when setup failed, errors
of osqp_solve were discarded, and the warm start setting was changed
after it had been copied.
---
 include/smooth/feedback/compat/osqp.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index a6802b1..d737de0 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -89,21 +89,20 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   data->l         = const_cast<double *>(pbm.l.data());
   data->u         = const_cast<double *>(pbm.u.data());
 
-  OSQPWorkspace * work;
+  OSQPWorkspace * work = nullptr;
 
   QPSolution<-1, -1, double> ret;
   ret.code = QPSolutionStatus::Unknown;
 
+  settings->warm_start = warmstart.has_value();
+
   c_int error = osqp_setup(&work, data, settings);
 
-  if (warmstart) {
-    osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
-    settings->warm_start = 1;
-  } else {
-    settings->warm_start = 0;
+  if (!error && warmstart) {
+    error = osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
   }
 
-  if (!error) { error &= osqp_solve(work); }
+  if (!error) { error = osqp_solve(work); }
 
   if (!error) {
     switch (work->info->status_val) {
-- 
2.43.0


From 4ad4330bacd46e1cf096aa14929f548c1e0e3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 35/42] fix: initialize iteration count of failed OSQP solves

---
 include/smooth/feedback/compat/osqp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index d737de0..107688f 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -93,6 +93,7 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 
   QPSolution<-1, -1, double> ret;
   ret.code = QPSolutionStatus::Unknown;
+  ret.iter = 0;
 
   settings->warm_start = warmstart.has_value();
 
-- 
2.43.0


From 33ad35e0bfb87f4ecd55c7ab79d66ac414abaf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 36/42] fix: pass infinite bounds to OSQP as OSQP_INFTY

IEEE infinities turn the primal infeasibility test of OSQP into NaN
comparisons, so infeasible problems are not recognized.
---
 include/smooth/feedback/compat/osqp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 107688f..9c2432c 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -48,6 +48,10 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   A.makeCompressed();
   P.makeCompressed();
 
+  // OSQP represents infinite bounds with OSQP_INFTY
+  Eigen::VectorXd l = pbm.l.cwiseMax(-OSQP_INFTY);
+  Eigen::VectorXd u = pbm.u.cwiseMin(OSQP_INFTY);
+
   OSQPSettings * settings = (OSQPSettings *)c_malloc(sizeof(OSQPSettings));
   osqp_set_default_settings(settings);
 
@@ -86,8 +90,8 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   data->A         = csc_matrix(A.rows(), A.cols(), A.nonZeros(), A.valuePtr(), A.innerIndexPtr(), A.outerIndexPtr());
   data->q         = const_cast<double *>(pbm.q.data());
   data->P         = csc_matrix(P.rows(), P.cols(), P.nonZeros(), P.valuePtr(), P.innerIndexPtr(), P.outerIndexPtr());
-  data->l         = const_cast<double *>(pbm.l.data());
-  data->u         = const_cast<double *>(pbm.u.data());
+  data->l         = l.data();
+  data->u         = u.data();
 
   OSQPWorkspace * work = nullptr;
 
-- 
2.43.0


From daf957bd8716a6f9746c337f213e668713d026e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 37/42] fix: do not treat a time limit of zero as no limit in
 the OSQP interface

---
 include/smooth/feedback/compat/osqp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 9c2432c..1d32a4e 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -79,7 +79,8 @@ QPSolution<-1, -1, double> solve_qp_osqp(
     settings->max_iter = std::numeric_limits<c_int>::max();
   }
   if (prm.max_time) {
-    settings->time_limit = duration_cast<std::chrono::duration<double>>(prm.max_time.value()).count();
+    // zero means no limit in OSQP
+    settings->time_limit = std::max(1e-9, std::chrono::duration<double>(prm.max_time.value()).count());
   } else {
     settings->time_limit = 0;
   }
-- 
2.43.0


From 65871dc51e3a81154e07c397d3a8b40d2b4a7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 38/42] fix: release OSQP memory when allocation fails

Failed allocations were dereferenced, and an exception while copying the
solution leaked the OSQP workspace.
---
 include/smooth/feedback/compat/osqp.hpp | 30 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 1d32a4e..8d4e1ac 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -7,6 +7,8 @@
  * @brief Solve quadratiac programs with OSQP.
  */
 
+#include <memory>
+
 #include <Eigen/Sparse>
 #include <osqp/osqp.h>
 
@@ -52,7 +54,12 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   Eigen::VectorXd l = pbm.l.cwiseMax(-OSQP_INFTY);
   Eigen::VectorXd u = pbm.u.cwiseMin(OSQP_INFTY);
 
-  OSQPSettings * settings = (OSQPSettings *)c_malloc(sizeof(OSQPSettings));
+  // release OSQP memory also when an exception is thrown
+  const auto c_deleter = [](auto * ptr) { c_free(ptr); };
+  const auto w_deleter = [](OSQPWorkspace * ptr) { osqp_cleanup(ptr); };
+
+  OSQPSettings settings_storage;
+  OSQPSettings * settings = &settings_storage;
   osqp_set_default_settings(settings);
 
   settings->verbose            = prm.verbose;
@@ -85,12 +92,18 @@ QPSolution<-1, -1, double> solve_qp_osqp(
     settings->time_limit = 0;
   }
 
-  OSQPData * data = (OSQPData *)c_malloc(sizeof(OSQPData));
+  std::unique_ptr<csc, decltype(c_deleter)> A_csc(
+    csc_matrix(A.rows(), A.cols(), A.nonZeros(), A.valuePtr(), A.innerIndexPtr(), A.outerIndexPtr()), c_deleter);
+  std::unique_ptr<csc, decltype(c_deleter)> P_csc(
+    csc_matrix(P.rows(), P.cols(), P.nonZeros(), P.valuePtr(), P.innerIndexPtr(), P.outerIndexPtr()), c_deleter);
+
+  OSQPData data_storage;
+  OSQPData * data = &data_storage;
   data->n         = A.cols();
   data->m         = A.rows();
-  data->A         = csc_matrix(A.rows(), A.cols(), A.nonZeros(), A.valuePtr(), A.innerIndexPtr(), A.outerIndexPtr());
+  data->A         = A_csc.get();
   data->q         = const_cast<double *>(pbm.q.data());
-  data->P         = csc_matrix(P.rows(), P.cols(), P.nonZeros(), P.valuePtr(), P.innerIndexPtr(), P.outerIndexPtr());
+  data->P         = P_csc.get();
   data->l         = l.data();
   data->u         = u.data();
 
@@ -104,6 +117,8 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 
   c_int error = osqp_setup(&work, data, settings);
 
+  const std::unique_ptr<OSQPWorkspace, decltype(w_deleter)> work_guard(work, w_deleter);
+
   if (!error && warmstart) {
     error = osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
   }
@@ -143,13 +158,6 @@ QPSolution<-1, -1, double> solve_qp_osqp(
     ret.objective = work->info->obj_val;
   }
 
-  osqp_cleanup(work);
-
-  c_free(data->A);
-  c_free(data->P);
-  c_free(data);
-  c_free(settings);
-
   return ret;
 }
 
-- 
2.43.0


From 09e38ffe02f54d42fd8d187d9b1459ddac6628ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 39/42] fix: clear derivatives of end constraints before
 updating them in ocp_to_qp

---
 include/smooth/feedback/ocp_to_qp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index a0bd66d..5554924 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -351,6 +351,12 @@ void ocp_to_qp_update_ce(
   const auto crcon_B = dcon_L;
   const auto cecon_B = crcon_B + crcon_L;
 
+  ////////////////////////
+  //// ZERO VARIABLES ////
+  ////////////////////////
+
+  set_zero(qp.A.middleRows(cecon_B, cecon_L));
+
   //////////////////////////////
   //// LINEARIZATION POINTS ////
   //////////////////////////////
-- 
2.43.0


From 5aebdf80c8a36c909fe6000b6892f5a700e8c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 40/42] fix: order of multiplier dimensions in qpsol_to_ocpsol

---
 include/smooth/feedback/ocp_to_qp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 5554924..26274bf 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -496,7 +496,7 @@ auto qpsol_to_ocpsol(
     return rplus(ul_fun(t), tngnt);
   };
 
-  return OCPSolution<X, U, Nq, Nce, Ncr>{
+  return OCPSolution<X, U, Nq, Ncr, Nce>{
     .t0 = 0.,
     .tf = tf,
     .u  = std::move(ufun),
-- 
2.43.0


From ee5af2c3084820bd5c717771149818e420e1ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 41/42] fix: let flattened problems own their reference
 trajectories

---
 include/smooth/feedback/ocp_flatten.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/ocp_flatten.hpp b/include/smooth/feedback/ocp_flatten.hpp
index 16751b5..f9d4e23 100644
--- a/include/smooth/feedback/ocp_flatten.hpp
+++ b/include/smooth/feedback/ocp_flatten.hpp
@@ -515,8 +515,8 @@ auto flatten_ocp(const OCPType auto & ocp, auto && xl, auto && ul)
   using ocp_t = std::decay_t<decltype(ocp)>;
   using X     = typename ocp_t::X;
   using U     = typename ocp_t::U;
-  using Xl    = decltype(xl);
-  using Ul    = decltype(ul);
+  using Xl    = std::decay_t<decltype(xl)>;
+  using Ul    = std::decay_t<decltype(ul)>;
 
   static constexpr auto Nq = ocp_t::Nq;
 
-- 
2.43.0


From 86bddde47f638a34c689c599c37841443ecded39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 42/42] fix: reject derivatives that are NaN in
 test_ocp_derivatives

---
 include/smooth/feedback/ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp.hpp b/include/smooth/feedback/ocp.hpp
index b9e3c19..aaedea4 100644
--- a/include/smooth/feedback/ocp.hpp
+++ b/include/smooth/feedback/ocp.hpp
@@ -201,7 +201,7 @@ bool test_ocp_derivatives(OCPType auto & ocp, uint32_t num_trials = 1, double ep
       && (m1.rows() == m2.rows())
       && (
           m1.isApprox(m2, 1e-4) ||
-          Eigen::MatrixXd(m1 - m2).cwiseAbs().maxCoeff() < eps
+          (Eigen::MatrixXd(m1 - m2).array().abs() < eps).all()  // false for NaN
       )
       // clang-format on
     );
-- 
2.43.0

