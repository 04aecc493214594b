From c2e4d27f4706ad33bc145d851ee45cfba8ae3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 01/15] fix: second body's 2PN velocity coefficient must mirror
 the first body's

The term -5 v2^2 (n.v2) of the first body becomes +5 v1^2 (n.v1) under the
exchange of the bodies; the code had +5 v1^2 (n.v2).
---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..d6c3044 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From 1862cfaecd5a0ebe1947c0466727d5d8b6e61a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:20 +0000
Subject: [PATCH 02/15] fix: set_limiter must update the limiter tables

---
 src/ode-iterator/step-controller/PID-controller.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..002cebb 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -74,6 +74,8 @@ namespace hub::ode {
         inline Scalar limiter_max() const { return limiter_max_[0]; };
 
        private:
+        void update_limiter();
+
         std::array<Scalar, max_order> limiter_max_;
 
         std::array<Scalar, max_order> limiter_min_;
@@ -122,6 +124,7 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        update_limiter();
     }
 
     template <typename TypeSystem>
@@ -162,6 +165,11 @@ namespace hub::ode {
 
     template <typename TypeSystem>
     PIDController<TypeSystem>::PIDController() {
+        update_limiter();
+    }
+
+    template <typename TypeSystem>
+    void PIDController<TypeSystem>::update_limiter() {
         expon_[0] = 0.0;
         limiter_max_[0] = safe_guard4_;
         limiter_min_[0] = 1.0 / safe_guard4_;
-- 
2.43.0


From 99578c1dc15f9449dd6e0dcf3213ef06266c81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 03/15] fix: only external accelerations change the binding
 energy in the general derivative

evaluate_general_derivative of the regularized and ARchain systems computed
d(bindE)/dt from the total acceleration (Newtonian already added), while kick
uses the external acceleration only.
---
 src/particle-system/archain.hpp     | 5 ++++-
 src/particle-system/regu-system.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..5200b3a 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -302,8 +302,11 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+        Scalar dbindE_dt{0};
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            // only the external forces change the binding energy
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +325,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..81b3250 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -318,9 +318,12 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+        StateScalar dbindE_dt{0};
 
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            // only the external forces change the binding energy
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +339,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From 7e1e40b41a99073ee4c56273911e3450c2667178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 04/15] fix: coord_to_orbit must not derive p from the
 semi-major axis of a parabola

---
 src/orbits/orbits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..42bcdfd 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -580,7 +580,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type == OrbitType::Parabola) {
+        if (args.orbit_type != OrbitType::Parabola) {
             Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
             args.p = semi_latus_rectum(a, args.e);
         } else {
-- 
2.43.0


From 0f6b95f718c286d8e12c118770343e6d916b95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 05/15] fix: M_anomaly_to_E_anomaly must bracket the root for
 every mean anomaly of an open orbit

---
 src/orbits/orbits.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 42bcdfd..85a5f31 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -322,15 +322,18 @@ namespace hub::orbit {
             return 0;
         }
 
+        // the anomaly of an open orbit is unbounded: |x|^3 / 6 <= |M| on both branches below
+        Scalar const bound = std::max(static_cast<Scalar>(hub::consts::pi), static_cast<Scalar>(cbrt(6 * fabs(M_anomaly))));
+
         if (0 <= e && e < 1)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
                                         -hub::consts::pi, hub::consts::pi);
         else if (e > 1)
             return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+                                        -bound, bound);
         else if (fabs(e - 1) < math::epsilon<Scalar>::value)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+                                        -bound, bound);
         else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
-- 
2.43.0


From 880529a64b7ab11c09a3e9157258fa0b137cdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:01 +0000
Subject: [PATCH 06/15] fix: LogTimeSlice::reset_slice_params must move the
 anchor of the time sequence

---
 src/args-callback/callbacks.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..3cfd1dd 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -424,6 +424,7 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
     }
 
-- 
2.43.0


From aaebbf2061892e44e3e61ab5e1dae5584a05349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 07/15] fix: reading a Klein number from a stream also clears
 its second-order compensation

---
 src/kahan-number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..9dbd3bd 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -398,6 +398,7 @@ namespace hub {
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
             v.err = 0;
+            v.err_of_err = 0;
             return input;
         }
     };
-- 
2.43.0


From 1520823ca48ee4820fba2570e4dcfa7201729848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 08/15] fix: kB_on_mp is the ratio of the Boltzmann constant
 and the proton mass

---
 src/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.hpp b/src/macros.hpp
index 7833ba1..bdad65e 100644
--- a/src/macros.hpp
+++ b/src/macros.hpp
@@ -101,5 +101,5 @@ namespace hub::consts {
     constexpr double G = 1;
     constexpr double C = 299792.458 * unit::kms;
     constexpr double kB = 1.38064852e-23 * unit::m * unit::m * unit::kg / unit::sec / unit::sec;
-    constexpr double kB_on_mp = 9.294676266398779e-06;
+    constexpr double kB_on_mp = kB / unit::mp;
 }  // namespace hub::consts
-- 
2.43.0


From bbe168aa97f86a05ccc6d783e18e6a464a9c397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 09/15] fix: tidal_factor and E_tid of two clusters use both
 clusters

---
 src/orbits/particle-manip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..3198d37 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -755,7 +755,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
@@ -800,7 +800,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From d9e13aa08fb11e272a59d5a807c0d45ba3f9a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 10/15] fix: keep the Bulirsch-Stoer order inside its tables
 after the first step

A first step that converged only in the last column set ideal_rank_ to
max_depth; the next step then ran to column max_depth + 1, past the end of
the extrapolation table.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..cbad23e 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = allowed(k);
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From 2168de0b992298f5da00b72e8a1233e1d902ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 11/15] fix: advance the time once per step in the ODE form of
 Bulirsch-Stoer

Every sub-step sequence advanced the caller's time by a whole step, so the
right-hand side saw wrong times and an accepted step moved the time by several
steps.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index cbad23e..fcc6d48 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -408,7 +408,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 80bfca860f111e14ef00523ee6964becd067b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 12/15] fix: leave the first-step mode in the ODE form of
 Bulirsch-Stoer

The flag was only cleared in the particle form; the order selection and the
rejection of diverging trials were never used.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index fcc6d48..b9ce0f9 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -265,6 +265,7 @@ namespace hub::ode {
                         time += iter_h;
                         data = extrap_list_[0];
                         Scalar new_h = set_next_iteration(k);
+                        first_step_ = false;
                         iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                         last_error_ = error;
                         return iter_h;
-- 
2.43.0


From cb3e3fafc3641b9b6e5f82a46aedce80d4632a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 13/15] fix: shrink the step when a first Bulirsch-Stoer trial
 fails in every column

The same trial was repeated with the same step until the retry limit aborted
the run.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index b9ce0f9..041578b 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -511,7 +511,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;  // no column left
         }
     }
 
-- 
2.43.0


From 098939f3ca3b130b0c043df4b8b60f65ca03c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:18 +0000
Subject: [PATCH 14/15] fix: the sequence iterator ends with its most refined
 trial

---
 src/ode-iterator/sequent-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..082daa5 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -150,7 +150,7 @@ namespace hub::ode {
             auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
             error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
             // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
+            if (error <= 1 || i == max_iter_) {
                 break;
             }
             std::swap(output_, dual_steps_output_);
-- 
2.43.0


From 86adeb70d4e08b2d189a9ee2e419957c2e66b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:47 +0000
Subject: [PATCH 15/15] fix: build the chain from the shortest open link every
 time

---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..a1a01ff 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;
                     }
                 }
             }
-- 
2.43.0

