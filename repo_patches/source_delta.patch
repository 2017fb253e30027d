From bafffbfd20612a44dbf44f674b40edbd1ae93425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 01/42] fix: accept every horizon slice [start, end) inside the
 horizon and reject negative starts

The validators compared start + end with the horizon length, so valid slices
in the second half of the horizon were refused, and accepted negative starts,
for which the setters silently did nothing.
---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From 9bcb39320da4cec5b2f7702dacc3f9b387cc548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 02/42] fix: size the equality tolerances with the runtime
 dimension

With dynamic allocation the template argument is -1, so setEqConFunction
aborted (or allocated garbage) instead of registering the constraints.
---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From 4eb76e34e39513c1d4f714d26e68deb8363ef856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 03/42] fix: do not apply the state scaling to the measured
 initial state

Only the decision variables are scaled; scaling x0 too made every callback,
the dynamics constraint and the optimal sequence start from the wrong state.
---
 include/mpc/NLMPC/Mapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..42da81c 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -204,7 +204,8 @@ namespace mpc
 
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                // the first row is the measured state, which is not scaled
+                Xmat.col(i).tail(ph()) /= 1.0 / state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
-- 
2.43.0


From 09647e996ddfd05bdcb3bf3d988e1b9d4fd6b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 04/42] fix: scale the objective gradient with the state
 scaling

The scaling was applied to the state matrix instead of the gradient, so the
solver got a gradient that does not match the objective.
---
 include/mpc/NLMPC/Objective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..75db1b1 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,9 +102,9 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
+                for (int i = 0; i < (int)Jx.rows(); i++)
                 {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
+                    Jx.row(i) /= 1.0 / mapping->StateScaling()(i);
                 }
 
                 int counter = 0;
-- 
2.43.0


From a3275d98264bfc54121d4f2dae1b7a80ed2fb003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 05/42] fix: account for the held last input in the user
 inequality gradient

The last row of the input sequence repeats the previous one. The objective
and the equality gradients perturb both rows, the inequality one did not, so
constraints on the last row had no gradient.
---
 include/mpc/NLMPC/Constraints.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..bef1837 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -687,7 +687,13 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     double du = dv * Ua.array()(j);
+                    // the last input of the sequence is held, see unwrapVector
+                    const bool is_last = (i == ph() - 1);
                     u0(i, j) += du;
+                    if (is_last)
+                    {
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +702,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (is_last)
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (is_last)
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From 519012309ac4a086734af73720ad812f9a40a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 06/42] fix: use a meaningful step to differentiate along the
 slack variable

At zero slack the step was of the order of the machine precision, so the
derivative of the user inequalities along the slack was numerical noise.
---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index bef1837..6a4f5ae 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -720,7 +720,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
-- 
2.43.0


From 662c41cb2ccaf896ecd2a7c6827edd6097028aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 07/42] fix: use a meaningful step to differentiate the
 objective along the slack

A step of 1e-12 left only numerical noise in the derivative.
---
 include/mpc/NLMPC/Objective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 75db1b1..b787dd9 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -249,7 +249,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From dc49c18a77489cebd4045249b14f86eab50726d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/42] fix: release the slack variable when hard constraints
 are disabled

The default parameters fix the slack to zero and nothing freed it again, so
hard_constraints = false had no effect.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..4281064 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -181,6 +181,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -std::numeric_limits<double>::infinity();
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = std::numeric_limits<double>::infinity();
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From 3afa3a55e2cb3d019830dcc22e5471f0c2863729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 09/42] fix: let time_limit = 0 remove a previously set time
 limit

---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 4281064..d11aabd 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -136,10 +136,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a non positive value disables the time limit
+            innerOpt->set_maxtime(nl_param->time_limit > 0 ? nl_param->time_limit : 0.0);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
-- 
2.43.0


From 17f3c5321317acbfdf20b357195c7d1c5f222757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 10/42] fix: convert state and input bounds to the scaled
 decision variables

The bounds were handed to the solver as they are, while the solver works on
x / state_scale and u / input_scale.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d11aabd..a9d0c85 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -100,6 +100,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the bounds seen by the solver depend on the scaling
+            updateBounds();
         }
 
         /**
@@ -640,6 +643,23 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the bounds are given in the units of the user, the solver works on
+            // the scaled variables
+            if (mapping)
+            {
+                for (size_t i = 0; i < ph() * nx(); i++)
+                {
+                    lb_vec[i] /= mapping->StateScaling()(i % nx());
+                    ub_vec[i] /= mapping->StateScaling()(i % nx());
+                }
+
+                for (size_t i = 0; i < ch() * nu(); i++)
+                {
+                    lb_vec[(ph() * nx()) + i] /= mapping->InputScaling()(i % nu());
+                    ub_vec[(ph() * nx()) + i] /= mapping->InputScaling()(i % nu());
+                }
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From 93aed07616376efd1ac6fa55a1add78579af8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 11/42] fix: scale the initial guess built from the measured
 state and last input

---
 include/mpc/NLMPC/NLOptimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index a9d0c85..a47b69a 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -432,7 +432,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        opt_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -440,7 +440,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
             }
-- 
2.43.0


From 1c81f17ba54e59f934bb0478a213bc9dab8e4d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 12/42] fix: do not carry the slack of the previous solution
 into a cold start

---
 include/mpc/NLMPC/NLOptimizer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index a47b69a..05b2b48 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -443,6 +443,8 @@ namespace mpc
                         opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
+
+                currentSlack = 0;
             }
             
             // fill the remaining elements with the previous state starting from
-- 
2.43.0


From 6b77eacdb02fa7567d8079d1276dfe17531240fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 13/42] fix: start the solver from a point inside the bounds

NLopt rejects an initial guess outside of the bounds, so a measured state, a
last input or a shifted solution beyond them made every optimization fail.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 05b2b48..b45c429 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -502,6 +502,13 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
 
+            // the solver refuses to start from a point outside of the bounds
+            const std::vector<double> lb_vec = innerOpt->get_lower_bounds();
+            const std::vector<double> ub_vec = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] = std::max(lb_vec[i], std::min(ub_vec[i], optX0[i]));
+            }
             // let's start the optimization
             bool optimizationSuccess = false;
 
-- 
2.43.0


From 08ab9fdc4c51e210164b3362e4e110b864b4c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 14/42] fix: replace the constraint functions when they are set
 again

Setting the state space, inequality or equality function a second time
registered the same constraints twice in the solver, which then refuses them
(more equalities than variables) or works on a singular problem.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 45 ++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index b45c429..1237373 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -239,12 +239,9 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                eq_fun = NLOptimizer::nloptEqConFunWrapper;
+                eq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                bindEqualities();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding state defined equality constraints"
                     << std::endl;
@@ -276,6 +273,8 @@ namespace mpc
 
             try
             {
+                // drop the function bound before, if any
+                innerOpt->remove_inequality_constraints();
                 innerOpt->add_inequality_mconstraint(
                     NLOptimizer::nloptUserIneqConFunWrapper,
                     conFunc.get(),
@@ -314,12 +313,9 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                user_eq_fun = NLOptimizer::nloptUserEqConFunWrapper;
+                user_eq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                bindEqualities();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user equality constraints"
                     << std::endl;
@@ -643,6 +639,26 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Register the equality constraints in the internal solver, which can
+         * only add them or remove all of them. Binding again one of the functions
+         * must replace it and leave the other as it is
+         */
+        void bindEqualities()
+        {
+            innerOpt->remove_equality_constraints();
+
+            if (eq_fun)
+            {
+                innerOpt->add_equality_mconstraint(eq_fun, conFunc.get(), eq_tol);
+            }
+
+            if (user_eq_fun)
+            {
+                innerOpt->add_equality_mconstraint(user_eq_fun, conFunc.get(), user_eq_tol);
+            }
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -888,6 +904,11 @@ namespace mpc
 
         cvec<(sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1>  lb, ub;
         cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> opt_vector;
+
+        // functions (and their tolerances) bound as equality constraints, if any
+        nlopt::mfunc eq_fun = nullptr, user_eq_fun = nullptr;
+        std::vector<double> eq_tol, user_eq_tol;
+
         bool is_first_iteration = true;
         bool enable_warm_start = false;
     };
-- 
2.43.0


From d22e6849c1aea55f5b990ea35eddd37306542f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 15/42] fix: report when the solver refuses the user
 constraints

setIneqConFunction and setEqConFunction returned true even if the constraints
were not registered (e.g. more equalities than variables).
---
 include/mpc/NLMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index d4e12d4..b3c51cd 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -232,7 +232,7 @@ namespace mpc
             tol_vec = cvec<Tineq>::Ones(ineq());
 
             auto res = conF->setIneqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
             return res;
         }
 
@@ -254,7 +254,7 @@ namespace mpc
             tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
             return res;
         }
 
-- 
2.43.0


From 6d76f823a49a5ebece52b405e3bdeb1773d1e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 16/42] fix: compute the standard deviation of the solution
 times

The ratio n/(n-1) was an integer division and the recurrence mixed the sample
and the population formulas.
---
 include/mpc/Profiler.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..7ac9884 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -221,9 +221,12 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    // population standard deviation, updated with the Welford's recurrence
+                    // (n * (x - mean_new)^2 / (n - 1) is the increase of the sum of the squared deviations)
+                    const double n = stats.numberOfSolutions;
+                    double residual = (n / (n - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
+                    double stdDev_old = (n - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((stdDev_old + residual) / n);
                 }
             }
         }
-- 
2.43.0


From 549b5c180c31265a8b4d746af224746570eabde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 17/42] fix: advance the time between the steps of a multistep
 RK4 integration

---
 include/mpc/Integrator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..280fd68 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -46,6 +46,7 @@ public:
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From 956c4f6d877cc974292451527e1eb0a966915000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 18/42] fix: the discretized feedforward matrix has one row per
 output

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From b9a6fa6b4daede509513c897175ca01474c61231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 19/42] fix: int - Size subtracts the dimension from the
 integer

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..91d64bc 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(w.value, v)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From db618efe8358c6263887e4b4d86b3927754bf6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 20/42] fix: hold the last input bounds after the control
 horizon

The matrix overload read the column past the end of the given bounds.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..53c3aca 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = UMinMat.col(ch() - 1);
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = UMaxMat.col(ch() - 1);
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 65470cc6d1d65199aee975ebf33cd539ca5f6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 21/42] fix: hold the last input bounds after the control
 horizon when set by index

---
 include/mpc/LMPC/ProblemBuilder.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 53c3aca..5acc655 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -473,6 +473,13 @@ namespace mpc
             minU.block(0, index, nu(), 1) = UMin;
             maxU.block(0, index, nu(), 1) = UMax;
 
+            // the last bounds of the control horizon are held on the remaining part of the prediction horizon
+            if (index + 1 == (unsigned int)ch() && ch() < ph())
+            {
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = UMin;
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = UMax;
+            }
+
             return buildTimeInvariantTems();
         }
 
-- 
2.43.0


From a11125f90061435d0246b48b75c905c89204b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 22/42] fix: apply the input bounds to the step they are given
 for

The bounds given for the step k were enforced on the command at the step k-1.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 5acc655..93be64b 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -741,7 +741,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the i-th extended state contains the command applied at the step i - 1
+                if (i > 0)
                 {
                     tmpMinU = minU.col(i - 1);
                     tmpMaxU = maxU.col(i - 1);
-- 
2.43.0


From 3b20c07c6f5a78038df572716b77d6537cfdf7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 23/42] fix: hold the command from the end of the control
 horizon

One more move than the length of the control horizon was allowed.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 93be64b..a7366ff 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -789,8 +789,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From 9fbe49c7b6b4a5945c103343f20712d483c252f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 24/42] fix: use the command increment reference of the step it
 is given for

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index a7366ff..4b92612 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -572,14 +572,12 @@ namespace mpc
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -596,6 +594,8 @@ namespace mpc
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
                 {
+                    deltaURef_ex = deltaURef.col(i);
+
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
                         nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
-- 
2.43.0


From 79b45efbc682f065842606aa1c183f58c11aee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 25/42] fix: apply the scalar constraint to the command of the
 same step

The constraint x_s^T x(k) + u_s^T u(k) was enforced with u(k-1).
---
 include/mpc/LMPC/ProblemBuilder.hpp | 40 +++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 4b92612..659f002 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -109,6 +109,7 @@ namespace mpc
             COND_RESIZE_CVEC(sizer,sMin, ph() + 1);
             COND_RESIZE_CVEC(sizer,sMax, ph() + 1);
             COND_RESIZE_MAT(sizer,sMultiplier, (ph() + 1), (ph() + 1) * (nu() + nx()));
+            COND_RESIZE_MAT(sizer,sDeltaMultiplier, (ph() + 1), ph() * nu());
 
             COND_RESIZE_CVEC(sizer,leq, ((ph() + 1) * (nu() + nx())));
             COND_RESIZE_CVEC(sizer,ueq, ((ph() + 1) * (nu() + nx())));
@@ -141,6 +142,7 @@ namespace mpc
 
             // multiplier is defaulted to zero
             sMultiplier.setZero();
+            sDeltaMultiplier.setZero();
 
             leq.setZero();
             ueq.setZero();
@@ -326,10 +328,7 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
+            setScalarMultipliers(X, U);
 
             return buildTimeInvariantTems();
         }
@@ -356,10 +355,7 @@ namespace mpc
             sMax.segment(1, ph()) = MaxMat;
             sMax(0) = MaxMat(0);
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
+            setScalarMultipliers(X, U);
 
             return buildTimeInvariantTems();
         }
@@ -640,6 +636,27 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Set the multipliers of the scalar constraint x_s^T x(k) + u_s^T u(k)
+         *
+         * @param X the constant term multiplied to the state
+         * @param U the constant term multiplied to the input
+         */
+        void setScalarMultipliers(const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
+        {
+            for (size_t i = 0; i < ph() + 1; i++)
+            {
+                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+
+                // the extended state contains the previous command, u(k) = x_u(k) + Delta_u(k)
+                // (at the end of the horizon the last command is held)
+                if (i < ph())
+                {
+                    sDeltaMultiplier.block(i, i * nu(), 1, nu()) = U.transpose();
+                }
+            }
+        }
+
         /**
          * @brief Build the time invariant optimal control problem terms
          *
@@ -808,6 +825,12 @@ namespace mpc
                 ph() + 1,
                 (ph() + 1) * (nu() + nx())) = sMultiplier;
 
+            Aineq.block(
+                ((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny()) + (ph() * nu()),
+                (ph() + 1) * (nu() + nx()),
+                ph() + 1,
+                ph() * nu()) = sDeltaMultiplier;
+
             lineq.middleRows(
                 ((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny()) + (ph() * nu()),
                 ph() + 1) = sMin;
@@ -859,6 +882,7 @@ namespace mpc
         cvec<sizer.ph + 1> sMin;
         cvec<sizer.ph + 1> sMax;
         mat<sizer.ph + 1, (sizer.ph + 1) * (sizer.nx + sizer.nu)> sMultiplier;
+        mat<sizer.ph + 1, sizer.ph * sizer.nu> sDeltaMultiplier;
 
         Problem mpcProblem;
         cvec<((sizer.ph + 1) * (sizer.nu + sizer.nx))> leq, ueq;
-- 
2.43.0


From cff446d85ebe4a0f746f85bcfb567a333b781a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 26/42] fix: the measured disturbances span the prediction
 horizon

The slice of setExogenousInputs was validated against the control horizon.
---
 include/mpc/LMPC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..1764bf2 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -551,7 +551,7 @@ namespace mpc
             const cvec<Tndu> &uMeas,
             const HorizonSlice& slice)
         {
-            // Replicate all along the control horizon
+            // Replicate all along the prediction horizon
             if (isSliceUnset(slice))
             {
                 mat<Tndu, Tph> uMeasMat;
@@ -567,8 +567,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From e05fecef86ae67e1db4a39015d8565393a8e4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 27/42] fix: implement LMPC::setConstraints with the existing
 bound setters

It called a function which the problem builder does not have.
---
 include/mpc/LMPC.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 1764bf2..f9f7c0c 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -336,7 +336,14 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+
+            bool ret = builder.setStateBounds(index, XMin, XMax);
+            // after the control horizon the command is held together with its last bounds
+            if (index < (unsigned int)ch())
+            {
+                ret = ret && builder.setInputBounds(index, UMin, UMax);
+            }
+            return ret && builder.setOutputBounds(index, YMin, YMax);
         }
 
         /**
-- 
2.43.0


From a68d492adc4de77be812d0d6dad64233585abedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 28/42] fix: report the inaccurate infeasibility certificates
 as infeasible

---
 include/mpc/LMPC/LOptimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..c967c47 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -398,9 +398,9 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-- 
2.43.0


From 8085cc0275392b518f08d76a93ba0d9816ae6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 29/42] fix: report the time limit of the linear solver as
 documented

The manual defines MAX_ITERATION as the iteration or the time limit.
---
 include/mpc/LMPC/LOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index c967c47..542bd50 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -404,7 +404,7 @@ namespace mpc
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-                return ResultStatus::UNKNOWN;
+                return ResultStatus::MAX_ITERATION;
             case OSQP_NON_CVX:
                 return ResultStatus::ERROR;
             case OSQP_UNSOLVED:
-- 
2.43.0


From ce4d7eeb6ff718f0cb1bf4119681acfd140ecf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 30/42] fix: do not free the data of the linear solver twice

The destructor freed what run() had already freed, or uninitialized pointers
when the controller had never been run.
---
 include/mpc/LMPC/LOptimizer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 542bd50..1221a48 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -501,6 +501,10 @@ namespace mpc
             {
                 c_free(settings);
             }
+
+            work = nullptr;
+            data = nullptr;
+            settings = nullptr;
         }
 
         /**
@@ -515,9 +519,9 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
-- 
2.43.0


From 8690f96b268a4ec470730b8d703d668c1c411d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 31/42] fix: release the optimizer of the linear controller

---
 include/mpc/LMPC.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index f9f7c0c..cb76746 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
-- 
2.43.0


From 3ee4e3664bd659423b403fec25c014efe0bbe0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 32/42] fix: report an error when the linear solver refuses the
 problem

The workspace left unset by a failed setup was dereferenced.
---
 include/mpc/LMPC/LOptimizer.hpp | 40 ++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 1221a48..377f3ae 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -262,6 +262,11 @@ namespace mpc
             if (exitflag > 0)
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
+
+                // without a workspace there is nothing to solve
+                setInvalidResult(r);
+                clearData();
+                return;
             }
 
             // warm starting the solver
@@ -347,17 +352,7 @@ namespace mpc
             }
             else
             {
-                // if the solution is not valid we keep the previous solution
-                // and we set the return code to -1
-                r.cost = mpc::inf;
-                r.cmd = result.cmd;
-                r.solver_status = -1;
-                r.status = ResultStatus::ERROR;
-
-                // in case of invalid solution we ouput all the sequences to zero
-                sequence.state.setZero();
-                sequence.input.setZero();
-                sequence.output.setZero();
+                setInvalidResult(r);
             }
 
             // update the result
@@ -372,6 +367,29 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Set the result when the solver does not provide a valid solution,
+         * we keep the previous command and we set the return code to -1
+         *
+         * @param r the result of the current step
+         */
+        void setInvalidResult(Result<sizer.nu> &r)
+        {
+            r.cost = mpc::inf;
+            r.cmd = result.cmd;
+            r.solver_status = -1;
+            r.status = ResultStatus::ERROR;
+            r.is_feasible = false;
+
+            // in case of invalid solution we ouput all the sequences to zero
+            sequence.state.setZero();
+            sequence.input.setZero();
+            sequence.output.setZero();
+
+            // update the result
+            result = r;
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From 8d23796180a6c48dd0c9fb4b2f05576655106225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 33/42] fix: do not use the NaN vector of an infeasible linear
 problem

The command, the sequence and the next warm start were filled with NaN.
---
 include/mpc/LMPC/LOptimizer.hpp | 34 +++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 377f3ae..d22c88d 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -293,8 +293,8 @@ namespace mpc
             }
 
             // if the solution is valid update the solution otherwise
-            // keep the last feasible solution
-            if (work->solution->x != NULL)
+            // keep the last feasible solution (without a solution the solver leaves NaN or zeros in it)
+            if (work->solution->x != NULL && hasSolution(work->info->status_val))
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -353,6 +353,13 @@ namespace mpc
             else
             {
                 setInvalidResult(r);
+
+                // the reason is known when the solver has been able to run
+                if (work->solution->x != NULL)
+                {
+                    r.solver_status = work->info->status_val;
+                    r.status = convertToResultStatus(r.solver_status);
+                }
             }
 
             // update the result
@@ -390,6 +397,29 @@ namespace mpc
             result = r;
         }
 
+        /**
+         * @brief Check whether the solver terminated with a solution
+         *
+         * @param status solver status
+         * @return true if the solution vectors are meaningful
+         */
+        bool hasSolution(int status)
+        {
+            switch (status)
+            {
+            case OSQP_PRIMAL_INFEASIBLE:
+            case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
+            case OSQP_DUAL_INFEASIBLE:
+            case OSQP_DUAL_INFEASIBLE_INACCURATE:
+            case OSQP_NON_CVX:
+            case OSQP_SIGINT:
+            case OSQP_UNSOLVED:
+                return false;
+            default:
+                return true;
+            }
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From 5fbb7b4e36d3a2ad448e1beedd294b4dfad9fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 34/42] fix: contain the exceptions of the user functions
 evaluated on the solution

A callback throwing after the solver returned escaped from optimize() while the
same exception raised during the solution is reported as an error.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 1237373..3729da5 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -508,17 +508,30 @@ namespace mpc
             // let's start the optimization
             bool optimizationSuccess = false;
 
+            mat<(sizer.ph + 1), sizer.nx> Xmat;
+            COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
+
+            mat<(sizer.ph + 1), sizer.nu> Umat;
+            COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
+
+            mat<(sizer.ph + 1), sizer.ny> Ymat;
+            COND_RESIZE_MAT(sizer,Ymat,(ph() + 1), ny());
+
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
                 Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
-                optimizationSuccess = true;
                 is_first_iteration = false;
 
                 // check if the solution vector is feasible or not
                 r.is_feasible = conFunc->isFeasible(opt_vector);
 
+                // the user defined functions may throw also while evaluating the solution
+                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
+                Ymat = model->getOutput(Xmat, Umat);
+                optimizationSuccess = true;
+
                 if (r.is_feasible)
                 {
                     Logger::instance().log(Logger::log_type::DETAIL)
@@ -578,14 +591,6 @@ namespace mpc
                     << r.cost
                     << std::endl;
 
-                mat<(sizer.ph + 1), sizer.nx> Xmat;
-                COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
-
-                mat<(sizer.ph + 1), sizer.nu> Umat;
-                COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
-
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
-
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
                     << Xmat
@@ -599,11 +604,12 @@ namespace mpc
 
                 sequence.state = Xmat.block(0, 0, ph()+1, nx());
                 sequence.input = Umat.block(0, 0, ph()+1, nu());
-                sequence.output = model->getOutput(Xmat, Umat).block(0, 0, ph()+1, ny());
+                sequence.output = Ymat.block(0, 0, ph()+1, ny());
             }
             else
             {
                 r.cost = mpc::inf;
+                r.is_feasible = false;
                 r.cmd = result.cmd;
                 r.solver_status = -1;
                 // set the result status to error
-- 
2.43.0


From a291504395db32cc562a0d4f7e69f279987bc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 35/42] fix: a user constraint which evaluates to NaN is not
 satisfied

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6a4f5ae..ea218e9 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -161,7 +161,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all inequality constraints are satisfied (<= 0)
-                if ((cineq_user.array() > ieq_tolerance).any())
+                if (!(cineq_user.array() <= ieq_tolerance).all())
                 {
                     return false;
                 }
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if (!(ceq_user.array().abs() <= eq_tolerance).all())
                 {
                     return false;
                 }
-- 
2.43.0


From f38530a75feef8da0eb853d3d7838a18b04103ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 36/42] fix: a failed step keeps the solution used by the warm
 start

---
 include/mpc/NLMPC/NLOptimizer.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 3729da5..95c91b2 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -419,6 +419,10 @@ namespace mpc
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
+            // the last solution is replaced only by the one of a successful step
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> guess = opt_vector;
+            double slack = currentSlack;
+
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -428,7 +432,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
+                        guess[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -436,11 +440,11 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
+                        guess[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
 
-                currentSlack = 0;
+                slack = 0;
             }
             
             // fill the remaining elements with the previous state starting from
@@ -452,10 +456,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -466,7 +470,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * guess.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
@@ -496,7 +500,7 @@ namespace mpc
             }
 
             // put the slack variable in the optimization vector
-            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
+            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = slack;
 
             // the solver refuses to start from a point outside of the bounds
             const std::vector<double> lb_vec = innerOpt->get_lower_bounds();
@@ -521,17 +525,20 @@ namespace mpc
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
-                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
-                is_first_iteration = false;
+                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(guess);
 
                 // check if the solution vector is feasible or not
-                r.is_feasible = conFunc->isFeasible(opt_vector);
+                r.is_feasible = conFunc->isFeasible(guess);
 
                 // the user defined functions may throw also while evaluating the solution
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
+                mapping->unwrapVector(guess, x0, Xmat, Umat, slack);
                 Ymat = model->getOutput(Xmat, Umat);
                 optimizationSuccess = true;
 
+                opt_vector = guess;
+                currentSlack = slack;
+                is_first_iteration = false;
+
                 if (r.is_feasible)
                 {
                     Logger::instance().log(Logger::log_type::DETAIL)
-- 
2.43.0


From f8bbbc91039d41e1fd5ee0141720adea08067d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 37/42] fix: express the warm start in the scaling in force

---
 include/mpc/NLMPC/NLOptimizer.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 95c91b2..f9c5717 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -423,6 +423,16 @@ namespace mpc
             cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> guess = opt_vector;
             double slack = currentSlack;
 
+            // the last solution is kept in the units of the user, the scaling may have changed
+            for (size_t i = 0; i < ph() * nx(); i++)
+            {
+                guess[i] /= mapping->StateScaling()(i % nx());
+            }
+            for (size_t i = 0; i < ch() * nu(); i++)
+            {
+                guess[(ph() * nx()) + i] /= mapping->InputScaling()(i % nu());
+            }
+
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -536,6 +546,14 @@ namespace mpc
                 optimizationSuccess = true;
 
                 opt_vector = guess;
+                for (size_t i = 0; i < ph() * nx(); i++)
+                {
+                    opt_vector[i] *= mapping->StateScaling()(i % nx());
+                }
+                for (size_t i = 0; i < ch() * nu(); i++)
+                {
+                    opt_vector[(ph() * nx()) + i] *= mapping->InputScaling()(i % nu());
+                }
                 currentSlack = slack;
                 is_first_iteration = false;
 
-- 
2.43.0


From 542855004b60a3198aff24caad39bfcd77bd2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 38/42] fix: do not bound the command which has been already
 applied

---
 include/mpc/LMPC/ProblemBuilder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 659f002..259d2e3 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -766,8 +766,9 @@ namespace mpc
                 }
                 else
                 {
-                    tmpMinU = minU.col(i);
-                    tmpMaxU = maxU.col(i);
+                    // the last command has been already applied and cannot be changed
+                    tmpMinU.setConstant(-inf);
+                    tmpMaxU.setConstant(inf);
                 }
                 eMinX.middleRows(i * (nu() + nx()), (nu() + nx())) << minX.col(i), tmpMinU;
                 eMaxX.middleRows(i * (nu() + nx()), (nu() + nx())) << maxX.col(i), tmpMaxU;
-- 
2.43.0


From e295d3eba7804fc8575094c907b516ada19b9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 39/42] fix: size the finite difference steps on the perturbed
 variable

The step of each variable was taken from another entry of the trajectory
(the first column of the states or inputs, or the last input). With entries
of different magnitude the derivatives given to the solver were wrong.
---
 include/mpc/NLMPC/Constraints.hpp | 6 +++---
 include/mpc/NLMPC/Objective.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index ea218e9..1c1999e 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -659,7 +659,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) += dx;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -686,7 +686,7 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
-                    double du = dv * Ua.array()(j);
+                    double du = dv * Ua(i, j);
                     // the last input of the sequence is held, see unwrapVector
                     const bool is_last = (i == ph() - 1);
                     u0(i, j) += du;
@@ -792,7 +792,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // Calculate perturbation
-                    double du = dv * Ua(ph() - 1, j);
+                    double du = dv * Ua(i, j);
                     // Forward perturbation
                     u0(i, j) += du;
                     cvec<sizer.eq> f_plus;
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index b787dd9..e16ecc5 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -205,7 +205,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) = x0(ix, j) + dx;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     x0(ix, j) = x0(ix, j) - dx;
@@ -225,7 +225,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     int k = j;
-                    double du = dv * Ua.array()(k);
+                    double du = dv * Ua(i, k);
                     u0(i, k) = u0(i, k) + du;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     u0(i, k) = u0(i, k) - du;
@@ -239,7 +239,7 @@ namespace mpc
             for (size_t j = 0; j < nu(); j++)
             {
                 int k = j;
-                double du = dv * Ua.array()(k);
+                double du = dv * Ua(ph() - 1, k);
                 u0((ph() - 1), k) = u0((ph() - 1), k) + du;
                 u0(ph(), k) = u0(ph(), k) + du;
                 double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
-- 
2.43.0


From 741b1aca239ae85b45be03b7e853384e4d769009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:45 +0000
Subject: [PATCH 40/42] fix: the Python module exports the matrix form of
 setReferences

---
 python/pybind_export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 308cf90..c2fa1d2 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -119,7 +119,7 @@ void expose_LMPC(py::module &m)
         .def("setScalarConstraint", py::overload_cast<const double, const double, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setScalarConstraint))
         .def("setExogenousInputs", py::overload_cast<const Eigen::MatrixXd &>(&LMPCType::setExogenousInputs))
         .def("setExogenousInputs", py::overload_cast<const Eigen::VectorXd &, const mpc::HorizonSlice&>(&LMPCType::setExogenousInputs))
-        .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences))
+        .def("setReferences", py::overload_cast<const Eigen::MatrixXd, const Eigen::MatrixXd, const Eigen::MatrixXd>(&LMPCType::setReferences))
         .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences));
 }
 
-- 
2.43.0


From a46d417709798cc2069cc7a556baf4c99cca8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 41/42] fix: the optimizer parameters can be set from Python

---
 python/pybind_export.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index c2fa1d2..2f94393 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -62,7 +62,7 @@ void expose_NLMPC(py::module &m)
         .def("setDiscretizationSamplingTime", &NLMPCType::setDiscretizationSamplingTime)
         .def("setInputScale", &NLMPCType::setInputScale)
         .def("setStateScale", &NLMPCType::setStateScale)
-        .def("setOptimizerParameters", &NLMPCType::setOptimizerParameters)
+        .def("setOptimizerParameters", [](NLMPCType &self, const mpc::NLParameters &param) { self.setOptimizerParameters(param); })
         .def("setLoggerLevel", &NLMPCType::setLoggerLevel)
         .def("setLoggerPrefix", &NLMPCType::setLoggerPrefix)
         .def("optimize", &NLMPCType::optimize)
@@ -93,7 +93,7 @@ void expose_LMPC(py::module &m)
     py::class_<LMPCType>(m, name.c_str())
         .def(py::init<const int &, const int &, const int &, const int &, const int &, const int &>())
         // methods from the IMPC class
-        .def("setOptimizerParameters", &LMPCType::setOptimizerParameters)
+        .def("setOptimizerParameters", [](LMPCType &self, const mpc::LParameters &param) { self.setOptimizerParameters(param); })
         .def("setLoggerLevel", &LMPCType::setLoggerLevel)
         .def("setLoggerPrefix", &LMPCType::setLoggerPrefix)
         .def("optimize", &LMPCType::optimize)
@@ -139,6 +139,33 @@ PYBIND11_MODULE(pympcxx, m)
         .value("NONE", mpc::Logger::log_level::NONE)
         .export_values();
 
+    // export the optimizer parameters structs to python
+    py::class_<mpc::NLParameters>(m, "NLParameters")
+        .def(py::init<>())
+        .def_readwrite("maximum_iteration", &mpc::NLParameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::NLParameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::NLParameters::enable_warm_start)
+        .def_readwrite("relative_ftol", &mpc::NLParameters::relative_ftol)
+        .def_readwrite("relative_xtol", &mpc::NLParameters::relative_xtol)
+        .def_readwrite("absolute_ftol", &mpc::NLParameters::absolute_ftol)
+        .def_readwrite("absolute_xtol", &mpc::NLParameters::absolute_xtol)
+        .def_readwrite("hard_constraints", &mpc::NLParameters::hard_constraints);
+
+    py::class_<mpc::LParameters>(m, "LParameters")
+        .def(py::init<>())
+        .def_readwrite("maximum_iteration", &mpc::LParameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::LParameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::LParameters::enable_warm_start)
+        .def_readwrite("alpha", &mpc::LParameters::alpha)
+        .def_readwrite("rho", &mpc::LParameters::rho)
+        .def_readwrite("eps_rel", &mpc::LParameters::eps_rel)
+        .def_readwrite("eps_abs", &mpc::LParameters::eps_abs)
+        .def_readwrite("eps_prim_inf", &mpc::LParameters::eps_prim_inf)
+        .def_readwrite("eps_dual_inf", &mpc::LParameters::eps_dual_inf)
+        .def_readwrite("verbose", &mpc::LParameters::verbose)
+        .def_readwrite("adaptive_rho", &mpc::LParameters::adaptive_rho)
+        .def_readwrite("polish", &mpc::LParameters::polish);
+
     // export the result struct to python
     using ResulType = mpc::Result<Eigen::Dynamic>;
 
-- 
2.43.0


From 33a8e467625641652d21c7c3a96d0bb6e5a5c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 42/42] fix: the optimal sequence and the feasibility can be
 read from Python

---
 python/pybind_export.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 2f94393..399ab2a 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -171,11 +171,20 @@ PYBIND11_MODULE(pympcxx, m)
 
     py::class_<ResulType>(m, "Result")
         .def_readonly("solver_status", &ResulType::solver_status)
+        .def_readonly("is_feasible", &ResulType::is_feasible)
         .def_readonly("solver_status_msg", &ResulType::solver_status_msg)
         .def_readonly("cost", &ResulType::cost)
         .def_readonly("cmd", &ResulType::cmd)
         .def_readonly("status", &ResulType::status);
 
+    // export the optimal sequence struct to python
+    using SequenceType = mpc::OptSequence<>;
+
+    py::class_<SequenceType>(m, "OptSequence")
+        .def_readonly("state", &SequenceType::state)
+        .def_readonly("output", &SequenceType::output)
+        .def_readonly("input", &SequenceType::input);
+
     // export the solution stats struct to python
     using StatsType = mpc::SolutionStats;
 
-- 
2.43.0

