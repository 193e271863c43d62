From 1bc5a57b3845e3302fbae0641bbb2112d836cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 01/18] fix: include the characteristic displacement in the
 interface law jacobians

The cohesive and the contact traction are functions of the dimensional
opening displacement (characteristic_displacement times the dimensionless
one). Their derivatives with respect to the dimensionless opening missed
that factor.
---
 source/constitutive_laws.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 77f2c60..8c7d1d4 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -1342,7 +1342,7 @@ CohesiveLaw<dim>::get_jacobian(
        i < jacobian.n_independent_components; ++i)
     AssertIsFinite(jacobian.access_raw_entry(i));
 
-  return (jacobian / characteristic_stress);
+  return (jacobian * characteristic_displacement / characteristic_stress);
 }
 
 
@@ -1542,6 +1542,7 @@ ContactLaw<dim>::get_jacobian(
   jacobian =
     penalty_coefficient /
     characteristic_stress *
+    characteristic_displacement *
     macaulay_brackets(-normal_opening_displacement /
                       std::abs(normal_opening_displacement)) *
     dealii::symmetrize(dealii::outer_product(normal_vector,
-- 
2.43.0


From 66f412dd1f31eda5f705546b8a7ca64a6024d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 02/18] fix: do not heal the interface below the endurance
 limit

---
 source/gradient_crystal_plasticity/quadrature_point_history.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index e80c5f6..4cfafda 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -170,7 +170,7 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
                       old_effective_opening_displacement) *
     std::pow(1.0 - damage_variable + damage_decay_constant,
      damage_decay_exponent) *
-    (thermodynamic_force - endurance_limit);
+    macaulay_brackets(thermodynamic_force - endurance_limit);
 
   if (damage_variable > 1.0)
     damage_variable = 1.0;
-- 
2.43.0


From 123fdb8324cf3c21f75f7cb1d142d8c000ac8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 03/18] fix: do not count interpenetration as an old effective
 opening displacement

---
 .../quadrature_point_history.cc                           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 4cfafda..2fcc1bf 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -185,8 +185,8 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector)
 {
   /*if (flag_values_were_updated)
@@ -206,7 +206,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
@@ -227,8 +227,8 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector,
   const double                effective_cohesive_traction)
 {
@@ -249,7 +249,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
-- 
2.43.0


From 4de77365dd4a49dd79214ecc7e9c549f4cce14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 04/18] fix: tolerate roundoff in the range check of the
 three-dimensional grain interaction moduli

---
 source/constitutive_laws.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 8c7d1d4..892b9ff 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -937,14 +937,14 @@ MicrotractionLaw<3>::get_grain_interaction_moduli(
 
         AssertThrow(
           std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
 
         AssertThrow(
           std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
-- 
2.43.0


From 4ea9c4eb0d1bb6804ef80b6bfaf2c9e4a719fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 05/18] fix: no indefinite forms in the vectorial microstress
 at vanishing slip gradient projections

---
 source/constitutive_laws.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 892b9ff..5270992 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -666,6 +666,23 @@ void VectorialMicrostressLaw<dim>::init(
 
 
 
+namespace
+{
+  // The edge and screw contributions vanish with the projection of the
+  // slip gradient. Evaluating a negative power of a zero projection
+  // would result in indefinite forms (e.g., at the screw component of
+  // two-dimensional problems)
+  double power(const double base, const double exponent)
+  {
+    if (base == 0.0 && exponent < 0.0)
+      return (0.0);
+
+    return (std::pow(base, exponent));
+  }
+}
+
+
+
 template <int dim>
 dealii::Tensor<1,dim> VectorialMicrostressLaw<dim>::
 get_vectorial_microstress(
@@ -683,13 +700,13 @@ get_vectorial_microstress(
   return (
     factor *
     (
-      std::pow(
+      power(
         std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
                 slip_gradient),
         defect_energy_index - 2.) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
+      power(
         std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
                 slip_gradient),
         defect_energy_index - 2.) *
@@ -718,13 +735,13 @@ get_jacobian(
     factor *
     (defect_energy_index - 1.0) *
     (
-      std::pow(
+      power(
         std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
                 slip_gradient),
         defect_energy_index - 2.) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
+      power(
         std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
                 slip_gradient),
         defect_energy_index - 2.) *
-- 
2.43.0


From d81de5c6b1f35971757246fdfa983ad16ca48409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 06/18] fix: the derivative of the uncoupled degradation
 function is zero

---
 include/gCP/constitutive_laws.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/constitutive_laws.h b/include/gCP/constitutive_laws.h
index 1058955..dfc5dc1 100644
--- a/include/gCP/constitutive_laws.h
+++ b/include/gCP/constitutive_laws.h
@@ -575,7 +575,7 @@ DegradationFunction::get_degradation_function_derivative_value(
   }
   else
   {
-    return 1.0;
+    return 0.0;
   }
 }
 
-- 
2.43.0


From 24cb78ed558b3f0ee8ed0fb07decb40d6643474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 07/18] fix: reject surplus entries of the crystal input files
 in release mode too

---
 source/crystal_data.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index 9a382eb..0caf349 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -114,7 +114,10 @@ void CrystalsData<dim>::read_and_store_data(
                             vector_component,
                             ','))
         {
-          AssertIndexRange(component, dim);
+          // The entries stem from a file. Therefore the range has to be
+          // checked in release mode too
+          AssertThrow(component < dim,
+                      dealii::ExcIndexRange(component, 0, dim));
 
           vector[component++] = std::stod(vector_component);
         }
-- 
2.43.0


From 7100b4372b979d136759128456710b90a828f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 08/18] fix: check the orthogonality of slip systems
 independent of the length of the vectors

---
 source/crystal_data.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index 0caf349..71e3200 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -261,7 +261,9 @@ bool CrystalsData<dim>::orthogonality_check(
 {
   const double scalar_product = dealii::scalar_product(a, b);
 
-  return std::fabs(scalar_product) <= __DBL_EPSILON__;
+  // The vectors are not normalized. The strict inequality rules out zero
+  // vectors, which have no direction
+  return std::fabs(scalar_product) < __DBL_EPSILON__ * a.norm() * b.norm();
 }
 
 
-- 
2.43.0


From e680a6042d18c9c23ea07681ddc9329742869273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 09/18] fix: line search NaN when the objective is exactly
 quadratic along the step

---
 source/line_search.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/line_search.cc b/source/line_search.cc
index 98221e4..df5768f 100644
--- a/source/line_search.cc
+++ b/source/line_search.cc
@@ -150,10 +150,15 @@ double LineSearch::cubic_backtracking()
 
   coefficients *= factor;
 
-  double lambda = (-coefficients[1] +
-                  std::sqrt(coefficients[1]*coefficients[1] -
-                            3.0 * coefficients[0] *descent_direction)) /
-                  (3. * coefficients[0]);
+  const double root =
+    std::sqrt(coefficients[1]*coefficients[1] -
+              3.0 * coefficients[0] *descent_direction);
+
+  // Of the two equivalent forms of the minimizer, the one without
+  // cancellation. It also covers a vanishing cubic coefficient.
+  double lambda = coefficients[1] > 0.0 ?
+                    -descent_direction / (coefficients[1] + root) :
+                    (-coefficients[1] + root) / (3. * coefficients[0]);
 
   if (lambda < 0.1*old_lambda)
     return 0.1*old_lambda;
-- 
2.43.0


From 5303f53355756dbd82b311f98c52862ada778812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 10/18] fix: line search NaN when the initial and the trial
 residual vanish

---
 include/gCP/line_search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/line_search.h b/include/gCP/line_search.h
index 65a1b36..1d1a9a8 100644
--- a/include/gCP/line_search.h
+++ b/include/gCP/line_search.h
@@ -102,7 +102,7 @@ namespace gCP
         std::cout << "Second conditions not fulfilled" << std::endl;
       }*/
 
-      return (trial_scalar_function_value <
+      return (trial_scalar_function_value <=
               initial_scalar_function_value +
                   alpha * lambda * descent_direction);
     }
-- 
2.43.0


From 7400d4a261f242539ba65d2273823af93ad2d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:03 +0000
Subject: [PATCH 11/18] fix: the displacement control ignored the loading type
 and always loaded monotonically

---
 source/boundary_conditions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index aeaf6b4..f1afa23 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -25,7 +25,7 @@ DisplacementControl<dim>::DisplacementControl(
 dealii::Function<dim>(n_components, parameters.start_time),
 n_crystals(n_crystals),
 strip_height(strip_height),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
+loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
-- 
2.43.0


From cfac9619fdd164bc112b709900a710ca1575806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:03 +0000
Subject: [PATCH 12/18] fix: the cyclic displacement load jumped by the strip
 height at the end of the ramp

---
 source/boundary_conditions.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index f1afa23..397dadf 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -76,15 +76,17 @@ void DisplacementControl<dim>::vector_value(
         }
         else if (time < start_of_unloading)
         {
-          displacement_load = peak_amplitude *
-                              std::sin(2.0 * M_PI / period *
-                                      (time - start_of_cyclic_phase))
-                              +
-                              offset;
+          displacement_load = strip_height *
+                              (peak_amplitude *
+                               std::sin(2.0 * M_PI / period *
+                                        (time - start_of_cyclic_phase))
+                               +
+                               offset);
         }
         else
         {
-          displacement_load = offset * (1 - time + start_of_unloading);
+          displacement_load = strip_height * offset *
+                              (1 - time + start_of_unloading);
         }
       }
       break;
-- 
2.43.0


From 96dc39b7355ac7f4fa2c7db269f6a2aea0349c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 13/18] fix: the cyclic displacement load jumped unless the
 ramps lasted one time unit

---
 include/gCP/boundary_conditions.h | 2 ++
 source/boundary_conditions.cc     | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/gCP/boundary_conditions.h b/include/gCP/boundary_conditions.h
index 23db833..dc53744 100644
--- a/include/gCP/boundary_conditions.h
+++ b/include/gCP/boundary_conditions.h
@@ -53,6 +53,8 @@ private:
 
   const unsigned int                    component;
 
+  const double                          duration_of_loading_and_unloading_phase;
+
   const double                          period;
 
   const double                          start_of_cyclic_phase;
diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 397dadf..13eb80e 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -29,6 +29,8 @@ loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
+duration_of_loading_and_unloading_phase(
+  parameters.duration_loading_and_unloading_phase),
 period(parameters.period),
 start_of_cyclic_phase(parameters.start_of_cyclic_phase),
 start_of_unloading(parameters.start_of_unloading_phase),
@@ -72,7 +74,9 @@ void DisplacementControl<dim>::vector_value(
 
         if (time < start_of_cyclic_phase)
         {
-          displacement_load = time * strip_height * offset;
+          displacement_load = strip_height * offset *
+                              (1 - (start_of_cyclic_phase - time) /
+                                   duration_of_loading_and_unloading_phase);
         }
         else if (time < start_of_unloading)
         {
@@ -86,7 +90,8 @@ void DisplacementControl<dim>::vector_value(
         else
         {
           displacement_load = strip_height * offset *
-                              (1 - time + start_of_unloading);
+                              (1 - (time - start_of_unloading) /
+                                   duration_of_loading_and_unloading_phase);
         }
       }
       break;
-- 
2.43.0


From a67cea127bf582b7509f2893cedb1ef50f5946dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 14/18] fix: reset the block the line search works on, not
 always the macro block

---
 source/gradient_crystal_plasticity/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ae477d7..dd69836 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1622,7 +1622,7 @@ line_search_algorithm(
       line_search->get_lambda(objective_function_value,
                               relaxation_parameter);
 
-    reset_trial_solution();
+    reset_trial_solution(false, block_index);
 
     update_trial_solution(relaxation_parameter, block_index);
 
-- 
2.43.0


From c73b70add41a6d7efcd5654b8be781604321f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:41 +0000
Subject: [PATCH 15/18] fix: the line search undid the reset of the inactive
 slips

---
 source/gradient_crystal_plasticity/solve.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index dd69836..87058c6 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -197,8 +197,6 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
     //distribute_affine_constraints_to_trial_solution();
 
     // Preparations for the Newton-Update and Line-Search
-    store_trial_solution();
-
     reset_and_update_internal_variables();
 
     active_set_algorithm(flag_compute_active_set);
@@ -207,6 +205,10 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
     distribute_affine_constraints_to_trial_solution();
 
+    // The Line-Search starts from the values which the update is added
+    // to, i.e., those with the inactive set's values already reset
+    store_trial_solution();
+
     // Assemble linear system
     assemble_linear_system();
 
-- 
2.43.0


From 08fc21de5764bbb746b877b72dd3f49d38564873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:41 +0000
Subject: [PATCH 16/18] fix: the restarted Newton loop kept extrapolated values
 of inactive slips

---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 87058c6..e1d8ef6 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -304,6 +304,10 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           reset_trial_solution(true);
 
+          // The active set is already known, i.e., it is not computed
+          // again at the beginning of the next iteration
+          reset_inactive_set_values();
+
           *pcout
             << std::endl
             << "Active set mismatch. Restarting Newton-loop with the "
-- 
2.43.0


From 101af57f5645a3eced3c74151579de240f9f96d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:55 +0000
Subject: [PATCH 17/18] fix: the reduced system of the embracing algorithm was
 not the Schur complement

---
 source/gradient_crystal_plasticity/solve.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index e1d8ef6..25319f1 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -4,6 +4,7 @@
 
 #include <deal.II/lac/trilinos_linear_operator.h>
 #include <deal.II/lac/packaged_operation.h>
+#include <deal.II/lac/solver_cg.h>
 
 namespace gCP
 {
@@ -1435,7 +1436,10 @@ solve_reduced_linearized_system()
         macro_krylov_parameters.relative_tolerance,
       macro_krylov_parameters.absolute_tolerance));
 
-  dealii::LinearAlgebraTrilinos::SolverCG solver(solver_control);
+  // The solvers of Trilinos only see the payload of the operator, which
+  // represents neither inverse operators nor the sign of the second term
+  dealii::SolverCG<dealii::LinearAlgebraTrilinos::MPI::Vector>
+    solver(solver_control);
 
   dealii::LinearAlgebraTrilinos::MPI::PreconditionILU preconditioner;
 
-- 
2.43.0


From 708e8dd520ae6c4041705c2528a5a7d108146e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 18/18] fix: the statistics table of the solver had an empty
 column, its output failed

---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 25319f1..204d631 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -138,6 +138,10 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
     break;
   }
 
+  table_handler.add_value(
+    "LoadStep",
+    discrete_time.get_step_number() + 1);
+
   // Compute and store the opening displacement at the quadrature
   // points based on the converged solution
   store_effective_opening_displacement_in_quadrature_history();
-- 
2.43.0

