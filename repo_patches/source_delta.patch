From ca9d6d6fe579a9fe85c8966dff8ceea312cefa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 01/38] fix: derivative of the Swamee-Jain friction coefficient

The inner derivative of log10(a) is 1/(log(10)*a), not a/log(10).
---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From 08eaeaeaf4066a0d191a8428d6f23425ed787d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 02/38] fix: a non-finite residual must not be accepted as a
 solution

---
 src/Newtonsolver/Newtonsolver.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..2236a87 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -100,7 +100,8 @@ namespace Solver {
         throw SolverNumericalProblem(o.str());
       }
     }
-    while (rootvalues.norm() > tolerance
+    // the negated comparison keeps a non-finite residual from being accepted.
+    while (not(rootvalues.norm() <= tolerance)
            && solstruct.used_iterations < maximal_iterations) {
       if (use_full_jacobian) {
         evaluate_state_derivative_coeffref(
@@ -152,12 +153,7 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    solstruct.success = (rootvalues.norm() <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From e5d6270feee002cf354f80341019dacf8954625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 03/38] fix: evaluate cost and penalty at the solution, report
 the actual Ipopt status

---
 src/IpoptWrapper/Wrapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..578286d 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // the last evaluated point need not be the solution.
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From 7aa9d7587b39db580438a3c352fa08ab1df492c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 04/38] fix: report the constraint violations of the optimal
 controls

---
 src/Grazer/commands.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..cb58965 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -252,6 +252,7 @@ int grazer::run(std::filesystem::path directory_path) {
 
       Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
+      optimizer.new_x();
       optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
       auto lower_violation
           = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-- 
2.43.0


From 3158a4cfbe7cda1c0b8b749953bddc6196474aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 05/38] fix: an optimisation without optimum is not a success

---
 src/Grazer/commands.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index cb58965..4688c48 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -223,7 +223,14 @@ int grazer::run(std::filesystem::path directory_path) {
       Optimization::IpoptAdaptor adaptor(std::move(optimizer_ptr));
       // std::cout << optimizer.get_initial_controls() << std::endl;
 
-      adaptor.optimize();
+      auto status = adaptor.optimize();
+      bool found_optimum = (status == Ipopt::Solve_Succeeded
+                            or status == Ipopt::Solved_To_Acceptable_Level);
+      if (adaptor.get_solution().size() != optimizer.get_total_no_controls()) {
+        throw std::runtime_error(
+            "The optimizer could not even start, its status was "
+            + std::to_string(static_cast<int>(status)) + ".");
+      }
 
       Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
 
@@ -253,7 +260,10 @@ int grazer::run(std::filesystem::path directory_path) {
       Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
       optimizer.new_x();
-      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
+      if (not optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints)) {
+        throw std::runtime_error(
+            "The simulation with the controls of the optimizer failed.");
+      }
       auto lower_violation
           = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
                 .maxCoeff();
@@ -321,6 +331,15 @@ int grazer::run(std::filesystem::path directory_path) {
         throw std::runtime_error(o.str());
       }
 
+      if (not found_optimum) {
+        throw std::runtime_error(
+            "The optimizer found no optimum, its status was "
+            + std::to_string(static_cast<int>(status))
+            + ". Its last controls and the resulting states can be found in "
+              "the directory\n"
+            + output_directory.string());
+      }
+
       wall_clock_sim_end = Clock::now();
     }
 
-- 
2.43.0


From 629b8ac581dc3a273d1890b5c0b9dc4f5479f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:53 +0000
Subject: [PATCH 06/38] fix: time grids with large times neither drift nor fail
 their range checks

---
 .../InterpolatingVector.cpp                   | 27 ++++++++++++-------
 src/Auxillary/Mathfunctions/Mathfunctions.cpp |  5 ++++
 .../Mathfunctions/include/Mathfunctions.hpp   |  4 +++
 src/IpoptWrapper/ImplicitOptimizer.cpp        |  5 +++-
 .../Optimization_helpers.cpp                  |  8 ++++--
 5 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..4d2234d 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -50,10 +50,12 @@ namespace Aux {
     auto delta = (last_point - first_point) / (number_of_entries - 1);
     assert(
         last_point
-        > first_point + (number_of_entries - 1) * delta - Aux::EPSILON);
+        > first_point + (number_of_entries - 1) * delta
+              - equality_threshold(first_point, last_point));
     assert(
         last_point
-        < first_point + (number_of_entries - 1) * delta + Aux::EPSILON);
+        < first_point + (number_of_entries - 1) * delta
+              + equality_threshold(first_point, last_point));
     return {first_point, delta, number};
   }
 
@@ -100,11 +102,11 @@ namespace Aux {
     assert(
         last_point > first_point
                          + static_cast<double>(number_of_entries - 1) * delta
-                         - Aux::EPSILON);
+                         - equality_threshold(first_point, last_point));
     assert(
         last_point < first_point
                          + static_cast<double>(number_of_entries - 1) * delta
-                         + Aux::EPSILON);
+                         + equality_threshold(first_point, last_point));
 
     return {first_point, delta, number_of_entries};
   }
@@ -115,10 +117,9 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
     // check for double equality. Should be an aux function...
@@ -127,7 +128,7 @@ namespace Aux {
             interpolation_points.back()
             - (startpoint
                + static_cast<double>(number_of_entries - 1) * delta)))
-        < Aux::EPSILON);
+        < equality_threshold(startpoint, interpolation_points.back()));
     return interpolation_points;
   }
 
@@ -252,7 +253,10 @@ namespace Aux {
 
   Eigen::VectorXd InterpolatingVector_Base::operator()(double t) const {
     if (t >= interpolation_points.back()) {
-      if (t > interpolation_points.back() + Aux::EPSILON) {
+      if (t > interpolation_points.back()
+                  + equality_threshold(
+                      interpolation_points.front(),
+                      interpolation_points.back())) {
         std::ostringstream error_message;
         error_message << "Requested value " << t
                       << " is higher than the last valid value: "
@@ -266,7 +270,10 @@ namespace Aux {
           inner_length);
     }
     if (t <= interpolation_points.front()) {
-      if (t < interpolation_points.front() - Aux::EPSILON) {
+      if (t < interpolation_points.front()
+                  - equality_threshold(
+                      interpolation_points.front(),
+                      interpolation_points.back())) {
         std::ostringstream error_message;
         error_message << "Requested value " << t
                       << " is lower than the first valid value: "
diff --git a/src/Auxillary/Mathfunctions/Mathfunctions.cpp b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
index 531de77..695accb 100644
--- a/src/Auxillary/Mathfunctions/Mathfunctions.cpp
+++ b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
@@ -16,6 +16,7 @@
  */
 #include <Exception.hpp>
 #include <Mathfunctions.hpp>
+#include <algorithm>
 #include <cmath>
 
 namespace Aux {
@@ -25,6 +26,10 @@ namespace Aux {
   double const Pi = 3.141592653589793;
   double const EPSILON = 1e-10;
 
+  double equality_threshold(double first, double last) {
+    return EPSILON * std::max({1.0, std::abs(first), std::abs(last)});
+  }
+
   double circle_area(double radius) { return Pi * radius * radius; }
 
   double smooth_abs(double x) {
diff --git a/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp b/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
index dbb6ff9..cc36d1a 100644
--- a/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
+++ b/src/Auxillary/Mathfunctions/include/Mathfunctions.hpp
@@ -24,6 +24,10 @@ namespace Aux {
   /// less than EPSILON, are considered equal.
   extern double const EPSILON;
 
+  /// \brief Points between first and last, whose differences are less than
+  /// this, are considered equal: EPSILON, but never below the rounding level.
+  double equality_threshold(double first, double last);
+
   double circle_area(double radius);
 
   /// A C^1 absolute value function.
diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..2b1c5bc 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -125,7 +125,10 @@ namespace Optimization {
 
     // check that latest control timepoint is after or at latest state
     // timepoint:
-    if (back(control_timepoints) + Aux::EPSILON < back(state_timepoints)) {
+    if (back(control_timepoints)
+            + Aux::equality_threshold(
+                front(control_timepoints), back(control_timepoints))
+        < back(state_timepoints)) {
       gthrow(
           {"latest state timepoint is not inside the control timepoint span."});
     }
diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index fdf09e5..d6fbd3e 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -27,11 +27,15 @@ namespace Optimization {
       Eigen::Ref<Eigen::VectorXd const> const &timepoints, double time) {
     assert(timepoints.size() > 0);
     assert(time >= front(timepoints));
-    assert(time <= back(timepoints) + Aux::EPSILON);
+    assert(
+        time
+        <= back(timepoints)
+               + Aux::equality_threshold(front(timepoints), back(timepoints)));
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
     if (time > *(std::prev(timepoints.end()))
-        and time < *(std::prev(timepoints.end())) + Aux::EPSILON) {
+        and time < *(std::prev(timepoints.end()))
+                       + Aux::equality_threshold(front(timepoints), back(timepoints))) {
       Eigen::Index i_upper = back_index(timepoints);
       double lambda = 1.0;
       return {i_upper, lambda};
-- 
2.43.0


From 931784e1d21d0b8d39f2318b73e0e6a86b8561b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 07/38] fix: reject unsorted interpolation points

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 4d2234d..4aec9a2 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -171,7 +171,7 @@ namespace Aux {
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From 602c248a2e3abd1145719c462aecd6ac0f75b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 08/38] fix: reject a time grid of a single point between two
 different times

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 4aec9a2..cd1d3a0 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -45,6 +45,9 @@ namespace Aux {
            "Supplied first point: ", std::to_string(first_point), "\n",
            "Supplied last point: ", std::to_string(last_point), "\n"});
     }
+    if (number_of_entries == 1) {
+      gthrow({"A single entry can't reach from the first to the last point."});
+    }
     size_t number = static_cast<size_t>(number_of_entries);
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
-- 
2.43.0


From aa29d6fef39399c28399f1e370ea2f8cf6ec1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 09/38] fix: do not add a time step by rounding up the step
 number twice

---
 src/Grazer/commands.cpp | 6 +++---
 src/Grazer/helpers.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 4688c48..b94e45c 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -90,9 +90,9 @@ int grazer::run(std::filesystem::path directory_path) {
     Eigen::VectorXd initial_state(problem.get_number_of_states());
     problem.set_initial_values(initial_state, initial_json);
 
-    auto states_timehelper = Aux::make_from_start_delta_end(
-        timedata.get_starttime(), timedata.get_delta_t(),
-        timedata.get_endtime());
+    auto states_timehelper = Aux::make_from_start_number_end(
+        timedata.get_starttime(), timedata.get_endtime(),
+        timedata.get_number_of_time_points());
     Aux::InterpolatingVector saved_states(
         states_timehelper, problem.get_number_of_states());
     Eigen::VectorXd state_timepoints = saved_states.get_interpolation_points();
diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index 3e16414..deb7844 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -57,9 +57,9 @@ void setup_controls(
         throw std::runtime_error(o.str());
       }
     } else {
-      control_timehelper = Aux::make_from_start_delta_end(
-          timedata.get_starttime(), timedata.get_delta_t(),
-          timedata.get_endtime());
+      control_timehelper = Aux::make_from_start_number_end(
+          timedata.get_starttime(), timedata.get_endtime(),
+          timedata.get_number_of_time_points());
     }
     auto control_json = aux_json::get_json_from_file_path(
         problem_directory / std::filesystem::path("control.json"));
-- 
2.43.0


From dea28c3571a981e24f364ead18baa00df3aeb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 10/38] fix: save the power of a random load of the time point
 that is saved

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..ecad326 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,8 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    auto P_val = P(state);
+    auto Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From 1f60c9cdf16c10620c9b8d58bd556937da21970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 11/38] fix: constraints need not start at the first time step

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 2b1c5bc..4cd6e5b 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -569,8 +569,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From 707f0ad9d3e061e88fc3b70072b5f61453bfce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 12/38] fix: report result files that could not be written

---
 src/Grazer/commands.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index b94e45c..3cd6230 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -139,6 +139,11 @@ int grazer::run(std::filesystem::path directory_path) {
                   << std::endl;
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Couldn't write " + states_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -303,7 +308,11 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
         o << control_output_json.dump(1, '\t');
-
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Couldn't write " + control_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to control output file failed with error message:"
@@ -322,6 +331,11 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Couldn't write " + states_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From 2abbe4730a956104e1c3e61499723b70c39efc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 13/38] fix: report schema files that could not be written

---
 src/Auxillary/json_schema/schema_generation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..8143aca 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -88,6 +88,10 @@ namespace Aux::schema {
       std::ofstream ofs(file);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
+      if (not ofs) {
+        gthrow({"Could not write the schema file ", file.string()});
+      }
     }
   }
 
-- 
2.43.0


From fa2e22eb38ad04e1ebb55e0c5df37a6b270ac4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 14/38] fix: overwriting a json file must not lose its content

---
 src/Auxillary/aux_json/Aux_json.cpp | 43 ++++++++---------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..ed94473 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -106,39 +106,18 @@ namespace aux_json {
       std::filesystem::path const &file_path,
       nlohmann::ordered_json const &new_json) {
 
-    // creating a backup if this file existed
-    bool had_existed = false;
-    std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
-    if (std::filesystem::exists(file_path)) {
-      had_existed = true;
-      std::filesystem::rename(file_path, backup_path);
-      if (not std::filesystem::exists(backup_path)) {
-        throw std::filesystem::filesystem_error(
-            "backup file could not be created, aborting", std::error_code());
-      }
-    }
-
-    try {
-      // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
-      ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
-      ofs.close();
-    } catch (...) {
-      std::cout << "something went wrong writing the modified json to file"
-                << std::endl;
-      if (had_existed) {
-        if (std::filesystem::exists(backup_path)) {
-          std::cout << "rolling back to old version" << std::endl;
-          std::filesystem::rename(backup_path, file_path);
-        } else {
-          std::cout << "backup file is missing!" << std::endl;
-        }
-      }
-    }
-    // remove backup
-    if (had_existed) {
-      std::filesystem::remove(backup_path);
+    // The new content only replaces the old file once it is complete.
+    std::filesystem::path new_path = file_path;
+    new_path += ".tmp";
+    std::ofstream ofs(new_path, std::ofstream::trunc);
+    ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
+    ofs.close();
+    if (not ofs) {
+      std::error_code ignored;
+      std::filesystem::remove(new_path, ignored);
+      gthrow({"Could not write the modified json to ", new_path.string()});
     }
+    std::filesystem::rename(new_path, file_path);
   }
 
 } // namespace aux_json
-- 
2.43.0


From f7a3b04be52091bd3c3c23ab3cbe7f1bc128606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 15/38] fix: an optimisation without constraints reports its
 optimum instead of failing after the solve

---
 src/Grazer/commands.cpp | 51 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 3cd6230..5022e13 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -237,24 +237,27 @@ int grazer::run(std::filesystem::path directory_path) {
             + std::to_string(static_cast<int>(status)) + ".");
       }
 
-      Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-
-      Optimization::MappedConstraintJacobian jacmapped(
-          storage.data(), storage.size(), optimizer.constraints_per_step(),
-          optimizer.controls_per_step(), constraint_timepoints,
-          control_timepoints);
-      jacmapped = optimizer.get_constraint_jacobian();
-      int count = 0;
-      for (auto entry : storage) {
-        if (std::abs(entry) > 1e-10) {
-          ++count;
+      // Without constraints there is no jacobian to speak of.
+      if (optimizer.get_total_no_constraints() > 0) {
+        Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
+
+        Optimization::MappedConstraintJacobian jacmapped(
+            storage.data(), storage.size(), optimizer.constraints_per_step(),
+            optimizer.controls_per_step(), constraint_timepoints,
+            control_timepoints);
+        jacmapped = optimizer.get_constraint_jacobian();
+        int count = 0;
+        for (auto entry : storage) {
+          if (std::abs(entry) > 1e-10) {
+            ++count;
+          }
         }
-      }
 
-      double sparsity
-          = double(count) / double(optimizer.get_no_nnz_in_jacobian());
-      std::cout << "density of the constraint jacobian: " << 100 * sparsity
-                << "%" << std::endl;
+        double sparsity
+            = double(count) / double(optimizer.get_no_nnz_in_jacobian());
+        std::cout << "density of the constraint jacobian: " << 100 * sparsity
+                  << "%" << std::endl;
+      }
       std::cout << "Cost: " << adaptor.get_cost_value() << std::endl;
       std::cout << "Penalty: " << adaptor.get_penalty_value() << std::endl;
       std::cout << "Overall objective: " << adaptor.get_objective_value()
@@ -269,14 +272,18 @@ int grazer::run(std::filesystem::path directory_path) {
         throw std::runtime_error(
             "The simulation with the controls of the optimizer failed.");
       }
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
+      double lower_violation = 0.0;
+      double upper_violation = 0.0;
+      if (ipoptconstraints.size() > 0) {
+        lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+      }
       std::cout << "Maximum lower constraint violation:\n"
                 << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
       std::cout << "Maximum upper constraint violation:\n"
                 << std::max(0.0, upper_violation) << std::endl;
 
-- 
2.43.0


From 3966309a25ef096f086c7e4ab180d5e2399435a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 16/38] fix: optimising a problem without controls is reported
 as an error, not an assertion or worse

---
 src/Grazer/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 5022e13..fb3d79d 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -155,6 +155,10 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     } else {
       // optimize!
+      if (problem.get_number_of_controls_per_timepoint() == 0) {
+        throw std::runtime_error(
+            "There is nothing to optimize, the problem has no controls.");
+      }
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-- 
2.43.0


From 97b40ec73559f2fd1fa6143c20d8a1c51d9ab155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 17/38] fix: an output directory name taken by a file is
 skipped like one taken by a directory

---
 src/Auxillary/Input_Output/Input_output.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..735e146 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -136,9 +136,16 @@ namespace io {
       std::filesystem::path absolute_unique_directory_path
           = outer_output_directory
             / std::filesystem::path(dirname_generator_funtion());
-      if (std::filesystem::create_directory(absolute_unique_directory_path)) {
+      std::error_code error;
+      if (std::filesystem::create_directory(
+              absolute_unique_directory_path, error)) {
         return absolute_unique_directory_path;
       }
+      // A name taken by something that is no directory is just taken, too.
+      if (error and error != std::errc::file_exists) {
+        throw std::filesystem::filesystem_error(
+            "cannot create directory", absolute_unique_directory_path, error);
+      }
       std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
     gthrow(
-- 
2.43.0


From 41feb4cbcd953f39d8d7451ddc79aad3d53f1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 18/38] fix: schemas are not silently truncated when memory
 runs out while they are put together

---
 src/Auxillary/json_schema/make_schema.cpp         | 5 ++---
 src/Auxillary/unit_conversion/unit_conversion.cpp | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 5b69c18..ca6f4b8 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -79,9 +79,8 @@ namespace Aux::schema {
     list_schema["type"] = "array";
     list_schema["items"] = element_schema;
     if (element_schema.contains("description")) {
-      std::ostringstream stream;
-      stream << "Array of " << element_schema["description"];
-      list_schema["description"] = stream.str();
+      list_schema["description"]
+          = "Array of " + element_schema["description"].dump();
     }
     list_schema.update(array_params);
     return list_schema;
diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index cdb0505..1f23a04 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -170,10 +170,9 @@ namespace Aux::unit {
     return type_schema;
   }
   std::string re_capture_from_map(std::map<std::string, Conversion> map) {
-    std::ostringstream regex_stream;
-    regex_stream << "(";
-    for (auto [item, _] : map) { regex_stream << item << "|"; }
-    std::string regex = regex_stream.str();
+    // no stream here: streams truncate silently if memory runs out.
+    std::string regex = "(";
+    for (auto const &[item, _] : map) { regex += item + "|"; }
     regex.pop_back();
     return regex + ")";
   }
-- 
2.43.0


From 2bc95b0d40b74991c3191781b52d4e214729f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 19/38] fix: report missing simulation settings instead of
 reading past them

---
 src/Auxillary/Timedata/Timedata.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..bd76140 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -20,10 +20,10 @@
 namespace Model {
 
   Timedata::Timedata(nlohmann::json const &simulation_settings) :
-      starttime(simulation_settings["start_time"].get<double>()),
-      endtime(simulation_settings["end_time"].get<double>()),
+      starttime(simulation_settings.at("start_time").get<double>()),
+      endtime(simulation_settings.at("end_time").get<double>()),
       Number_of_timesteps(init_Number_of_timesteps(
-          simulation_settings["desired_delta_t"].get<double>())),
+          simulation_settings.at("desired_delta_t").get<double>())),
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-- 
2.43.0


From f583705734b3ec64f9df2cc5201fbf4679a8e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 20/38] fix: boundary data without time or values are rejected

---
 src/Auxillary/json_schema/make_schema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index ca6f4b8..d72dc13 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -159,8 +159,8 @@ namespace Aux::schema {
     })"_json;
 
     nlohmann::json data_element;
-    add_property(data_element, "time", type::number());
-    add_property(
+    add_required(data_element, "time", type::number());
+    add_required(
         data_element, "values",
         make_list_schema_of(
             type::number(),
-- 
2.43.0


From 8fc0227358091f525f480f9fec88a6b4b7f6a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 21/38] fix: reject an empty list of data points

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index cd1d3a0..2dc3205 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -453,6 +453,9 @@ namespace Aux {
   InterpolatingVector InterpolatingVector::construct_from_json(
       nlohmann::json const &json, nlohmann::json const &schema) {
     Aux::schema::validate_json(json, schema);
+    if (json["data"].empty()) {
+      gthrow({"There are no data points to interpolate!"});
+    }
 
     std::vector<double> interpolation_points;
 
-- 
2.43.0


From c84b793d46bef58c758d7fcbf92b2a372c7f1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 22/38] fix: times are only equal up to rounding, even if they
 are large

---
 src/Auxillary/Mathfunctions/Mathfunctions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/Mathfunctions/Mathfunctions.cpp b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
index 695accb..308b034 100644
--- a/src/Auxillary/Mathfunctions/Mathfunctions.cpp
+++ b/src/Auxillary/Mathfunctions/Mathfunctions.cpp
@@ -18,6 +18,7 @@
 #include <Mathfunctions.hpp>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 namespace Aux {
 
@@ -27,7 +28,9 @@ namespace Aux {
   double const EPSILON = 1e-10;
 
   double equality_threshold(double first, double last) {
-    return EPSILON * std::max({1.0, std::abs(first), std::abs(last)});
+    return std::max(
+        EPSILON, 64 * std::numeric_limits<double>::epsilon()
+                     * std::max(std::abs(first), std::abs(last)));
   }
 
   double circle_area(double radius) { return Pi * radius * radius; }
-- 
2.43.0


From 2b4c06cadfa2075b69894597f57f0b8118a8ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 23/38] fix: pressure constraints at pipes constrain the
 pressure, not the density

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..5c02350 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,24 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    // The state of an edge need not contain the pressure, e.g. for pipes.
+    auto sample_p_qvol
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dp_qvol(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler,
+        dconstraint_dp_qvol, get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From 04c9745e1f8474e82572cc770dfe3291890ba9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 24/38] fix: compare cached time points and initial states of
 different length safely

Eigen asserts (or reads out of bounds with NDEBUG) when vectors of
different length are compared.
---
 src/Optimization_helpers/ControlStateCache.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Optimization_helpers/ControlStateCache.cpp b/src/Optimization_helpers/ControlStateCache.cpp
index f57c213..f7ca751 100644
--- a/src/Optimization_helpers/ControlStateCache.cpp
+++ b/src/Optimization_helpers/ControlStateCache.cpp
@@ -26,6 +26,14 @@ namespace Optimization {
 
   StateCache::~StateCache() = default;
 
+  /// Vectors of different length are different, but Eigen must not compare
+  /// them.
+  static bool equal(
+      Eigen::VectorXd const &lhs,
+      Eigen::Ref<Eigen::VectorXd const> const &rhs) {
+    return lhs.size() == rhs.size() and lhs == rhs;
+  }
+
   ControlStateCache::ControlStateCache(
       std::unique_ptr<Model::Timeevolver> _evolver) :
       evolver(std::move(_evolver)) {}
@@ -60,13 +68,13 @@ namespace Optimization {
       Eigen::Ref<Eigen::VectorXd const> const &state_timepoints,
       Eigen::Ref<Eigen::VectorXd const> const &initial_state) {
     if (failed.control == controls
-        and failed.state_timepoints == state_timepoints
-        && failed.initial_state == initial_state) {
+        and equal(failed.state_timepoints, state_timepoints)
+        and equal(failed.initial_state, initial_state)) {
       return nullptr;
     }
     if (controls == cache.first.control
-        and initial_state == cache.first.initial_state
-        && state_timepoints == cache.first.state_timepoints) {
+        and equal(cache.first.initial_state, initial_state)
+        and equal(cache.first.state_timepoints, state_timepoints)) {
       return &cache.second;
     } else {
       Aux::InterpolatingVector states(state_timepoints, initial_state.size());
-- 
2.43.0


From 1821e6e37df9f568644030f28029dc8388ed534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:24 +0000
Subject: [PATCH 25/38] fix: helper tools replace problem files only by
 complete new content

The tools truncated the problem file before writing, never looked at the
state of the stream, and reported success: a full disk, a failing write or
an interruption lost the user's data.
---
 helper_functions/CMakeLists.txt                      | 7 +++++++
 helper_functions/change_inflow.cpp                   | 7 +++----
 helper_functions/construct_gaspowerconnection.cpp    | 7 +++----
 helper_functions/include_seed_in_boundaryvalues.cpp  | 7 +++----
 helper_functions/increase_pressure.cpp               | 7 +++----
 helper_functions/move_to_category.cpp                | 7 +++----
 helper_functions/normalize_jsons.cpp                 | 7 +++----
 helper_functions/remove_seed_from_boundaryvalues.cpp | 7 +++----
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/helper_functions/CMakeLists.txt b/helper_functions/CMakeLists.txt
index 52b04c9..f957ec2 100644
--- a/helper_functions/CMakeLists.txt
+++ b/helper_functions/CMakeLists.txt
@@ -21,7 +21,9 @@ target_link_libraries(generate_control_printing_csv PRIVATE input_output)
 
 
 add_executable(move_to_category move_to_category.cpp)
+target_link_libraries(move_to_category PRIVATE aux_json)
 add_executable(normalize_jsons normalize_jsons.cpp)
+target_link_libraries(normalize_jsons PRIVATE aux_json)
 add_executable(draw_gaslib_graph draw_gaslib_graph.cpp)
 
 
@@ -31,14 +33,19 @@ add_executable(extract_new_initial_condition extract_new_initial_condition.cpp)
 
 add_executable(pv_to_vphi pv_to_vphi.cpp)
 add_executable(construct_gaspowerconnection construct_gaspowerconnection.cpp)
+target_link_libraries(construct_gaspowerconnection PRIVATE aux_json)
 
 
 
 add_executable(sum_outflow sum_outflow.cpp)
 add_executable(change_inflow change_inflow.cpp)
+target_link_libraries(change_inflow PRIVATE aux_json)
 add_executable(increase_pressure increase_pressure.cpp)
+target_link_libraries(increase_pressure PRIVATE aux_json)
 add_executable(include_seed_in_boundaryvalues include_seed_in_boundaryvalues.cpp)
+target_link_libraries(include_seed_in_boundaryvalues PRIVATE aux_json)
 add_executable(remove_seed_from_boundaryvalues remove_seed_from_boundaryvalues.cpp)
+target_link_libraries(remove_seed_from_boundaryvalues PRIVATE aux_json)
 
 add_executable(draw_heatmap_gaslib draw_heatmap_gaslib.cpp)
 target_link_libraries(draw_heatmap_gaslib PUBLIC netfactory componentjsonhelpers)
diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index dc35314..3a23423 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -66,10 +68,7 @@ int main(int argc, char **argv) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
   }
-  {
-    std::ofstream resultsstream(inputfile);
-    resultsstream << results.dump(1, '\t');
-  }
+  aux_json::overwrite_json(inputfile, results);
 
   return 0;
 }
diff --git a/helper_functions/construct_gaspowerconnection.cpp b/helper_functions/construct_gaspowerconnection.cpp
index f60dab2..946148f 100644
--- a/helper_functions/construct_gaspowerconnection.cpp
+++ b/helper_functions/construct_gaspowerconnection.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -80,9 +82,6 @@ int main(int argc, char **argv) {
       }
     }
 
-    {
-      std::ofstream outputstream((fs::path(file)));
-      outputstream << input.dump(1, '\t');
-    }
+    aux_json::overwrite_json(file, input);
   }
 }
diff --git a/helper_functions/include_seed_in_boundaryvalues.cpp b/helper_functions/include_seed_in_boundaryvalues.cpp
index 8be39ca..c7efeb3 100644
--- a/helper_functions/include_seed_in_boundaryvalues.cpp
+++ b/helper_functions/include_seed_in_boundaryvalues.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -92,10 +94,7 @@ int main(int argc, char **argv) {
       }
     }
   }
-  {
-    std::ofstream boundarystream(boundaryfile);
-    boundarystream << boundary.dump(1, '\t');
-  }
+  aux_json::overwrite_json(boundaryfile, boundary);
 
   return 0;
 }
diff --git a/helper_functions/increase_pressure.cpp b/helper_functions/increase_pressure.cpp
index e63bc84..e250d87 100644
--- a/helper_functions/increase_pressure.cpp
+++ b/helper_functions/increase_pressure.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -68,10 +70,7 @@ int main(int argc, char **argv) {
     return 1;
   }
 
-  {
-    std::ofstream resultsstream(inputfile);
-    resultsstream << results.dump(1, '\t');
-  }
+  aux_json::overwrite_json(inputfile, results);
 
   return 0;
 }
diff --git a/helper_functions/move_to_category.cpp b/helper_functions/move_to_category.cpp
index 86012d2..66c3c66 100644
--- a/helper_functions/move_to_category.cpp
+++ b/helper_functions/move_to_category.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -68,10 +70,7 @@ int main(int argc, char **argv) {
       std::cout << "No object with id " << id << " in category "
                 << from_category << " in file " << file << std::endl;
     } else {
-      {
-        std::ofstream outputstream((fs::path(file)));
-        outputstream << input.dump(1, '\t');
-      }
+      aux_json::overwrite_json(file, input);
     }
   }
 }
diff --git a/helper_functions/normalize_jsons.cpp b/helper_functions/normalize_jsons.cpp
index 6a61875..d0e1e88 100644
--- a/helper_functions/normalize_jsons.cpp
+++ b/helper_functions/normalize_jsons.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -19,9 +21,6 @@ int main() {
       std::ifstream inputstream((fs::path(file)));
       inputstream >> input;
     }
-    {
-      std::ofstream outputstream((fs::path(file)));
-      outputstream << input.dump(1, '\t');
-    }
+    aux_json::overwrite_json(file, input);
   }
 }
diff --git a/helper_functions/remove_seed_from_boundaryvalues.cpp b/helper_functions/remove_seed_from_boundaryvalues.cpp
index 9fc498b..14fa08b 100644
--- a/helper_functions/remove_seed_from_boundaryvalues.cpp
+++ b/helper_functions/remove_seed_from_boundaryvalues.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -48,10 +50,7 @@ int main(int argc, char **argv) {
       }
     }
   }
-  {
-    std::ofstream boundarystream(boundaryfile);
-    boundarystream << boundary.dump(1, '\t');
-  }
+  aux_json::overwrite_json(boundaryfile, boundary);
 
   return 0;
 }
-- 
2.43.0


From e3412c2fa13ede1f22e5a9e69c8140bf5041f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:24 +0000
Subject: [PATCH 26/38] fix: extract_new_initial_condition uses the requested
 time step

It stepped back from every time step but the first one, so that the initial
values belonged to the time step before the given time, even if the given
time was in the results.
---
 helper_functions/extract_new_initial_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 018359b..727c832 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -70,7 +70,7 @@ int main(int argc, char **argv) {
         auto it = std::lower_bound(
             component["data"].begin(), component["data"].end(),
             time_compare_value, less_time);
-        if (it != component["data"].begin()) {
+        if (it == component["data"].end()) {
           --it;
         }
         json initialdata;
-- 
2.43.0


From f806eed6b0df1faec740d836216d431b4ddff8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:24 +0000
Subject: [PATCH 27/38] fix: change_inflow, increase_pressure and sum_outflow
 stop after an error

They printed the error and went on: change_inflow scaled by a partial sum of
the inflows, increase_pressure wrote partially changed values, and all of
them reported success.
---
 helper_functions/change_inflow.cpp     | 2 ++
 helper_functions/increase_pressure.cpp | 1 +
 helper_functions/sum_outflow.cpp       | 1 +
 3 files changed, 4 insertions(+)

diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index 3a23423..ba9806f 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -48,6 +48,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
@@ -64,6 +65,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
diff --git a/helper_functions/increase_pressure.cpp b/helper_functions/increase_pressure.cpp
index e250d87..4c8a547 100644
--- a/helper_functions/increase_pressure.cpp
+++ b/helper_functions/increase_pressure.cpp
@@ -65,6 +65,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
diff --git a/helper_functions/sum_outflow.cpp b/helper_functions/sum_outflow.cpp
index d9c80c5..4422c48 100644
--- a/helper_functions/sum_outflow.cpp
+++ b/helper_functions/sum_outflow.cpp
@@ -44,6 +44,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From 6345d2f01dcb304ade42ca1f6ffb9ff47fbd0ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:55 +0000
Subject: [PATCH 28/38] fix: helper tools report an output file they could not
 write

extract_new_initial_condition, insert_positions and the csv generators
ignored the state of the output stream and reported success for missing or
truncated files.
---
 helper_functions/CMakeLists.txt                    | 3 ++-
 helper_functions/extract_new_initial_condition.cpp | 7 +++----
 helper_functions/generate_control_printing_csv.cpp | 4 ++++
 helper_functions/generate_printing_csv.cpp         | 8 ++++++++
 helper_functions/insert_positions.cpp              | 6 ++----
 5 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/helper_functions/CMakeLists.txt b/helper_functions/CMakeLists.txt
index f957ec2..0313004 100644
--- a/helper_functions/CMakeLists.txt
+++ b/helper_functions/CMakeLists.txt
@@ -29,6 +29,7 @@ add_executable(draw_gaslib_graph draw_gaslib_graph.cpp)
 
 
 add_executable(extract_new_initial_condition extract_new_initial_condition.cpp)
+target_link_libraries(extract_new_initial_condition PRIVATE aux_json)
 
 
 add_executable(pv_to_vphi pv_to_vphi.cpp)
@@ -59,4 +60,4 @@ add_executable(draw_power_graph draw_power_graph.cpp)
 
 
 add_executable(insert_positions insert_positions.cpp)
-target_link_libraries(insert_positions PUBLIC exception)
+target_link_libraries(insert_positions PUBLIC exception aux_json)
diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 727c832..8eacc1a 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -1,3 +1,5 @@
+#include "Aux_json.hpp"
+
 #include <algorithm>
 #include <exception>
 #include <filesystem>
@@ -91,10 +93,7 @@ int main(int argc, char **argv) {
       };
     }
   }
-  {
-    std::ofstream outstream(outputfile);
-    outstream << new_initial_values.dump(1, '\t');
-  }
+  aux_json::overwrite_json(outputfile, new_initial_values);
 }
 
 json convert_resultdata_to_intialdata(json datapoint, std::string ctypename) {
diff --git a/helper_functions/generate_control_printing_csv.cpp b/helper_functions/generate_control_printing_csv.cpp
index f85a778..a0d6719 100644
--- a/helper_functions/generate_control_printing_csv.cpp
+++ b/helper_functions/generate_control_printing_csv.cpp
@@ -123,6 +123,10 @@ int main(int argc, char **argv) {
       }
       outstream << "\n";
     }
+    outstream.close();
+    if (not outstream) {
+      throw std::runtime_error("Could not write " + outpath.string());
+    }
 
   } catch (std::exception &e) {
     std::cout << e.what() << std::endl;
diff --git a/helper_functions/generate_printing_csv.cpp b/helper_functions/generate_printing_csv.cpp
index 4e0d084..87b4ef1 100644
--- a/helper_functions/generate_printing_csv.cpp
+++ b/helper_functions/generate_printing_csv.cpp
@@ -157,6 +157,10 @@ void write_power_csv(std::string id, json object) {
     }
     outstream << "\n";
   }
+  outstream.close();
+  if (not outstream) {
+    throw std::runtime_error("Could not write " + outpath.string());
+  }
 }
 
 void write_gas_csv(std::string id, json object) {
@@ -192,5 +196,9 @@ void write_gas_csv(std::string id, json object) {
       }
       outstream << "\n";
     }
+    outstream.close();
+    if (not outstream) {
+      throw std::runtime_error("Could not write " + outpath.string());
+    }
   }
 }
diff --git a/helper_functions/insert_positions.cpp b/helper_functions/insert_positions.cpp
index 4861054..85b6062 100644
--- a/helper_functions/insert_positions.cpp
+++ b/helper_functions/insert_positions.cpp
@@ -1,3 +1,4 @@
+#include "Aux_json.hpp"
 #include "Exception.hpp"
 
 #include <filesystem>
@@ -45,10 +46,7 @@ int main(int argc, char **argv) {
 
   insert_positions(topology, positions);
 
-  {
-    std::ofstream outstream(outfile);
-    outstream << topology.dump(1, '\t');
-  }
+  aux_json::overwrite_json(outfile, topology);
 }
 
 void insert_positions(json &topology, json &second_json) {
-- 
2.43.0


From 466b001841e2bccf5fbf492036555ef63d8cb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 29/38] fix: insert_positions also reports a missing position
 of the last components

The merge stopped at the end of the positions and silently left out the
components sorted behind them.
---
 helper_functions/insert_positions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/helper_functions/insert_positions.cpp b/helper_functions/insert_positions.cpp
index 85b6062..131390c 100644
--- a/helper_functions/insert_positions.cpp
+++ b/helper_functions/insert_positions.cpp
@@ -99,6 +99,12 @@ void insert_positions(json &topology, json &second_json) {
           ++top_it;
         }
       }
+      if (top_it != topology_vector_json.end()) {
+        gthrow(
+            {"The component with id ", (*top_it)["id"].get<std::string>(),
+             "\n is given in the topology json but no ", "positions",
+             " condition is provided."});
+      }
     }
   }
 }
-- 
2.43.0


From 4afe33bd1bad2c98544dcb421ec8a8d7e1fd27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 30/38] fix: change_inflow refuses to scale an inflow of zero

The division by zero replaced all inflows by null.
---
 helper_functions/change_inflow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index ba9806f..98ca3d1 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -46,6 +46,9 @@ int main(int argc, char **argv) {
       }
       old_summed_input += source["data"][0]["values"][0].get<double>();
     }
+    if (old_summed_input == 0) {
+      throw std::runtime_error("old gas input sums to zero!");
+    }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
     return 1;
-- 
2.43.0


From c80aa5895411d68445036e8d298c8c356bdea367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:27 +0000
Subject: [PATCH 31/38] fix: reject a seed that is not a list of eight 32 bit
 numbers

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index ecad326..681838e 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -18,7 +18,9 @@
 #include "Powernode.hpp"
 #include "Stochastic.hpp"
 #include "make_schema.hpp"
+#include <cstdint>
 #include <fstream>
+#include <limits>
 
 namespace Model::Power {
 
@@ -43,8 +45,13 @@ namespace Model::Power {
 
   nlohmann::json StochasticPQnode::get_boundary_schema() {
     auto boundary_schema = Aux::schema::make_boundary_schema(2);
-    auto seed_schema
-        = Aux::schema::make_list_schema_of(Aux::schema::type::number());
+    // Anything else would be converted silently to a seed that wasn't given.
+    auto seed_schema = Aux::schema::make_list_schema_of(
+        {{"type", "integer"},
+         {"minimum", 0},
+         {"maximum", std::numeric_limits<uint32_t>::max()}});
+    seed_schema["minItems"] = Aux::pcg_seed_count;
+    seed_schema["maxItems"] = Aux::pcg_seed_count;
     Aux::schema::add_property(boundary_schema, "seed", seed_schema);
     return boundary_schema;
   }
-- 
2.43.0


From 3225277390427c3b483107766ee9f7d9634781f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 32/38] fix: reject pipes whose length, diameter, roughness or
 step makes no sense

---
 src/Model/Networkproblem/Gas/Pipe.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/Pipe.cpp b/src/Model/Networkproblem/Gas/Pipe.cpp
index 2cd4e2a..c37f4cc 100644
--- a/src/Model/Networkproblem/Gas/Pipe.cpp
+++ b/src/Model/Networkproblem/Gas/Pipe.cpp
@@ -32,6 +32,7 @@
 #include <cmath>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -70,15 +71,31 @@ namespace Model::Gas {
         interpol_points, Pipe::init_vals_per_interpol_point(), contains_x);
   }
 
+  static int compute_number_of_points(nlohmann::json const &topology) {
+    double const length = unit::length.parse_to_si(topology["length"]);
+    double const desired_delta_x = topology["desired_delta_x"].get<double>();
+    if (not(length > 0) or not(desired_delta_x > 0)
+        or not(unit::length.parse_to_si(topology["diameter"]) > 0)
+        or not(unit::length.parse_to_si(topology["roughness"]) >= 0)) {
+      gthrow(
+          {"The pipe with id ", topology["id"].get<std::string>(),
+           " must have a positive length, diameter and desired_delta_x and a "
+           "non-negative roughness."});
+    }
+    double const number_of_cells = std::ceil(length / desired_delta_x);
+    if (not(number_of_cells < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"desired_delta_x is too small for the pipe with id ",
+           topology["id"].get<std::string>()});
+    }
+    return static_cast<int>(number_of_cells) + 1;
+  }
+
   Pipe::Pipe(
       nlohmann::json const &topology,
       std::vector<std::unique_ptr<Network::Node>> &nodes) :
       Network::Edge(topology, nodes),
-      number_of_points(
-          static_cast<int>(std::ceil(
-              unit::length.parse_to_si(topology["length"])
-              / topology["desired_delta_x"].get<double>()))
-          + 1),
+      number_of_points(compute_number_of_points(topology)),
       Delta_x(
           unit::length.parse_to_si(topology["length"])
           / (number_of_points - 1)),
-- 
2.43.0


From 541bfbcf27993cc265f2321a070f8ab46faffc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 33/38] fix: reject fractional or negative counts and a
 negative cut-off band

---
 src/Auxillary/Stochastics/Stochastic.cpp            | 2 +-
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 5 +++--
 src/Model/Problemlayer/Timeevolver.cpp              | 6 +++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Auxillary/Stochastics/Stochastic.cpp b/src/Auxillary/Stochastics/Stochastic.cpp
index 1e17eaa..8b5dd3a 100644
--- a/src/Auxillary/Stochastics/Stochastic.cpp
+++ b/src/Auxillary/Stochastics/Stochastic.cpp
@@ -35,7 +35,7 @@ namespace Aux {
           {"The parameter theta must fulfill theta > 0. Actual value: ",
            std::to_string(theta)});
     }
-    if (number_of_stochastic_steps < 0) {
+    if (number_of_stochastic_steps <= 0) {
       gthrow(
           {"The number of stochstic time steps must fulfill N > 0. Actual "
            "value: ",
diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index 681838e..5a402b5 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -32,14 +32,15 @@ namespace Model::Power {
     Aux::schema::add_required(
         schema, "stability_parameter", Aux::schema::type::number());
     Aux::schema::add_required(
-        schema, "cut_off_factor", Aux::schema::type::number());
+        schema, "cut_off_factor", {{"type", "number"}, {"minimum", 0}});
 
     Aux::schema::add_required(schema, "sigma_P", Aux::schema::type::number());
     Aux::schema::add_required(schema, "theta_P", Aux::schema::type::number());
     Aux::schema::add_required(schema, "sigma_Q", Aux::schema::type::number());
     Aux::schema::add_required(schema, "theta_Q", Aux::schema::type::number());
     Aux::schema::add_required(
-        schema, "number_of_stochastic_steps", Aux::schema::type::number());
+        schema, "number_of_stochastic_steps",
+        {{"type", "integer"}, {"minimum", 1}});
     return schema;
   }
 
diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 4286452..ccf5337 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -34,10 +34,10 @@ namespace Model {
     nlohmann::json schema;
     schema["type"] = "object";
     Aux::schema::add_required(schema, "tolerance", Aux::schema::type::number());
+    nlohmann::json const count = {{"type", "integer"}, {"minimum", 0}};
     Aux::schema::add_required(
-        schema, "maximal_number_of_newton_iterations",
-        Aux::schema::type::number());
-    Aux::schema::add_required(schema, "retries", Aux::schema::type::number());
+        schema, "maximal_number_of_newton_iterations", count);
+    Aux::schema::add_required(schema, "retries", count);
     Aux::schema::add_required(
         schema, "use_simplified_newton", Aux::schema::type::boolean());
 
-- 
2.43.0


From 2f3998503a750343ef7b6cefe9a12a7fd778fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 34/38] fix: reject settings of the wrong type instead of
 ignoring them

---
 src/Grazer/commands.cpp | 18 +++++++++++++-----
 src/Grazer/helpers.cpp  |  5 +++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index fb3d79d..6558f18 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -109,9 +109,10 @@ int grazer::run(std::filesystem::path directory_path) {
 
     bool optimize = false;
     if (all_json.contains("optimize")) {
-      if (all_json["optimize"].is_boolean()) {
-        optimize = all_json["optimize"];
+      if (not all_json["optimize"].is_boolean()) {
+        throw std::runtime_error("\"optimize\" must be true or false.");
       }
+      optimize = all_json["optimize"];
     }
     if (not optimize) {
       // These two make sure that the problem is de-allocated when this if
@@ -162,9 +163,16 @@ int grazer::run(std::filesystem::path directory_path) {
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-        if (constraint_settings.contains("evaluate_constraints_every_n")
-            and constraint_settings["evaluate_constraints_every_n"]
-                    .is_number_integer()) {
+        if (not constraint_settings.is_object()) {
+          throw std::runtime_error(
+              "\"constraint_settings\" must be an object.");
+        }
+        if (constraint_settings.contains("evaluate_constraints_every_n")) {
+          if (not constraint_settings["evaluate_constraints_every_n"]
+                      .is_number_integer()) {
+            throw std::runtime_error(
+                "\"evaluate_constraints_every_n\" must be an integer.");
+          }
           n = constraint_settings["evaluate_constraints_every_n"];
         }
       }
diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index deb7844..d15eb85 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -43,6 +43,11 @@ void setup_controls(
         control_timehelper = Aux::make_from_start_delta_end(
             timedata.get_starttime(), control_delta_t, timedata.get_endtime());
       } else if (control_settings.contains("number_of_steps")) {
+        if (not control_settings["number_of_steps"].is_number_integer()) {
+          throw std::runtime_error(
+              "\"number_of_steps\" in \"control_settings\" must be an "
+              "integer.");
+        }
         auto number_of_controls
             = control_settings["number_of_steps"].get<int>();
         control_timehelper = Aux::make_from_start_number_end(
-- 
2.43.0


From 4cee6990cfdb3a2dd9c5b5a987ff4b3245415e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 35/38] fix: reject two entries of one component in initial,
 control and bound files

---
 src/Model/Networkproblem/Networkproblem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Model/Networkproblem/Networkproblem.cpp b/src/Model/Networkproblem/Networkproblem.cpp
index 0667343..8f6700b 100644
--- a/src/Model/Networkproblem/Networkproblem.cpp
+++ b/src/Model/Networkproblem/Networkproblem.cpp
@@ -65,6 +65,13 @@ namespace Model {
     std::sort(ids.begin(), ids.end());
     auto json_ids = Aux::get_sorted_ids_of_json(json, key);
 
+    // With two entries for one component it would be arbitrary which one is
+    // used:
+    auto duplicate = std::adjacent_find(json_ids.begin(), json_ids.end());
+    if (duplicate != json_ids.end()) {
+      gthrow({"The id ", *duplicate, " appears twice in ", key, " ."});
+    }
+
     size_t json_index = 0;
     size_t id_index = 0;
     std::ostringstream errormessage;
-- 
2.43.0


From be4d7f895a3eb68c93859f766651e9be35b4539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:30 +0000
Subject: [PATCH 36/38] fix: overwriting a JSON file keeps links and
 permissions

---
 src/Auxillary/aux_json/Aux_json.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index ed94473..0513c5e 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -106,18 +106,30 @@ namespace aux_json {
       std::filesystem::path const &file_path,
       nlohmann::ordered_json const &new_json) {
 
-    // The new content only replaces the old file once it is complete.
-    std::filesystem::path new_path = file_path;
+    // The new content only replaces the old file once it is complete. A link
+    // keeps pointing to its file and the file keeps its permissions.
+    bool const file_exists = std::filesystem::exists(file_path);
+    std::filesystem::path const target
+        = file_exists ? std::filesystem::canonical(file_path) : file_path;
+    std::filesystem::path new_path = target;
     new_path += ".tmp";
     std::ofstream ofs(new_path, std::ofstream::trunc);
     ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
     ofs.close();
-    if (not ofs) {
+    std::error_code error;
+    if (ofs and file_exists) {
+      auto const permissions
+          = std::filesystem::status(target, error).permissions();
+      if (not error) {
+        std::filesystem::permissions(new_path, permissions, error);
+      }
+    }
+    if (not ofs or error) {
       std::error_code ignored;
       std::filesystem::remove(new_path, ignored);
       gthrow({"Could not write the modified json to ", new_path.string()});
     }
-    std::filesystem::rename(new_path, file_path);
+    std::filesystem::rename(new_path, target);
   }
 
 } // namespace aux_json
-- 
2.43.0


From b5bc60555b72aae6cd78a3217ad140842e44c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:00 +0000
Subject: [PATCH 37/38] fix: the generated schema of problem_data.json
 describes the current format

---
 .../json_schema/schema_generation.cpp         | 84 +++++++------------
 1 file changed, 28 insertions(+), 56 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 8143aca..a7ed935 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -48,7 +48,7 @@ namespace Aux::schema {
       } catch (nlohmann::json::out_of_range &e) {
         std::cout << "[Warning] The `problem_data.json` does not have the "
                      "expected structure:\n"
-                  << "  problem_data.subproblems.Network_problem.defaults\n"
+                  << "  problem_data.defaults\n"
                   << "  " << e.what() << "\n"
                   << "Generating Schemas without defaults!" << std::endl;
       }
@@ -123,13 +123,12 @@ namespace Aux::schema {
   }
 
   inline static json get_problem_data_schema() {
-    // see docs/problem_data_schema.json
     return R"(
     {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
         "simulation_settings": {
           "type": "object",
@@ -153,67 +152,40 @@ namespace Aux::schema {
             "desired_delta_t": {"type": "number"}
           }
         },
-        "initial_values": {
+        "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "the defaults and the topology and boundary jsons or the names of their files",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
+              "patternProperties": {"^.*$": {"type": "object"}},
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": ["string", "object"],
+              "format": "iri-reference",
+              "description": "Topology JSON or its file"
+            },
+            "boundary_json": {
+              "type": ["string", "object"],
+              "format": "iri-reference",
+              "description": "Boundary JSON or its file"
             }
           }
         },
-        "problem_data": {
+        "optimize": {"type": "boolean"},
+        "control_settings": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
           "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
-            }
+            "desired_delta_t": {"type": "number"},
+            "number_of_steps": {"type": "integer"}
+          }
+        },
+        "constraint_settings": {
+          "type": "object",
+          "properties": {
+            "evaluate_constraints_every_n": {"type": "integer"}
           }
         }
       }
-- 
2.43.0


From ae5f9428f635bb853e07b57205005251d1f7f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:03 +0000
Subject: [PATCH 38/38] fix: a state that is not finite is never reported as a
 solution

---
 src/Newtonsolver/Newtonsolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 2236a87..b6b9770 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -75,7 +75,7 @@ namespace Solver {
         rootvalues, last_time, new_time, last_state, new_state, control);
 
     // check if already there:
-    if (rootvalues.norm() <= tolerance) {
+    if (rootvalues.norm() <= tolerance and new_state.allFinite()) {
       solstruct.success = true;
       solstruct.residual = rootvalues.norm();
       solstruct.used_iterations = 0;
@@ -153,7 +153,9 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    solstruct.success = (rootvalues.norm() <= tolerance);
+    // a state that is not finite is no solution, even if the residual is small.
+    solstruct.success
+        = (rootvalues.norm() <= tolerance and new_state.allFinite());
 
     return solstruct;
   }
-- 
2.43.0

