From a873b98b97b98d6d8ed945238ee4e08de1b6799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 01/31] fix: Log_Rotation left its result unset for rotations
 by pi

---
 src/nimble_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 5942007..a5d1302 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1216,7 +1216,7 @@ Log_Rotation(const ScalarT* const rotation, ScalarT* const log_rotation)
   if (theta == 0.0) {
     Zero_Full33(log_rotation);
   } else if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
-    //        r = log_rotation_pi(R);
+    Log_Rotation_Pi(rotation, log_rotation);
   } else {
     // r = theta / std::sin(theta) * skew(R);
     ScalarT a = theta / std::sin(theta);
-- 
2.43.0


From 78dfe43d701e56eec6c3fb7f4bc27cb52ad5aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 02/31] fix: Log_Rotation_Pi aborted for rotations by pi about
 the first coordinate axis

---
 src/nimble_utils.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index a5d1302..fa65966 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1153,6 +1153,14 @@ Log_Rotation_Pi(const ScalarT* const rotation, ScalarT* const log_rotation)
     norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
     if (norm > 0.0) { norm = std::sqrt(norm); }
 
+    if (norm < machine_epsilon) {
+      // the rotation axis is the first coordinate axis, u is zero
+      CrossProduct(v, w, normal);
+
+      norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
+      if (norm > 0.0) { norm = std::sqrt(norm); }
+    }
+
     NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
                   " determine rotation vector.");
   }
-- 
2.43.0


From 76938fc8cf7bc76252859fddb224f0c7e50efdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 03/31] fix: characteristic length used a box reaching to the
 origin for elements at negative coordinates

---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..0067344 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = std::numeric_limits<double>::lowest();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From 8a275444dac8731c1fda0027c28c5520364e5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 04/31] fix: initial values of material state variables were
 looked up with the integration point prefix and never found

---
 src/nimble_block.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 3b2dff4..69ee7b2 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -179,7 +179,7 @@ Block::InitializeElementData(
     std::string ipt_label = RemoveIntegrationPointPrefix(label);
 
     double initial_value = 0.0;
-    auto   it            = state_variable_initial_values.find(label);
+    auto   it            = state_variable_initial_values.find(ipt_label);
     if (it != state_variable_initial_values.end()) { initial_value = it->second; }
 
     for (int i_elem = 0; i_elem < num_elem_in_block; ++i_elem) {
-- 
2.43.0


From 682c61f54d2be76158819bc0b9580d576d1d619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 05/31] fix: two components of a two-dimensional full tensor
 shared one label

---
 src/nimble_data_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 79fa156..f19fa04 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -183,7 +183,7 @@ GetComponentLabels(std::string label, Length length, int dim)
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
       labels.push_back(label + "_xy");
-      labels.push_back(label + "_xy");
+      labels.push_back(label + "_yx");
     } else if (dim == 3) {
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
-- 
2.43.0


From 3d4cd2336dd1e56bc0bc262e798fac4d2347757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 06/31] fix: explicit runs applied the initial kinematic
 conditions at time zero instead of the initial time

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..496cbe2 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, time_current, time_previous);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 70a4ab0b7fe317fe026040323f7635115796f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 07/31] fix: only rank 0 rejected a final time before the
 initial time, the other ranks ran on

---
 src/integrators/explicit_time_integrator.cc    | 2 +-
 src/integrators/quasistatic_time_integrator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 496cbe2..2571024 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -135,7 +135,7 @@ ExplicitTimeIntegrator::Integrate()
   int    output_frequency         = parser.OutputFrequency();
   double user_specified_time_step = (final_time - initial_time) / num_load_steps;
 
-  if (my_rank == 0 && final_time < initial_time) {
+  if (final_time < initial_time) {
     std::string msg = "Final time: " + std::to_string(final_time)
         + " is less than initial time: " + std::to_string(initial_time)
         + "\n";
diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..494d838 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -209,7 +209,7 @@ QuasistaticTimeIntegrator::Integrate()
   int    output_frequency         = parser.OutputFrequency();
   double user_specified_time_step = (final_time - initial_time) / num_load_steps;
 
-  if (my_rank == 0 && final_time < initial_time) {
+  if (final_time < initial_time) {
     std::string msg = "Final time: " + std::to_string(final_time) +
                       " is less than initial time: " + std::to_string(initial_time) + "\n";
     throw std::invalid_argument(msg);
-- 
2.43.0


From f5d3a9dcc00fe600822452f81a8217b7a641dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 08/31] fix: a traction boundary condition has no node set,
 looking it up aborted every quasistatic run

---
 src/nimble_boundary_condition_manager.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.cc b/src/nimble_boundary_condition_manager.cc
index 71656ea..98a1862 100644
--- a/src/nimble_boundary_condition_manager.cc
+++ b/src/nimble_boundary_condition_manager.cc
@@ -88,10 +88,10 @@ BoundaryConditionManager::ModifyTangentStiffnessMatrixForKinematicBC(
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
+      std::vector<int> const& node_set = node_sets_.at(node_set_id);
       for (unsigned int n = 0; n < node_set.size(); n++) {
         int index = global_node_ids[node_set[n]] * dim_ + coordinate;
         tangent_stiffness.SetRowValues(index, 0.0);
@@ -124,10 +124,10 @@ BoundaryConditionManager::ModifyRHSForKinematicBC(const int* const global_node_i
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
+      std::vector<int> const& node_set = node_sets_.at(node_set_id);
       for (unsigned int n = 0; n < node_set.size(); n++) {
         rhs[global_node_ids[node_set[n]] * dim_ + coordinate] = 0.0;
       }
-- 
2.43.0


From 376d296013d1a821bde99f6c6899c4ca6f395557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 09/31] fix: a sign after the last binary minus hid it, so 'x -
 y*-z' was read as (x - y)*(-z)

---
 src/nimble_expression_parser.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..4998d5b 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -601,17 +601,21 @@ class EquationContext
     if (r << '+')
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
+    // We need to ensure that we found a minus sign and not a value negation or
+    // the sign of an exponent; if we did not, an earlier one may be
+    for (Reader head(r); head << '-'; head.length = r.pos) {
+      r.pos = head.pos;
+      while (head.pos > 0 && (head.first[head.pos] == '-' || head.first[head.pos] == ' ')) head.pos--;
+      if (head.pos > 0 || head.first[head.pos] != '-') {
+        char c        = head.first[head.pos];
+        bool exponent = c == 'e' && head.pos > 0 && (IsDigit(head.first[head.pos - 1]) || head.first[head.pos - 1] == '.');
+        if (c != '*' && c != '/' && c != '^' && !exponent && c != '=' && c != '<' && c != '~' && c != '>') {
+          while (head.first[head.pos] != '-') head.pos++;  // Moves it back to the first of these minus signs
           return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
+              ParseEquation(r.sub(r.first, head.pos)), ParseEquation(r.sub(head.pos + 1, r.length)));
         }
       }
+      if (r.pos == 0) break;
     }
 
     if (r << '*')
-- 
2.43.0


From a02e2b5b5b9be974554bbf81a1064fd02d57d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 10/31] fix: blanks inside parentheses made '( x )' and 'sin( x
 )' unreadable

---
 src/nimble_expression_parser.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..8bd66f5 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -165,9 +165,12 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  unsigned int length = 0;
+  while (!text.IsEmpty() && text.length != length) {
+    length = text.length;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  }
 }
 
 ExpressionParsing::RealValuedExpression*
-- 
2.43.0


From b61e6d186a3b599f5e4573c72bf52b62c63e6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 11/31] fix: the sign of an exponent, as in '2.5e+3*t', was
 read as an addition

---
 src/nimble_expression_parser.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 4998d5b..122889b 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -598,8 +598,12 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
-      return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
+    for (Reader head(r); head << '+'; head.length = head.pos) {
+      unsigned int pos      = head.pos;
+      bool         exponent = pos > 1 && r.first[pos - 1] == 'e' && (IsDigit(r.first[pos - 2]) || r.first[pos - 2] == '.');
+      if (!exponent)
+        return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, pos)), ParseEquation(r.sub(pos + 1, r.length)));
+    }
 
     // We need to ensure that we found a minus sign and not a value negation or
     // the sign of an exponent; if we did not, an earlier one may be
-- 
2.43.0


From b395b3b1e2e37ace623d166125bfa244ac32c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 12/31] fix: '-x^2' was read as (-x)^2

---
 src/nimble_expression_parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 122889b..aaa51c4 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -628,6 +628,8 @@ class EquationContext
     if (r << '/')
       return mem.New<DoubleDivide>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
+    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
+
     if (r >> '^') {
       RealValuedExpression* base       = ParseEquation(r.sub(r.first, r.pos));
       Reader                power_text = r.sub(r.pos + 1, r.length);
@@ -638,8 +640,6 @@ class EquationContext
         return mem.New<DoublePow>(base, ParseEquation(power_text));
     }
 
-    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
-
     return 0;
   }
 
-- 
2.43.0


From 4375d2a684259d92b8a0e544efd324f7e1147c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 13/31] fix: read node and side sets that have no (or fewer)
 distribution factors

Such sets were silently dropped (or the mesh was rejected), so conditions on
them had no effect.
---
 src/nimble_genesis_mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..1a0c74c 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
@@ -217,7 +217,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_SIDE_SET, id, &num_nodes_in_ss, &num_dist_factors_in_ss);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     side_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss == num_nodes_in_ss) {
+    if (num_nodes_in_ss > 0) {
       side_sets_[id] = std::vector<int>(num_nodes_in_ss);
       retval         = ex_get_set(exodus_file_id, EX_SIDE_SET, id, &side_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From d1aaa51b383ca64c156931408407c43b4a19c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 14/31] fix: text mesh reader fills the lists of all blocks

GetBlockName and GetNumGlobalBlocks did not know the blocks of a text mesh.
---
 src/nimble_genesis_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 1a0c74c..77e7483 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -385,7 +385,9 @@ GenesisMesh::ReadTextFile(std::string file_name)
       std::string       block_name;
       ss >> block_id >> block_name >> num_elem_in_block >> num_nodes_per_elem;
       block_ids_.push_back(block_id);
+      all_block_ids_.push_back(block_id);
       block_names_[block_id]              = block_name;
+      all_block_names_[block_id]          = block_name;
       block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
       block_elem_connectivity_[block_id]  = std::vector<int>(num_elem_in_block * num_nodes_per_elem);
       block_elem_global_ids_[block_id]    = std::vector<int>(num_elem_in_block);
-- 
2.43.0


From ac24bd3c2d1a6a6383a96f7c48d86d708aa4ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 15/31] fix: release the names of blocks without elements on
 this rank

---
 src/nimble_exodus_output.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 9511191..90fed11 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -293,7 +293,7 @@ ExodusOutput::InitializeDatabase(
 
   // Clean up
   if (block_names != nullptr) {
-    for (int i = num_blocks_; i > 0; i--) { delete[] block_names[i - 1]; }
+    for (int i = num_global_blocks_; i > 0; i--) { delete[] block_names[i - 1]; }
     delete[] block_names;
   }
   if (global_var_names != nullptr) {
-- 
2.43.0


From b088da451ba26f7f73335b3d834af212e184eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 16/31] fix: an input deck line of 1000 characters or more was
 read forever

---
 src/nimble_parser.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..9f0294b 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -196,9 +196,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
-  std::string delimiter(" ");
-
   std::ifstream fin;
   fin.open(file_name_.c_str());
   if (!fin.good()) {
@@ -206,11 +203,8 @@ Parser::ReadFile()
     throw std::invalid_argument(msg);
   }
 
-  while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
-
+  std::string line;
+  while (std::getline(fin, line)) {
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
-- 
2.43.0


From 664ffc5675e14c9fc3d8aea7d6a84eb48d756d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 17/31] fix: an indented comment or a line of blanks ended the
 run

---
 src/nimble_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 9f0294b..66a86e9 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -212,7 +212,7 @@ Parser::ReadFile()
     if (line.size() > 0) {
       size_t start_pos = line.find_first_not_of(" \t");
       size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
+      line             = (start_pos == std::string::npos) ? "" : line.substr(start_pos, end_pos - start_pos + 1);
     }
 
     if (line.size() > 0) {
-- 
2.43.0


From 978d9256ea0ed04bdeaaef6fc0dc76c320606098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 18/31] fix: tabs around the colon of an input deck line became
 part of the key or value

---
 src/nimble_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 66a86e9..8521a26 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -220,9 +220,9 @@ Parser::ReadFile()
       // Commands are delimited with a colon
       size_t      colon_pos = line.find(":");
       std::string key       = line.substr(0, colon_pos);
-      key                   = key.substr(key.find_first_not_of(" "), key.find_last_not_of(" ") + 1);
+      key                   = key.substr(key.find_first_not_of(" \t"), key.find_last_not_of(" \t") + 1);
       std::string value     = line.substr(colon_pos + 1, line.size());
-      value                 = value.substr(value.find_first_not_of(" "), value.find_last_not_of(" ") + 1);
+      value                 = value.substr(value.find_first_not_of(" \t"), value.find_last_not_of(" \t") + 1);
 
       ParseKeyValue(key, value);
     }
-- 
2.43.0


From 7cbbb3ca0b87bcc82e7d4a3c7f8891d0597b2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 19/31] fix: a .g or .e inside a path or file name cut the name
 of mesh and output files

---
 src/nimble_parser.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 8521a26..24d2477 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -65,10 +65,11 @@ IOFileName(
   if (serial_name == "none") { return serial_name; }
 
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
-  pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  // Strip the extension of the file, if it is a .g or .e extension
+  size_t pos = file_name.find_last_of("./");
+  if (pos != std::string::npos && (file_name.compare(pos, 2, ".g") == 0 || file_name.compare(pos, 2, ".e") == 0)) {
+    file_name = file_name.substr(0, pos);
+  }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
-- 
2.43.0


From 0e54ffa17a34d32a1d86cf906ed1c68d2a7ba623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 20/31] fix: the name of a file of a parallel run was cut at
 its first blank

---
 src/nimble_parser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 24d2477..8d5e5b9 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -82,8 +82,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
-- 
2.43.0


From e3556b6d8c22db44cecc58d96c6a92b8975dccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 21/31] fix: --use_uq turned on VT

---
 src/nimble_cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 66c5ecb..b548b78 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -98,7 +98,7 @@ CommandLineConfiguration::ConfigureCommandLineArguments() {
 #endif
           });
 
-  impl_->cli_app_.add_flag("--use_uq", impl_->use_vt_, "Use UQ capability")->check([](const std::string&) -> std::string {
+  impl_->cli_app_.add_flag("--use_uq", impl_->use_uq_, "Use UQ capability")->check([](const std::string&) -> std::string {
 #ifdef NIMBLE_HAVE_UQ
     return {};  // Empty string on success
 #else
-- 
2.43.0


From bbaf1e2945f51ce31ea7d1ca9567d86eadae16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 22/31] fix: take the quasistatic residual norm over every
 unknown, not the first num_nodes entries

---
 src/integrators/quasistatic_time_integrator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 494d838..0e95eef 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -95,11 +95,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
-- 
2.43.0


From 554148ab66a8062eb513da7279657840351f0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 23/31] fix: judge quasistatic convergence by the residual, not
 by the number of iterations used

---
 src/integrators/quasistatic_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 0e95eef..b81539c 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -398,7 +398,7 @@ QuasistaticTimeIntegrator::Integrate()
 
     }  // while (residual > convergence_tolerance ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0


From f5e952ec64175fae0153ea18a495bd0884de4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 24/31] fix: end the run after the help message instead of
 aborting on an empty input file

---
 src/nimble_cli.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index b548b78..31d906b 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -47,6 +47,8 @@
 
 #include <tpl_include/CLI11/CLI11.hpp>
 
+#include <cstdlib>
+
 namespace nimble {
 
 struct CommandLineConfiguration::impl
@@ -113,6 +115,9 @@ int
 CommandLineConfiguration::ParseAndGetErrorCode() {
   try {
     impl_->cli_app_.parse(impl_->argc_, impl_->argv_);
+  } catch (const CLI::Success& e) {
+    // The help message was asked for: there is no error, and nothing to run
+    std::exit(impl_->cli_app_.exit(e));
   } catch (const CLI::ParseError& e) {
     return impl_->cli_app_.exit(e);
   }
-- 
2.43.0


From bc23a9bc270fa06881589f684a88d97989b0ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 25/31] fix: a material parameter without a value read past the
 end of the line

---
 src/nimble_material_factory_base.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..de93c5f 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -69,6 +69,10 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
   // (key-value pairs)
 
   NIMBLE_ASSERT(tokens.size() > 1);
+  if (tokens.size() % 2 == 0) {
+    std::string errMsg = "Material parameter without a value: '" + tokens.back() + "'";
+    throw std::invalid_argument(errMsg);
+  }
 
   const std::string material_name = tokens.front();
   auto              token         = tokens.cbegin() + 1;
@@ -104,6 +108,10 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
 
   // The first string is the material name, followed by the material properties (key-value pairs)
   NIMBLE_ASSERT(tokens.size() > 1);
+  if (tokens.size() % 2 == 0) {
+    std::string errMsg = "Material parameter without a value: '" + tokens.back() + "'";
+    throw std::invalid_argument(errMsg);
+  }
 
   const std::string material_name = tokens.front();
   auto              token         = tokens.cbegin() + 1;
-- 
2.43.0


From 5f046363cc72ef767c9758c2530f4a093c95825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 26/31] fix: a material parameter that is not a number was
 taken as zero or cut at its first letter

---
 src/nimble_parser_util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c752d7e..865917f 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -47,6 +47,7 @@
 #include <iostream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -93,6 +94,9 @@ string_to_double(const std::string& s)
   ss << s;
   double val = std::numeric_limits<double>::max();
   ss >> val;
+  if (ss.fail() || ss.peek() != std::stringstream::traits_type::eof()) {
+    throw std::invalid_argument("Not a number: '" + s + "'");
+  }
   return val;
 }
 
-- 
2.43.0


From a9dab4721df9bbcdd8c23842f810a08edc4979f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 27/31] fix: tabs between material parameters became part of
 their names

---
 src/nimble_parser_util.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index 865917f..e848b14 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -80,8 +80,9 @@ tokenize_string(const std::string& s)
     if (is_quoted_segment(i)) {
       tokens.push_back(*quote);
     } else {
-      auto segment_tokens = tokenize_string_with_separator(*quote, ' ');
-      tokens.insert(tokens.end(), segment_tokens.begin(), segment_tokens.end());
+      std::stringstream segment(*quote);
+      std::string       token;
+      while (segment >> token) { tokens.push_back(token); }
     }
   }
   return tokens;
-- 
2.43.0


From eda9b4672168db58e09f14432355693f78a379fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:49 +0000
Subject: [PATCH 28/31] fix: reject fields that Tpetra cannot reduce

TpetraContainer::VectorReduction() summed only the first component-sized
part of an array with any other number of components than 1 or dim.
---
 src/nimble_tpetra_utils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nimble_tpetra_utils.cc b/src/nimble_tpetra_utils.cc
index d8681e2..c4e208f 100644
--- a/src/nimble_tpetra_utils.cc
+++ b/src/nimble_tpetra_utils.cc
@@ -246,7 +246,11 @@ TpetraContainer::VectorReduction(int data_dimension, double* data)
 {
 #ifdef NIMBLE_HAVE_TRILINOS
   Length length = SCALAR;
-  if (data_dimension == dim_) length = VECTOR;
+  if (data_dimension == dim_) {
+    length = VECTOR;
+  } else if (data_dimension != 1) {
+    NIMBLE_ABORT("\nError:  TpetraContainer::VectorReduction() called with a bad field size.\n");
+  }
 
   if (length == SCALAR) {
     // load the data into a tpetra vector
-- 
2.43.0


From ad07711824d2f1959c69f858a62124917b51cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:38 +0000
Subject: [PATCH 29/31] fix: reject a contact command whose penalty parameter
 has no value

---
 src/nimble_contact_manager.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 49d1c5b..b6392aa 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -145,7 +145,11 @@ ParseContactCommand(
         "\"penalty_parameter\".\n");
   }
 
-  ss >> penalty_parameter;
+  if (!(ss >> penalty_parameter)) {
+    throw std::invalid_argument(
+        "\n**** Error processing contact command, expected a value for "
+        "\"penalty_parameter\".\n");
+  }
 }
 
 std::shared_ptr<nimble::ContactManager>
-- 
2.43.0


From 2c33384a7b0c010a9093349706dac040e256ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:21 +0000
Subject: [PATCH 30/31] fix: a deck that shows contact surfaces without a
 contact command crashed

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 2571024..111adf2 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -74,7 +74,7 @@ ExplicitTimeIntegrator::Integrate()
   auto contact_manager = nimble::GetContactManager(contact_interface, data_manager);
 
   bool contact_enabled       = parser.HasContact();
-  bool contact_visualization = parser.ContactVisualization();
+  bool contact_visualization = contact_enabled && parser.ContactVisualization();
 
   auto                   myVectorCommunicator = data_manager.GetVectorCommunicator();
   nimble::ProfilingTimer watch_simulation;
-- 
2.43.0


From 357eaa7d40995c75d9f0939bea502229cab33e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:24 +0000
Subject: [PATCH 31/31] fix: a run whose material has state variables crashed,
 its device state was stored and copied with the wrong types

---
 src/nimble_kokkos_defs.h        |  8 ++--
 src/nimble_kokkos_model_data.cc | 70 +++++++++++++++++----------------
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/nimble_kokkos_defs.h b/src/nimble_kokkos_defs.h
index 052c256..7f0f667 100644
--- a/src/nimble_kokkos_defs.h
+++ b/src/nimble_kokkos_defs.h
@@ -379,11 +379,11 @@ class Field<FieldType::DeviceScalarIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceScalarIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceScalarIntPt), data_(v) {}
 
   View
   data() const noexcept
@@ -405,11 +405,11 @@ class Field<FieldType::DeviceVectorIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceVectorIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 8f5957b..9788ac6 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -737,14 +737,14 @@ ModelData::AllocateIntegrationPointData(
 
   if (length == nimble::SCALAR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
   } else if (length == nimble::VECTOR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
   } else if (length == nimble::SYMMETRIC_TENSOR) {
     device_integration_point_data_step_n_.at(block_index)
         .emplace_back(new Field<FieldType::DeviceSymTensorIntPt>(label, num_objects));
@@ -767,48 +767,50 @@ ModelData::AllocateIntegrationPointData(
   FieldBase* d_field_step_n   = device_integration_point_data_step_n_.at(block_index).back().get();
   FieldBase* d_field_step_np1 = device_integration_point_data_step_np1_.at(block_index).back().get();
 
-  if (d_field_step_n->type() == FieldType::DeviceScalarNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_n);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_n = field_step_n->data();
+  if (d_field_step_n->type() == FieldType::DeviceScalarIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
-    host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_n));
+    host_integration_point_data_step_n_.at(block_index).emplace_back();  // has no host field
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
-    host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_np1));
+    host_integration_point_data_step_np1_.at(block_index).emplace_back();  // has no host field
 
     if (set_initial_value) {
-      int num_elem = h_view_step_n.extent(0);
+      int num_elem   = h_view_step_n.extent(0);
+      int num_int_pt = h_view_step_n.extent(1);
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        h_view_step_n(i_elem)   = initial_value.at(0);
-        h_view_step_np1(i_elem) = initial_value.at(0);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          h_view_step_n(i_elem, i_int_pt, 0)   = initial_value.at(0);
+          h_view_step_np1(i_elem, i_int_pt, 0) = initial_value.at(0);
+        }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
       Kokkos::deep_copy(d_view_step_np1, h_view_step_np1);
     }
-  } else if (d_field_step_n->type() == FieldType::DeviceVectorNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_n);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_n = field_step_n->data();
+  } else if (d_field_step_n->type() == FieldType::DeviceVectorIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
-    host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_n));
+    host_integration_point_data_step_n_.at(block_index).emplace_back();  // has no host field
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
-    host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_np1));
+    host_integration_point_data_step_np1_.at(block_index).emplace_back();  // has no host field
 
     if (set_initial_value) {
       int num_elem    = h_view_step_n.extent(0);
+      int num_int_pt  = h_view_step_n.extent(1);
       int num_entries = 3;
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
-          h_view_step_n(i_elem, i_entry)   = initial_value.at(i_entry);
-          h_view_step_np1(i_elem, i_entry) = initial_value.at(i_entry);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
+            h_view_step_n(i_elem, i_int_pt, i_entry)   = initial_value.at(i_entry);
+            h_view_step_np1(i_elem, i_int_pt, i_entry) = initial_value.at(i_entry);
+          }
         }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
@@ -986,9 +988,9 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
     if (blocks_.at(block_id).GetMaterialPointer()->NumStateVariables() > 0) {
       if (field_ids_.state_sym_tensor >= 0) {
         auto state_sym_tensor_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
         auto state_sym_tensor_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
         Kokkos::deep_copy(state_sym_tensor_n, state_sym_tensor_np1);
       }
       //
@@ -1002,16 +1004,16 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
       //
       if (field_ids_.state_scalar >= 0) {
         auto state_scalar_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
         auto state_scalar_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
         Kokkos::deep_copy(state_scalar_n, state_scalar_np1);
       }
       //
       if (field_ids_.state_vec3D >= 0) {
-        auto state_vector_n = GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
+        auto state_vector_n = GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
         auto state_vector_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
+            GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
         Kokkos::deep_copy(state_vector_n, state_vector_np1);
       }
     }
-- 
2.43.0

