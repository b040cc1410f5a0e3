From acfa1a5f944b42b03f78fc2793739160829d3ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 01/49] fix: restore the time step of explicit schemes on
 restart

TimeIntegratorData::save() writes max(order, 1) time steps, but load() resized
the storage to order, such that no step was restored for explicit schemes
(order = 0) and dt[0] was accessed out of bounds afterwards.
---
 include/pf-applications/time_integration/time_integrator_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/time_integration/time_integrator_data.h b/include/pf-applications/time_integration/time_integrator_data.h
index 8f1229d..068e258 100644
--- a/include/pf-applications/time_integration/time_integrator_data.h
+++ b/include/pf-applications/time_integration/time_integrator_data.h
@@ -197,7 +197,7 @@ namespace TimeIntegration
     load(Archive &ar, const unsigned int /*version*/)
     {
       ar &order;
-      dt.resize(order);
+      dt.resize(std::max(order, 1U));
       weights.resize(order + 1);
 
       ar &boost::serialization::make_array(dt.data(), dt.size());
-- 
2.43.0


From db6e07bc4dc8f2260ec8d804df486c4d9c474b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 02/49] fix: derivative of the bulk interpolation in the
 tensorial mobility

The factor 4 of the surface mobility leaked into dphi/dc, so that the volumetric
and vaporization parts of the tangent were four times too large.
---
 .../sintering/include/pf-applications/sintering/mobility.h   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/mobility.h b/applications/sintering/include/pf-applications/sintering/mobility.h
index b97a278..9248c72 100644
--- a/applications/sintering/include/pf-applications/sintering/mobility.h
+++ b/applications/sintering/include/pf-applications/sintering/mobility.h
@@ -676,7 +676,7 @@ namespace Sintering
       (void)etas_grad;
 
       const auto c2_1minusc2 = 4.0 * c * c * (1. - c) * (1. - c);
-      const auto dphidc      = 30.0 * c2_1minusc2;
+      const auto dphidc      = 30.0 * c * c * (1. - c) * (1. - c);
 
       // Volumetric and vaporization parts, the same as for isotropic
       auto dMdc = diagonal_matrix<dim>((Mvol - Mvap) * dphidc);
@@ -851,7 +851,8 @@ namespace Sintering
       {
         const auto c2_1minusc2 = 4.0 * lin_c_value * lin_c_value *
                                  (1. - lin_c_value) * (1. - lin_c_value);
-        const auto dphidc = 30.0 * c2_1minusc2;
+        const auto dphidc = 30.0 * lin_c_value * lin_c_value *
+                            (1. - lin_c_value) * (1. - lin_c_value);
 
         // Volumetric and vaporization parts, the same as for isotropic
         const auto f_vol_vap = (Mvol - Mvap) * dphidc;
-- 
2.43.0


From ac56f7e21e5721b4e0fc358c36e434ef4b888abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 03/49] fix: scale the surface part of the tensorial mobility
 tangent as the flux

apply_M() uses fsurf * projector_scale, apply_M_derivative() used fsurf.
---
 .../sintering/include/pf-applications/sintering/mobility.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/mobility.h b/applications/sintering/include/pf-applications/sintering/mobility.h
index 9248c72..1d1574a 100644
--- a/applications/sintering/include/pf-applications/sintering/mobility.h
+++ b/applications/sintering/include/pf-applications/sintering/mobility.h
@@ -843,8 +843,8 @@ namespace Sintering
         const auto fsurf = Msurf * 4.0 * (lin_c_value * lin_c_value) *
                            ((1. - lin_c_value) * (1. - lin_c_value));
 
-        out =
-          (f_vol_vap + fsurf) * mu_gradient - nc * (fsurf * (nc * mu_gradient));
+        out = (f_vol_vap + fsurf * projector_scale) * mu_gradient -
+              nc * (fsurf * (nc * mu_gradient));
       }
 
       // 2) for dM_dc
-- 
2.43.0


From 1ad95e84ce14c359c8da0cd621719f26f38ea0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 04/49] fix: initialise the lane statistics of the grain
 cut-off over the lanes

---
 .../include/pf-applications/sintering/operator_sintering_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 706e801..df2fd6e 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -166,7 +166,7 @@ namespace Sintering
       table_lanes.reinit({n_cells, VectorizedArrayType::size()});
 
       for (unsigned int i = 0; i < n_cells; ++i)
-        for (unsigned int j = 0; j < n_grains(); ++j)
+        for (unsigned int j = 0; j < VectorizedArrayType::size(); ++j)
           table_lanes[i][j] = numbers::invalid_unsigned_int;
 
       component_table.reinit({n_cells, n_grains()});
-- 
2.43.0


From c3ed041c061bc02792e6c75ab50e5adb34ec0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 05/49] fix: transport order parameters with the velocity of
 their own grain if the cut-off is enabled

---
 .../pf-applications/sintering/advection.h     | 19 +++++++---
 .../sintering/operator_sintering_generic.h    | 36 +++++++++++--------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/advection.h b/applications/sintering/include/pf-applications/sintering/advection.h
index b6492d1..5759c61 100644
--- a/applications/sintering/include/pf-applications/sintering/advection.h
+++ b/applications/sintering/include/pf-applications/sintering/advection.h
@@ -183,6 +183,7 @@ namespace Sintering
     void
     reinit(const unsigned int cell)
     {
+      current_cell = cell;
       grain_to_relevant_grain.clear();
 
       if (advection.enabled() && advection.get_index_ptr().size() > 0)
@@ -228,6 +229,16 @@ namespace Sintering
       return current_cell_data.empty() && has_velocity_vector.empty();
     }
 
+    // Get the id of the order parameter which is the i-th one among those
+    // evaluated in the current cell
+    DEAL_II_ALWAYS_INLINE inline unsigned int
+    get_order_parameter_id(const unsigned int i) const
+    {
+      return sintering_data.cut_off_enabled() ?
+               sintering_data.get_relevant_grains(current_cell)[i] :
+               i;
+    }
+
     DEAL_II_ALWAYS_INLINE inline bool
     has_velocity(const unsigned int order_parameter_id) const
     {
@@ -248,13 +259,11 @@ namespace Sintering
     get_velocity(const unsigned int                     order_parameter_id,
                  const Point<dim, VectorizedArrayType> &r) const
     {
-      const auto relevant_id = get_relevant_id(order_parameter_id);
-
       // Translational velocity
-      const auto vt = get_translation_velocity(relevant_id);
+      const auto vt = get_translation_velocity(order_parameter_id);
 
       // Rotational velocity
-      const auto vr = get_rotation_velocity(relevant_id, r);
+      const auto vr = get_rotation_velocity(order_parameter_id, r);
 
       // Total advection velocity
       const auto v_adv = vt + vr;
@@ -299,6 +308,8 @@ namespace Sintering
 
     const SinteringOperatorData<dim, VectorizedArrayType> &sintering_data;
 
+    unsigned int current_cell = numbers::invalid_unsigned_int;
+
     std::vector<AdvectionCellData<dim, Number, VectorizedArrayType>>
       current_cell_data;
 
diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
index 9bef720..783a4ec 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
@@ -167,14 +167,18 @@ namespace Sintering
       // 4) add advection contributations -> influences c AND etas
       if (!advection_data.empty())
         for (unsigned int ig = 0; ig < n_grains; ++ig)
-          if (advection_data.has_velocity(ig))
-            {
-              const auto &velocity_ig =
-                advection_data.get_velocity(ig, phi.quadrature_point(q));
+          {
+            const auto op = advection_data.get_order_parameter_id(ig);
 
-              gradient_result[0] -= velocity_ig * value[0];
-              gradient_result[2 + ig] -= velocity_ig * value[2 + ig];
-            }
+            if (advection_data.has_velocity(op))
+              {
+                const auto &velocity_ig =
+                  advection_data.get_velocity(op, phi.quadrature_point(q));
+
+                gradient_result[0] -= velocity_ig * value[0];
+                gradient_result[2 + ig] -= velocity_ig * value[2 + ig];
+              }
+          }
 
 
 
@@ -907,14 +911,18 @@ namespace Sintering
           // 4) add advection contributations -> influences c AND etas
           if (this->advection.enabled())
             for (unsigned int ig = 0; ig < n_grains; ++ig)
-              if (advection_data.has_velocity(ig))
-                {
-                  const auto &velocity_ig =
-                    advection_data.get_velocity(ig, phi.quadrature_point(q));
+              {
+                const auto op = advection_data.get_order_parameter_id(ig);
 
-                  gradient_result[0] -= velocity_ig * value[0];
-                  gradient_result[2 + ig] -= velocity_ig * value[2 + ig];
-                }
+                if (advection_data.has_velocity(op))
+                  {
+                    const auto &velocity_ig =
+                      advection_data.get_velocity(op, phi.quadrature_point(q));
+
+                    gradient_result[0] -= velocity_ig * value[0];
+                    gradient_result[2 + ig] -= velocity_ig * value[2 + ig];
+                  }
+              }
 
 
           phi.submit_value(value_result, q);
-- 
2.43.0


From 38c6cc606161a28e3e758c7a0c89817016805373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 06/49] fix: linear extrapolation of a table with a single knot

---
 include/pf-applications/numerics/functions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/numerics/functions.h b/include/pf-applications/numerics/functions.h
index 15083df..7968bfd 100644
--- a/include/pf-applications/numerics/functions.h
+++ b/include/pf-applications/numerics/functions.h
@@ -81,10 +81,13 @@ public:
                                      return left.first < value;
                                    });
 
+        // a single knot does not define a slope
+        const bool linear = extrapolate_linear && pairs.size() > 1;
+
         decltype(it) i1, i2;
         if (it == pairs.begin())
           {
-            if (extrapolate_linear)
+            if (linear)
               {
                 i1 = pairs.begin();
                 i2 = pairs.begin();
@@ -97,7 +100,7 @@ public:
           }
         else if (it == pairs.end())
           {
-            if (extrapolate_linear)
+            if (linear)
               {
                 i1 = pairs.end();
                 std::advance(i1, -2);
-- 
2.43.0


From 0320e63ebb0b25eeaf9bd53754abca55f6234867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 07/49] fix: isotropic stress from the symmetric part of the
 strain

---
 .../include/pf-applications/structural/stvenantkirchhoff.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/structural/include/pf-applications/structural/stvenantkirchhoff.h b/applications/structural/include/pf-applications/structural/stvenantkirchhoff.h
index b948654..1e60da9 100644
--- a/applications/structural/include/pf-applications/structural/stvenantkirchhoff.h
+++ b/applications/structural/include/pf-applications/structural/stvenantkirchhoff.h
@@ -57,7 +57,7 @@ namespace Structural
 
           for (unsigned int i = 0; i < dim; ++i)
             for (unsigned int j = 0; j < dim; ++j)
-              stress[i][j] = mu_x_2 * E[i][j];
+              stress[i][j] = 0.5 * mu_x_2 * (E[i][j] + E[j][i]);
 
           for (unsigned int i = 0; i < dim; ++i)
             stress[i][i] += lambda * trace;
-- 
2.43.0


From 87a01fcc9ae9fbe0c83f26171957d9ea3395531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 08/49] fix: submit values in the elastic residual without
 external loading

---
 .../structural/operator_elastic_linear.h               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/applications/structural/include/pf-applications/structural/operator_elastic_linear.h b/applications/structural/include/pf-applications/structural/operator_elastic_linear.h
index 5b81749..041fb07 100644
--- a/applications/structural/include/pf-applications/structural/operator_elastic_linear.h
+++ b/applications/structural/include/pf-applications/structural/operator_elastic_linear.h
@@ -287,12 +287,12 @@ namespace Structural
 
               phi.submit_gradient(S, q);
 
-              // External loading
+              // External loading, the values have to be submitted in any case
+              // since they are integrated below
+              Tensor<1, dim, VectorizedArrayType> applied_force;
               if (external_loading)
-                {
-                  auto applied_force = external_loading(phi, q);
-                  phi.submit_value(applied_force, q);
-                }
+                applied_force = external_loading(phi, q);
+              phi.submit_value(applied_force, q);
             }
           phi.integrate_scatter(EvaluationFlags::values |
                                   EvaluationFlags::gradients,
-- 
2.43.0


From 94c24608f874f5cc4499788f825227f0612ee124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 09/49] fix: sign of the cross product in 2D

---
 include/pf-applications/base/tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/base/tensor.h b/include/pf-applications/base/tensor.h
index 1a3778b..413d21e 100644
--- a/include/pf-applications/base/tensor.h
+++ b/include/pf-applications/base/tensor.h
@@ -62,7 +62,7 @@ namespace hpsint
   DEAL_II_ALWAYS_INLINE inline moment_t<2, Number>
   cross_product(const Tensor<1, 2, Number> &a, const Tensor<1, 2, Number> &b)
   {
-    return a[1] * b[0] - a[0] * b[1];
+    return a[0] * b[1] - a[1] * b[0];
   }
 
   template <int dim, typename Number>
-- 
2.43.0


From 404f7a63d1be3799dfb12da4e182de33cb041d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 10/49] fix: do not accumulate the centers of grain segments
 over cells

---
 .../include/pf-applications/sintering/operator_advection.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_advection.h b/applications/sintering/include/pf-applications/sintering/operator_advection.h
index 755e3cb..1cdad13 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_advection.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_advection.h
@@ -353,7 +353,7 @@ namespace Sintering
                         grain_and_segment.first, grain_and_segment.second);
 
                       for (unsigned int d = 0; d < dim; ++d)
-                        advection_mechanism.grain_center(segment_index)[d] +=
+                        advection_mechanism.grain_center(segment_index)[d] =
                           rc_i[d];
 
                       for (unsigned int d = 0;
-- 
2.43.0


From a477afb3767932e37b9bee373b03965345c692a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 11/49] fix: keep the segment indices of the weighted advection
 operator consistent

---
 .../sintering/operator_advection.h            | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_advection.h b/applications/sintering/include/pf-applications/sintering/operator_advection.h
index 1cdad13..b1c4a89 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_advection.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_advection.h
@@ -478,7 +478,6 @@ namespace Sintering
                     MPI_COMM_WORLD);
 
       // Compute forces and communicate them to the regular advection
-      advection_mechanism.nullify_data(grain_tracker.n_segments());
       for (unsigned int i = 0; i < n_segments; ++i)
         {
           const auto it =
@@ -555,7 +554,9 @@ namespace Sintering
       std::vector<unsigned int> &index_values =
         advection_mechanism.get_index_values();
 
-      auto init_segments = [&, this](const auto cell, const unsigned int ig) {
+      auto init_segments = [&, this](const auto         cell,
+                                     const unsigned int ig,
+                                     const bool         store_indices) {
         std::vector<std::pair<unsigned int, unsigned int>> segments(
           matrix_free.n_active_entries_per_cell_batch(cell));
 
@@ -580,9 +581,10 @@ namespace Sintering
                   {
                     segments[i] = grain_and_segment;
 
-                    index_values.push_back(
-                      grain_tracker.get_grain_segment_index(
-                        grain_and_segment.first, grain_and_segment.second));
+                    if (store_indices)
+                      index_values.push_back(
+                        grain_tracker.get_grain_segment_index(
+                          grain_and_segment.first, grain_and_segment.second));
                   }
                 else
                   {
@@ -599,12 +601,14 @@ namespace Sintering
                 segments[i] = std::make_pair(numbers::invalid_unsigned_int,
                                              numbers::invalid_unsigned_int);
 
-                index_values.push_back(numbers::invalid_unsigned_int);
+                if (store_indices)
+                  index_values.push_back(numbers::invalid_unsigned_int);
               }
           }
 
-        for (; i < VectorizedArrayType::size(); ++i)
-          index_values.push_back(numbers::invalid_unsigned_int);
+        if (store_indices)
+          for (; i < VectorizedArrayType::size(); ++i)
+            index_values.push_back(numbers::invalid_unsigned_int);
 
         return segments;
       };
@@ -629,7 +633,7 @@ namespace Sintering
                   static_cast<unsigned char>(255))
                 continue;
 
-              const auto segments_i = init_segments(cell, ig);
+              const auto segments_i = init_segments(cell, ig, true);
 
               // Deal with volume only first
               for (unsigned int q = 0; q < phi_sint.n_q_points; ++q)
@@ -673,7 +677,7 @@ namespace Sintering
                       static_cast<unsigned char>(255))
                     continue;
 
-                  const auto segments_j = init_segments(cell, jg);
+                  const auto segments_j = init_segments(cell, jg, false);
 
                   for (unsigned int q = 0; q < phi_sint.n_q_points; ++q)
                     {
-- 
2.43.0


From 73ad6a13ffddf06fbfe5cc8e89822917c3949384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 12/49] fix: sign of the skew vector in 2D

---
 include/pf-applications/base/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/base/tensor.h b/include/pf-applications/base/tensor.h
index 413d21e..189ee82 100644
--- a/include/pf-applications/base/tensor.h
+++ b/include/pf-applications/base/tensor.h
@@ -116,8 +116,8 @@ namespace hpsint
   skew(const Tensor<1, 2, Number> &a)
   {
     Tensor<1, 2, Number> A;
-    A[0] = a[1];
-    A[1] = -a[0];
+    A[0] = -a[1];
+    A[1] = a[0];
 
     return A;
   }
-- 
2.43.0


From bbcf04f0627a8c95a2e165df93453e5c47716512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 13/49] fix: no conversion of a negative particle id to an
 unsigned integer

---
 include/pf-applications/grain_tracker/tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index ef85d8b..0890fa9 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1114,7 +1114,7 @@ namespace GrainTracker
     get_grain_and_segment(const unsigned int order_parameter,
                           const unsigned int particle_id) const override
     {
-      AssertThrow(particle_id != static_cast<unsigned int>(invalid_particle_id),
+      AssertThrow(particle_id != numbers::invalid_unsigned_int,
                   ExcMessage("Invalid particle_id provided"));
 
       return particle_ids_to_grain_ids[order_parameter][particle_id];
-- 
2.43.0


From e88b872b9d620a8a810c2209695ebf55a9f5ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 14/49] fix: collect sizes of views and after moving blocks of
 dynamic block vectors

---
 include/pf-applications/lac/dynamic_block_vector.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/pf-applications/lac/dynamic_block_vector.h b/include/pf-applications/lac/dynamic_block_vector.h
index e84f10d..c022558 100644
--- a/include/pf-applications/lac/dynamic_block_vector.h
+++ b/include/pf-applications/lac/dynamic_block_vector.h
@@ -179,11 +179,12 @@ namespace dealii
           AssertIndexRange(start, end + 1);
           AssertIndexRange(end, n_blocks() + 1);
 
-          auto view = std::make_unique<const DynamicBlockVector<T>>();
+          auto view = std::make_unique<DynamicBlockVector<T>>();
 
           for (unsigned int i = start; i < end; ++i)
-            const_cast<DynamicBlockVector<T> *>(view.get())
-              ->blocks.push_back(blocks[i]);
+            view->blocks.push_back(blocks[i]);
+
+          view->collect_sizes();
 
           return view;
         }
@@ -199,6 +200,8 @@ namespace dealii
           for (unsigned int i = start; i < end; ++i)
             view->blocks.push_back(blocks[i]);
 
+          view->collect_sizes();
+
           return view;
         }
 
@@ -256,6 +259,8 @@ namespace dealii
               blocks[i] = blocks[i + 1];
 
           blocks[to] = tmp;
+
+          collect_sizes();
         }
 
         void
-- 
2.43.0


From 580a681083ec411d0f925780e2b29668f2721da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 15/49] fix: do not look up blocks beyond the grains in the
 component table

---
 .../pf-applications/sintering/operator_sintering_data.h        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index df2fd6e..55d4135 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -354,7 +354,8 @@ namespace Sintering
                   auto gradient = phi.get_gradient(q);
 
                   if ((component_table.size(0) > 0) &&
-                      (c >= op_components_offset))
+                      (c >= op_components_offset) &&
+                      (c < op_components_offset + n_grains()))
                     if (component_table[cell][c - op_components_offset] ==
                         false)
                       {
-- 
2.43.0


From 5d3be4f7ab74ee2aee3945c7b50596164caec021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 16/49] fix: off-diagonal product of the grain growth energy
 starts from the first order parameter

---
 .../include/pf-applications/sintering/operator_grain_growth.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h b/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
index f5c0b18..4fd7dd5 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
@@ -250,7 +250,7 @@ namespace Sintering
       if (n_grains <= 1)
         return; // nothing to do
 
-      VectorizedArrayType temp;
+      VectorizedArrayType temp = etas[0] * value[0];
 
       for (unsigned int ig = 1; ig < n_grains; ++ig)
         temp += etas[ig] * value[ig];
-- 
2.43.0


From 60fdd3da8b997a1fc50c41080d07d4ec8bd756fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 17/49] fix: multi-well of the grand potential model consistent
 with its derivatives

---
 .../sintering/operator_grand_potential_greenquist.h           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index d58ec61..89b3478 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -399,8 +399,8 @@ namespace Sintering
       VectorizedArrayType
       zeta() const
       {
-        return phasesPower4Sum + gamma * mixed_sum2 +
-               VectorizedArrayType(1. / 4.);
+        return phasesPower4Sum / 4. - phasesPower2Sum / 2. +
+               gamma / 2. * mixed_sum2 + VectorizedArrayType(1. / 4.);
       }
 
       VectorizedArrayType
-- 
2.43.0


From 55b1e2084fa47e805b332c7f504714a6aa6683f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 18/49] fix: initialise the rates in the tangent of the grand
 potential model

---
 .../sintering/operator_grand_potential_greenquist.h             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index 89b3478..7fa4382 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -909,7 +909,7 @@ namespace Sintering
             lin_etas_gradient = &lin_gradient[2];
 
           // Evaluate some time derivatives
-          VectorizedArrayType dphi_dt, dmu_dt;
+          VectorizedArrayType dphi_dt(0.0), dmu_dt(0.0);
 
           TimeIntegration::compute_time_derivative(
             dphi_dt, lin_phi_value, time_eval, 0, q);
-- 
2.43.0


From 000e0f909bdfa141f660016f9a6e4734b269f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 19/49] fix: matrix susceptibility in the tangent of the grand
 potential model

---
 .../sintering/operator_grand_potential_greenquist.h            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index 7fa4382..26d2c2b 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -1001,7 +1001,8 @@ namespace Sintering
 
           value_result[1] -=
             (free_energy_eval.dhb() * free_energy_eval.d2omega_b_dmu2() +
-             free_energy_eval.dhm() * free_energy_eval.d2omega_b_dmu2()) *
+             free_energy_eval.dhm() *
+               free_energy_eval.d2omega_m_dmu2(lin_mu_value)) *
             value[1] * dphi_dt;
 
           for (unsigned int ig = 0; ig < n_grains; ++ig)
-- 
2.43.0


From 6ed186db0db6c3ceab3b98a5ac9a43312cbc1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 20/49] fix: gradient coefficient in the grain rows of the
 grand potential tangent

---
 .../include/pf-applications/sintering/driver.h        |  2 +-
 .../sintering/operator_grand_potential_greenquist.h   | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 475cddd..b09da53 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2213,7 +2213,7 @@ namespace Sintering
                   sintering_data.set_component_mask(
                     matrix_free,
                     solution,
-                    params.advection_data.enable,
+                    save_op_gradients,
                     save_all_blocks,
                     params.grain_cut_off_tolerance);
 
diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index 26d2c2b..d7dcd8c 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -530,7 +530,8 @@ namespace Sintering
     };
 
   public:
-    static constexpr bool save_gradients = false;
+    // The tangent needs the gradients of the order parameters
+    static constexpr bool save_gradients = true;
 
     GreenquistFreeEnergy(double A, double B)
     {
@@ -1094,9 +1095,11 @@ namespace Sintering
                          lin_value[ig + 2], lin_value[jg + 2])) *
                     value[jg + 2];
 
-              gradient_result[ig + 2] = free_energy_eval.get_L() *
-                                        free_energy_eval.kappa() *
-                                        gradient[ig + 2];
+              gradient_result[ig + 2] =
+                free_energy_eval.get_L() * free_energy_eval.dkappa_dphi() *
+                  lin_gradient[ig + 2] * value[0] +
+                free_energy_eval.get_L() * free_energy_eval.kappa() *
+                  gradient[ig + 2];
             }
 
           phi.submit_value(value_result, q);
-- 
2.43.0


From 2654d514bfd6cd9eb36f026fc5297a858cd2cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 21/49] fix: do not overwrite unconstrained entries in the
 vector variant of vmult

---
 .../include/pf-applications/sintering/operator_base.h     | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_base.h b/applications/sintering/include/pf-applications/sintering/operator_base.h
index 7da3b71..22dce23 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_base.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_base.h
@@ -274,14 +274,6 @@ namespace Sintering
                 dst.local_element(constrained_indices[i] * user_comp + b) =
                   src.local_element(constrained_indices[i] * user_comp + b);
               }
-
-          for (unsigned int i = 0; i < constrained_indices.size(); ++i)
-            {
-              const_cast<VectorType &>(src).local_element(
-                constrained_indices[i]) = constrained_values_src[i];
-              dst.local_element(constrained_indices[i]) =
-                constrained_values_src[i];
-            }
         }
       else
         {
-- 
2.43.0


From edca08b97524e6b00c790d072d8d7b9da0b62b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 22/49] fix: no endless recursion in vmult_internal of the
 sintering operator

---
 .../pf-applications/sintering/operator_sintering_generic.h  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
index 783a4ec..122b749 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
@@ -454,7 +454,8 @@ namespace Sintering
     void
     vmult_internal(VectorType &dst, const VectorType &src) const override
     {
-      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult(dst, src);
+      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult_internal(dst,
+                                                                        src);
     }
 
     void
@@ -614,7 +615,8 @@ namespace Sintering
       LinearAlgebra::distributed::BlockVector<Number>       &dst,
       const LinearAlgebra::distributed::BlockVector<Number> &src) const override
     {
-      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult(dst, src);
+      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult_internal(dst,
+                                                                        src);
     }
 
     unsigned int
-- 
2.43.0


From 38b82689df018d36801d9068d26aac84f4e0a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 23/49] fix: keep at least one cell and avoid log2(0) in the
 prime decomposition of divisions

---
 src/grid/grid_tools.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/grid/grid_tools.cc b/src/grid/grid_tools.cc
index 195871d..068d7d6 100644
--- a/src/grid/grid_tools.cc
+++ b/src/grid/grid_tools.cc
@@ -50,13 +50,20 @@ hpsint::decompose_to_prime_tuple(const unsigned int n_ref,
 {
   const auto primes = get_primes(2, max_prime);
 
+  // Nothing to choose from, keep the number of elements as it is
+  if (primes.empty())
+    return std::make_pair(n_ref, 0);
+
   unsigned int optimal_prime      = 0;
   unsigned int n_refinements      = 0;
   unsigned int min_elements_delta = numbers::invalid_unsigned_int;
   for (const auto &p : primes)
     {
+      // No refinement if the prime itself already exceeds the target
       const unsigned int s =
-        static_cast<unsigned int>(std::ceil(std::log2(n_ref / p)));
+        (p > n_ref) ?
+          0 :
+          static_cast<unsigned int>(std::ceil(std::log2(n_ref / p)));
       const unsigned int n_current     = p * std::pow(2, s);
       const unsigned int current_delta = static_cast<unsigned int>(
         std::abs(static_cast<int>(n_current - n_ref)));
-- 
2.43.0


From 4cc9e476e092fd8d172f6aa0bdf97418939f8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 24/49] fix: no negative number of interface refinements when
 coarse cells are fine enough

---
 include/pf-applications/grid/grid_tools.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/pf-applications/grid/grid_tools.h b/include/pf-applications/grid/grid_tools.h
index fda5693..b0fdf72 100644
--- a/include/pf-applications/grid/grid_tools.h
+++ b/include/pf-applications/grid/grid_tools.h
@@ -662,8 +662,10 @@ namespace hpsint
 
     // Number of refinements to get the desirable element size
     const unsigned int n_refinements_interface =
-      static_cast<unsigned int>(std::ceil(
-        std::log2(elements_per_interface / max_level0_elements_per_interface)));
+      static_cast<unsigned int>(std::max(
+        0.,
+        std::ceil(std::log2(elements_per_interface /
+                            max_level0_elements_per_interface))));
 
     std::vector<unsigned int> subdivisions(dim);
     for (unsigned int d = 0; d < dim; d++)
@@ -752,7 +754,8 @@ namespace hpsint
 
     // Number of refinements to get the desirable element size
     const unsigned int n_refinements_interface =
-      static_cast<unsigned int>(std::ceil(std::log2(h_ref / h_e)));
+      static_cast<unsigned int>(
+        std::max(0., std::ceil(std::log2(h_ref / h_e))));
 
     std::vector<unsigned int> subdivisions(dim);
     for (unsigned int d = 0; d < dim; d++)
-- 
2.43.0


From fb67b4562256fa71513d298e893bec026c778fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 25/49] fix: radii of an ellipsoid given by its quadratic form

---
 .../pf-applications/grain_tracker/ellipsoid.h | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 3ea3c0a..a730ee2 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -132,10 +132,23 @@ namespace GrainTracker
       mtrA.copy_from(A);
       b.unroll(vecB.data(), vecB.data() + dim);
 
+      // Invert A to compute the ellipsoid center
+      mtrA_inv.invert(mtrA);
+
+      Vector<Number> vecC(dim);
+      mtrA_inv.vmult(vecC, vecB);
+
+      std::transform(vecC.begin(),
+                     vecC.end(),
+                     hpsint::begin(center),
+                     [](Number v) { return -v; });
+
       // Compute the eigenvalues and eigenvectors of A to get the radii and
-      // principal axes
+      // principal axes. With the center c, the quadratic form can be rewritten
+      // as 1/2 * (x - c)^T A (x - c) = 1/2 * c^T A c - alpha, so the latter
+      // constant has to be used to normalize A.
       SymmetricTensor<2, dim, Number> Am(A);
-      Am *= 1. / (2 * alpha_in);
+      Am *= 1. / ((A * center) * center - 2 * alpha_in);
       auto evals_and_vectors = eigenvectors(Am);
 
       // Ensure the eigenvalues are in the ascending order so the radii later
@@ -161,17 +174,6 @@ namespace GrainTracker
 
       r_min = *std::min_element(radii.cbegin(), radii.cend());
       r_max = *std::max_element(radii.cbegin(), radii.cend());
-
-      // Invert A to compute the ellipsoid center
-      mtrA_inv.invert(mtrA);
-
-      Vector<Number> vecC(dim);
-      mtrA_inv.vmult(vecC, vecB);
-
-      std::transform(vecC.begin(),
-                     vecC.end(),
-                     hpsint::begin(center),
-                     [](Number v) { return -v; });
     }
 
     Ellipsoid(const Ellipsoid &el, const double scale)
-- 
2.43.0


From 371c43e3ab7091cbde225512ddc18ab9cb6d3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 26/49] fix: serialize the axes of Ellipsoid

---
 include/pf-applications/grain_tracker/ellipsoid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index a730ee2..19857e5 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -204,6 +204,7 @@ namespace GrainTracker
       ar &radii;
       ar &r_min;
       ar &r_max;
+      ar &axes;
       ar &center;
     }
 
-- 
2.43.0


From c6eb4b51d2d10d06d1b2d99e82e655880674acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 27/49] fix: register RepresentationWavefront for checkpointing

---
 include/pf-applications/grain_tracker/representation.h | 2 ++
 inst.cc                                                | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pf-applications/grain_tracker/representation.h b/include/pf-applications/grain_tracker/representation.h
index e864cc0..1db4215 100644
--- a/include/pf-applications/grain_tracker/representation.h
+++ b/include/pf-applications/grain_tracker/representation.h
@@ -20,7 +20,9 @@
 #include <pf-applications/base/debug.h>
 
 #include <boost/serialization/export.hpp>
+#include <boost/serialization/map.hpp>
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/utility.hpp>
 
 #include <pf-applications/grain_tracker/ellipsoid.h>
 
diff --git a/inst.cc b/inst.cc
index b2f8549..9ffa17e 100644
--- a/inst.cc
+++ b/inst.cc
@@ -64,3 +64,5 @@ BOOST_CLASS_EXPORT(GrainTracker::RepresentationSpherical<2>)
 BOOST_CLASS_EXPORT(GrainTracker::RepresentationSpherical<3>)
 BOOST_CLASS_EXPORT(GrainTracker::RepresentationElliptical<2>)
 BOOST_CLASS_EXPORT(GrainTracker::RepresentationElliptical<3>)
+BOOST_CLASS_EXPORT(GrainTracker::RepresentationWavefront<2>)
+BOOST_CLASS_EXPORT(GrainTracker::RepresentationWavefront<3>)
-- 
2.43.0


From 3884d4095ea44bf93eb117e127d23d798842e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 28/49] fix: compare the only touching old grain of a segment
 with those of the other segments

---
 .../pf-applications/grain_tracker/tracking.h  | 62 ++++++++-----------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracking.h b/include/pf-applications/grain_tracker/tracking.h
index 7bc200f..3ef8641 100644
--- a/include/pf-applications/grain_tracker/tracking.h
+++ b/include/pf-applications/grain_tracker/tracking.h
@@ -130,45 +130,37 @@ namespace GrainTracker
                     // Perform manual sorting among the candidates, since
                     // bgi::nearest() outputs the closest to the face of the
                     // box, not the box having the closest center. Note that we
-                    // also compute distances if old_grain_id has been set -
-                    // this may happen for the situation when a new grain has
-                    // multiple segments.
-                    if (result.size() > 1 ||
-                        old_grain_id != numbers::invalid_unsigned_int)
+                    // also compute the distance if there is a single candidate
+                    // only, since it has to be compared to the candidates of
+                    // the other segments of the new grain.
+                    for (const auto &id : result)
                       {
-                        for (const auto &id : result)
+                        const unsigned int candidate_grain_id =
+                          old_segments_to_grains[id];
+
+                        // Compute the segment id
+                        unsigned int work_id = id;
+                        for (; work_id > 0 &&
+                               old_segments_to_grains[work_id - 1] ==
+                                 old_segments_to_grains[work_id];
+                             --work_id)
+                          ;
+                        const unsigned int segment_id = id - work_id;
+
+                        const auto &candidate_segment =
+                          old_grains.at(candidate_grain_id)
+                            .get_segments()[segment_id];
+
+                        const auto curent_dist =
+                          candidate_segment.get_center().distance(
+                            new_segment.get_center());
+
+                        if (curent_dist < min_dist)
                           {
-                            const unsigned int candidate_grain_id =
-                              old_segments_to_grains[id];
-
-                            // Compute the segment id
-                            unsigned int work_id = id;
-                            for (; work_id > 0 &&
-                                   old_segments_to_grains[work_id - 1] ==
-                                     old_segments_to_grains[work_id];
-                                 --work_id)
-                              ;
-                            const unsigned int segment_id = id - work_id;
-
-                            const auto &candidate_segment =
-                              old_grains.at(candidate_grain_id)
-                                .get_segments()[segment_id];
-
-                            const auto curent_dist =
-                              candidate_segment.get_center().distance(
-                                new_segment.get_center());
-
-                            if (curent_dist < min_dist)
-                              {
-                                old_grain_id = candidate_grain_id;
-                                min_dist     = curent_dist;
-                              }
+                            old_grain_id = candidate_grain_id;
+                            min_dist     = curent_dist;
                           }
                       }
-                    else
-                      {
-                        old_grain_id = old_segments_to_grains[result[0]];
-                      }
                   }
               }
 
-- 
2.43.0


From b1ebdf182d24d49d328f79fe6129e0c54de8bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 29/49] fix: no access to the last active order parameter if
 there are no grains

---
 include/pf-applications/grain_tracker/tracker.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index 0890fa9..5262d8f 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1806,9 +1806,10 @@ namespace GrainTracker
         }
 
       // Remove dangling order parameters if any
-      const unsigned int max_order_parameter_id =
-        *active_order_parameters.rbegin();
-      const int mismatch = max_order_parameter_id - (n_order_parameters - 1);
+      const int mismatch =
+        active_order_parameters.empty() ?
+          0 :
+          *active_order_parameters.rbegin() - (n_order_parameters - 1);
       AssertThrow(mismatch >= 0,
                   ExcMessage("Error in active order parameters numbering!"));
 
-- 
2.43.0


From fc73cb93d941ede89744f8c5bd5277c95b678237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 30/49] fix: no access to the first component if there are no
 particles

---
 src/grain_tracker/distributed_stitching.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grain_tracker/distributed_stitching.cc b/src/grain_tracker/distributed_stitching.cc
index 9a8d013..71619e7 100644
--- a/src/grain_tracker/distributed_stitching.cc
+++ b/src/grain_tracker/distributed_stitching.cc
@@ -34,8 +34,7 @@ GrainTracker::connected_components(
   int                       num = boost::connected_components(
     G,
     make_iterator_property_map(c.begin(),
-                               boost::get(boost::vertex_index, G),
-                               c[0]));
+                               boost::get(boost::vertex_index, G)));
 
   (void)num;
 
-- 
2.43.0


From 985015f8858b048fa16027d5ed8996cbeaec2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 31/49] fix: flood only those children of a refined neighbor
 that share the face

---
 .../grain_tracker/distributed_stitching.h     | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 88c6108..631bac6 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -87,15 +87,33 @@ namespace GrainTracker
 
     unsigned int counter = 1;
 
+    const auto flood = [&](const auto &neighbor) {
+      counter += run_flooding<dim>(neighbor,
+                                   solution,
+                                   particle_ids,
+                                   id,
+                                   max_value,
+                                   threshold_lower,
+                                   invalid_particle_id);
+    };
+
     for (const auto face : cell->face_indices())
       if (cell->at_boundary(face) == false)
-        counter += run_flooding<dim>(cell->neighbor(face),
-                                     solution,
-                                     particle_ids,
-                                     id,
-                                     max_value,
-                                     threshold_lower,
-                                     invalid_particle_id);
+        {
+          // Of a refined neighbor, only the children behind the face are
+          // connected to the cell
+          if (cell->neighbor(face)->has_children())
+            {
+              for (unsigned int subface = 0;
+                   subface <
+                   GeometryInfo<dim>::n_subfaces(
+                     dealii::internal::SubfaceCase<dim>::case_isotropic);
+                   ++subface)
+                flood(cell->neighbor_child_on_subface(face, subface));
+            }
+          else
+            flood(cell->neighbor(face));
+        }
 
     return counter;
   }
-- 
2.43.0


From aef63957aa603f68a69a34e1617296e432818342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 32/49] fix: largest value of a particle that consists of
 several local ones

---
 .../pf-applications/grain_tracker/distributed_stitching.h    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 631bac6..04526c3 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -262,7 +262,10 @@ namespace GrainTracker
 
           AssertIndexRange(unique_id, n_particles);
 
-          particle_max_values[unique_id] = local_particle_max_values[local_id];
+          // Several local particles may belong to the same stitched one
+          particle_max_values[unique_id] =
+            std::max(particle_max_values[unique_id],
+                     local_particle_max_values[local_id]);
         }
 
     // Reduce information - particles max values
-- 
2.43.0


From 95b1e093cd59183c97e320bdcd20c344e078723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 33/49] fix: most remote point of a particle if several
 processes have equally remote ones

---
 .../grain_tracker/distributed_stitching.h     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 04526c3..f722764 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -392,12 +392,29 @@ namespace GrainTracker
     // Exchange the remote points
     if (evaluate_remotes)
       {
+        // Several ranks can have equally remote points, the one of the lowest
+        // rank is taken.
+        const unsigned int        my_rank = Utilities::MPI::this_mpi_process(comm);
+        std::vector<unsigned int> remote_owners(n_particles,
+                                                numbers::invalid_unsigned_int);
+        for (unsigned int unique_id = 0; unique_id < particle_radii.size();
+             ++unique_id)
+          if (std::abs(particle_radii[unique_id] -
+                       particle_radii_local[unique_id]) <= 1e-16)
+            remote_owners[unique_id] = my_rank;
+
+        MPI_Allreduce(MPI_IN_PLACE,
+                      remote_owners.data(),
+                      remote_owners.size(),
+                      MPI_UNSIGNED,
+                      MPI_MIN,
+                      comm);
+
         // If the current rank is not the owner of the furthest point, then we
         // nullify it since we perform a global summation later.
         for (unsigned int unique_id = 0; unique_id < particle_radii.size();
              ++unique_id)
-          if (std::abs(particle_radii[unique_id] -
-                       particle_radii_local[unique_id]) > 1e-16)
+          if (remote_owners[unique_id] != my_rank)
             particle_remotes[unique_id] = Point<dim>();
 
         // Perform global communication
-- 
2.43.0


From e506ad9de5c678d9a50143c94b964937276d6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 34/49] fix: only children behind the face are direct neighbors
 of a coarse cell

---
 .../grain_tracker/distributed_stitching.h     | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index f722764..d395b63 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -1125,21 +1125,30 @@ namespace GrainTracker
                           }
                         else
                           {
-                            for (const auto &child :
-                                 neighbor->child_iterators())
-                              if (child->is_active() && !child->is_artificial())
-                                {
-                                  const auto child_pid_j = particle_ids.block(
-                                    j)[child->global_active_cell_index()];
+                            // Only the children behind the face are immediate
+                            // neighbors of the cell
+                            for (unsigned int subface = 0;
+                                 subface <
+                                 GeometryInfo<dim>::n_subfaces(
+                                   dealii::internal::SubfaceCase<
+                                     dim>::case_isotropic);
+                                 ++subface)
+                              {
+                                const auto child =
+                                  cell->neighbor_child_on_subface(face,
+                                                                  subface);
 
-                                  if (child_pid_j != invalid_particle_id)
-                                    {
-                                      const auto pj =
-                                        std::make_pair(j, child_pid_j);
+                                const auto child_pid_j = particle_ids.block(
+                                  j)[child->global_active_cell_index()];
 
-                                      add_neighbors(pi, pj);
-                                    }
-                                }
+                                if (child_pid_j != invalid_particle_id)
+                                  {
+                                    const auto pj =
+                                      std::make_pair(j, child_pid_j);
+
+                                    add_neighbors(pi, pj);
+                                  }
+                              }
                           }
                       }
                 }
-- 
2.43.0


From 1ca733c92a0f307f543c41b6ed8faf3c4c31d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 35/49] fix: distances of particles that meet at the border
 between two processes

---
 .../grain_tracker/distributed_stitching.h     | 27 +++----------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index d395b63..b92c4fa 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -924,31 +924,10 @@ namespace GrainTracker
 
             if (ghost_particle_id != invalid_particle_id)
               {
+                // Color the local cell or, if it has already been reached by
+                // another particle, estimate the distance between the two
                 for (const auto &local_cell : cache.second)
-                  {
-                    const auto local_particle_id =
-                      particle_markers[local_cell.global_active_cell_index()];
-
-                    // Check whether this cell has already be assigned
-                    if (local_particle_id == invalid_particle_id)
-                      {
-                        // We add new local cells as independet agglomerations
-                        agglomerations[max_level - local_cell.level()]
-                          .push_back(local_cell);
-
-                        // Set distance for the newly colored cell
-                        particle_distances[local_cell
-                                             .global_active_cell_index()] =
-                          particle_distances[ghost_cell
-                                               .global_active_cell_index()] +
-                          cell_weight(local_cell);
-
-                        // Mark the cell as visited
-                        particle_markers[local_cell
-                                           .global_active_cell_index()] =
-                          ghost_particle_id;
-                      }
-                  }
+                  handle_cells(ghost_cell, local_cell);
 
                 // Delete this neighbor data as we do not need it anymore
                 it_cache = all_ghost_cells.erase(it_cache);
-- 
2.43.0


From a6490996fbe44ce70e0ea6ff7c85a7fa1e0eaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 36/49] fix: reject rows of particle tables that lack columns

---
 applications/sintering/src/csv_reader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/src/csv_reader.cc b/applications/sintering/src/csv_reader.cc
index 3ec117f..069098c 100644
--- a/applications/sintering/src/csv_reader.cc
+++ b/applications/sintering/src/csv_reader.cc
@@ -18,8 +18,11 @@
 std::string_view
 Sintering::internal::CSVRow::operator[](std::size_t index) const
 {
-  return std::string_view(&line[data[index] + 1],
-                          data[index + 1] - (data[index] + 1));
+  // Rows of malformed files may contain fewer columns than requested
+  const std::size_t end   = data.at(index + 1);
+  const std::size_t begin = data[index] + 1;
+
+  return std::string_view(&line[begin], end - begin);
 }
 
 std::size_t
-- 
2.43.0


From b972922c9c361393e82bb0560df0bf512d8a23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 37/49] fix: domain boundaries of a cloud of particles at
 negative coordinates

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 49d5626..11d8360 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -71,7 +71,7 @@ namespace Sintering
       for (unsigned int i = 0; i < dim; i++)
         {
           boundaries.first[i]  = std::numeric_limits<double>::max();
-          boundaries.second[i] = std::numeric_limits<double>::min();
+          boundaries.second[i] = std::numeric_limits<double>::lowest();
         }
 
       for (const auto &p : particles)
-- 
2.43.0


From f866393b9e51902277dcc72854b3aa96e8c36a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 38/49] fix: position of the neck if a small particle is
 immersed in a large one

---
 .../sintering/initial_values_cloud.h              | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 11d8360..6cf43f0 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -123,15 +123,12 @@ namespace Sintering
                   // an overlap
                   if (distance <= dist_max - 1e-3 * dist_max)
                     {
-                      // Compute the radius of the neck
-                      const double s = (r1 + r2 + distance) / 2;
-                      const double r0 =
-                        2 / distance *
-                        std::sqrt(s * (s - r1) * (s - r2) * (s - distance));
-
-                      // Distance from the center of particle 1 to the center of
-                      // the neck
-                      const double dm = std::sqrt(r1 * r1 - r0 * r0);
+                      // Signed distance from the center of particle 1 to the
+                      // center of the neck, it is negative if the center of
+                      // particle 1 lies on the other side of the neck
+                      const double dm =
+                        (distance * distance + r1 * r1 - r2 * r2) /
+                        (2 * distance);
 
                       // Compute unitary vector ey of the y-axis
                       dealii::Point<dim> ey;
-- 
2.43.0


From 1dc3e0a6d57b34e8137c172916bd914c3ec3eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 39/49] fix: particles in line with the point that orients the
 third axis

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 6cf43f0..30f6975 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -356,7 +356,7 @@ namespace Sintering
 
       ez_temp /= ez_temp.norm();
 
-      if (std::abs(ex * ez_temp - 1) < tol)
+      if (std::abs(std::abs(ex * ez_temp) - 1) < tol)
         {
           return false;
         }
-- 
2.43.0


From 395053a682ae88c33c7cccd93725dc9a3815f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 40/49] fix: distance of points on the contour of a polygon is
 not a number

---
 .../sintering/initial_values_microstructure.h             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h b/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
index 6c4faac..ab80b5f 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
@@ -114,8 +114,12 @@ namespace Sintering
             else if (r > 1)
               dist = p2.distance(p);
             else
-              dist = std::sqrt(p.distance_square(p1) -
-                               r * r * p1.distance_square(p2));
+              // The difference may be slightly negative due to round-off if the
+              // point is on the segment
+              dist = std::sqrt(
+                std::max(0.,
+                         p.distance_square(p1) -
+                           r * r * p1.distance_square(p2)));
 
             dist_min = std::min(dist, dist_min);
           }
-- 
2.43.0


From ae313896c1c1a3e4e8ab8b1cb31fe742541a24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 41/49] fix: explicit time marching read an uninitialised flag
 for stationary equations

---
 include/pf-applications/time_integration/time_marching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/time_integration/time_marching.h b/include/pf-applications/time_integration/time_marching.h
index 58a3722..2079387 100644
--- a/include/pf-applications/time_integration/time_marching.h
+++ b/include/pf-applications/time_integration/time_marching.h
@@ -819,7 +819,7 @@ namespace TimeIntegration
     VectorType vec_p;
     VectorType increment;
 
-    bool has_stationary_equations;
+    bool has_stationary_equations = false;
   };
 
 #ifdef DEAL_II_WITH_SUNDIALS
-- 
2.43.0


From e7377a5061c25f2de7de42428b64af24032cc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 42/49] fix: Newton callbacks kept a reference to a constructor
 argument

---
 .../pf-applications/time_integration/time_marching.h   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/time_integration/time_marching.h b/include/pf-applications/time_integration/time_marching.h
index 2079387..7ac4ad5 100644
--- a/include/pf-applications/time_integration/time_marching.h
+++ b/include/pf-applications/time_integration/time_marching.h
@@ -137,7 +137,10 @@ namespace TimeIntegration
 
       // Lambda to set up jacobian
       const auto nl_setup_jacobian =
-        [&, slp = std::move(setup_linearization_point), nl_residual](
+        [&,
+         slp = std::move(setup_linearization_point),
+         nl_residual,
+         print_stats](
           const auto &current_u) {
           ScopedName sc("setup_jacobian");
           MyScope    scope(timer, sc);
@@ -166,7 +169,10 @@ namespace TimeIntegration
 
       // Lambda to update preconditioner
       const auto nl_setup_preconditioner =
-        [&, scp = std::move(setup_custom_preconditioner), nl_residual](
+        [&,
+         scp = std::move(setup_custom_preconditioner),
+         nl_residual,
+         print_stats](
           const auto &current_u) {
           ScopedName sc("setup_preconditioner");
           MyScope    scope(timer, sc);
-- 
2.43.0


From b10215f81d9cb5a4a5bcaaed98ea2eecd0be80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 43/49] fix: a pore entered children of a refined cell that do
 not touch it

---
 .../sintering/postprocessors.h                | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index d8bd2a1..d2745c4 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1190,15 +1190,33 @@ namespace Sintering
 
         unsigned int counter = 1;
 
+        const auto flood = [&](const auto &neighbor) {
+          counter += run_flooding<dim>(neighbor,
+                                       solution,
+                                       particle_ids,
+                                       id,
+                                       threshold_upper,
+                                       invalid_particle_id,
+                                       box_filter);
+        };
+
         for (const auto face : cell->face_indices())
           if (cell->at_boundary(face) == false)
-            counter += run_flooding<dim>(cell->neighbor(face),
-                                         solution,
-                                         particle_ids,
-                                         id,
-                                         threshold_upper,
-                                         invalid_particle_id,
-                                         box_filter);
+            {
+              // Of a refined neighbor, only the children behind the face are
+              // connected to the cell
+              if (cell->neighbor(face)->has_children())
+                {
+                  for (unsigned int subface = 0;
+                       subface <
+                       GeometryInfo<dim>::n_subfaces(
+                         dealii::internal::SubfaceCase<dim>::case_isotropic);
+                       ++subface)
+                    flood(cell->neighbor_child_on_subface(face, subface));
+                }
+              else
+                flood(cell->neighbor(face));
+            }
 
         return counter;
       }
-- 
2.43.0


From ac3e0f0a09d3153435a47137d62f0ec370af4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 44/49] fix: coupled operator left held displacements of its
 input zeroed

---
 .../operator_sintering_coupled_monolithic.h   | 54 +++++++++++++------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_coupled_monolithic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_coupled_monolithic.h
index 14e6b61..cafdd8d 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_coupled_monolithic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_coupled_monolithic.h
@@ -163,10 +163,13 @@ namespace Sintering
           const auto &value = this->zero_c_constraints_values[i];
 
           for (unsigned int d = 0; d < dim; ++d)
-            dst
-              .block(this->data.n_components() +
-                     this->n_additional_components() + d)
-              .local_element(index) = value[d];
+            {
+              const unsigned int block_index =
+                this->data.n_components() + this->n_additional_components() + d;
+
+              src.block(block_index).local_element(index) = value[d];
+              dst.block(block_index).local_element(index) = value[d];
+            }
         }
     }
 
@@ -352,19 +355,45 @@ namespace Sintering
         }
 
       for (unsigned int d = 0; d < dim; ++d)
-        for (const unsigned int index : this->displ_constraints_indices[d])
+        this->displ_constraints_values[d].resize(
+          this->displ_constraints_indices[d].size());
+
+      for (unsigned int d = 0; d < dim; ++d)
+        for (unsigned int i = 0; i < this->displ_constraints_indices[d].size();
+             ++i)
           {
+            const unsigned int index = this->displ_constraints_indices[d][i];
+
             const unsigned int matrix_index =
               this->n_components() * index + this->data.n_components() +
               this->n_additional_components() + d;
+
+            this->displ_constraints_values[d][i] =
+              src.local_element(matrix_index);
             src.local_element(matrix_index) = 0.0;
           }
     }
 
     void
-    post_vmult(VectorType &dst, const VectorType &src) const override
+    post_vmult(VectorType &dst, const VectorType &src_in) const override
     {
-      (void)src;
+      VectorType &src = const_cast<VectorType &>(src_in);
+
+      for (unsigned int d = 0; d < dim; ++d)
+        for (unsigned int i = 0; i < this->displ_constraints_indices[d].size();
+             ++i)
+          {
+            const unsigned int index = this->displ_constraints_indices[d][i];
+
+            const unsigned int matrix_index = this->n_components() * index +
+                                              this->n_additional_components() +
+                                              this->data.n_components() + d;
+
+            src.local_element(matrix_index) =
+              this->displ_constraints_values[d][i];
+            dst.local_element(matrix_index) =
+              this->displ_constraints_values[d][i];
+          }
 
       for (unsigned int i = 0; i < this->zero_c_constraints_indices.size(); ++i)
         {
@@ -376,18 +405,11 @@ namespace Sintering
               const unsigned int matrix_index =
                 this->n_components() * index + this->n_additional_components() +
                 this->data.n_components() + d;
+
+              src.local_element(matrix_index) = value[d];
               dst.local_element(matrix_index) = value[d];
             }
         }
-
-      for (unsigned int d = 0; d < dim; ++d)
-        for (const unsigned int index : this->displ_constraints_indices[d])
-          {
-            const unsigned int matrix_index = this->n_components() * index +
-                                              this->n_additional_components() +
-                                              this->data.n_components() + d;
-            dst.local_element(matrix_index) = 0.0;
-          }
     }
   };
 } // namespace Sintering
-- 
2.43.0


From 0566d75caed50c2a6fb7a4e53c01a98d32cd5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 45/49] fix: grain growth output named its energy derivatives
 wrongly

---
 .../sintering/operator_grain_growth.h            | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h b/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
index 4fd7dd5..fc1f5db 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
@@ -353,8 +353,8 @@ namespace Sintering
         possible_entries = {{{"bnds", FieldBnds, 1},
                              {"gb", FieldGb, 1},
                              {"energy", FieldF, 1},
-                             {"df", FieldD2f, n_grains},
-                             {"d2f", FieldD2f, n_grains * (n_grains - 1) / 2}}};
+                             {"df", FieldDf, n_grains},
+                             {"d2f", FieldD2f, n_grains * (n_grains + 1) / 2}}};
 
       // Get active entries to output
       const auto [entries_mask, n_entries] =
@@ -425,9 +425,13 @@ namespace Sintering
 
               if (entries_mask[FieldD2f])
                 for (unsigned int ig = 0; ig < n_grains; ++ig)
-                  for (unsigned int jg = ig + 1; jg < n_grains; ++jg)
-                    temp[counter++] =
-                      free_energy_eval.d2f_detaidetaj(etas[ig], etas[jg]);
+                  {
+                    temp[counter++] = free_energy_eval.d2f_detai2(etas[ig]);
+
+                    for (unsigned int jg = ig + 1; jg < n_grains; ++jg)
+                      temp[counter++] =
+                        free_energy_eval.d2f_detaidetaj(etas[ig], etas[jg]);
+                  }
 
               for (unsigned int c = 0; c < n_entries; ++c)
                 buffer[c * fe_eval.n_q_points + q] = temp[c];
@@ -462,7 +466,7 @@ namespace Sintering
       if (entries_mask[FieldF])
         names.push_back("f");
 
-      if (entries_mask[FieldD2f])
+      if (entries_mask[FieldDf])
         for (unsigned int ig = 0; ig < n_grains; ++ig)
           names.push_back("df_deta" + std::to_string(ig));
 
-- 
2.43.0


From 0dec3c7485828bcd9d2281d8541c672d31aec5dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 46/49] fix: the first time step could exceed the maximum and
 pass the end time

---
 .../include/pf-applications/sintering/driver.h       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index b09da53..59cb01f 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -954,6 +954,15 @@ namespace Sintering
       // Get the current timestep size
       auto dt = sintering_data.time_data.get_current_dt();
 
+      // The first step must respect the limits as well
+      if (t < params.time_integration_data.time_end)
+        {
+          dt = std::min({dt,
+                         params.time_integration_data.time_step_max,
+                         params.time_integration_data.time_end - t});
+          sintering_data.time_data.replace_dt(dt);
+        }
+
       // We store minimum 2 vectors in the solution history
       TimeIntegration::SolutionHistory<VectorType> solution_history(
         std::max(sintering_data.time_data.get_order() + 1, 2U));
@@ -1929,8 +1938,7 @@ namespace Sintering
 
       // run time loop
       {
-        while (std::abs(t - params.time_integration_data.time_end) >
-               tol_termination)
+        while (params.time_integration_data.time_end - t > tol_termination)
           {
             ScopedName         sc("time_loop");
             TimerOutput::Scope scope(timer(), sc);
-- 
2.43.0


From 7e4bcee89f49696f13ffdefa5f17b4d8c0d5178c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 47/49] fix: a restarted run repeated the last time step size
 and knew a wrong step history

---
 .../sintering/include/pf-applications/sintering/driver.h   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 59cb01f..0155e06 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2540,6 +2540,10 @@ namespace Sintering
                                   additional_output);
                   }
 
+                // Update and advance time step size, restart points have to
+                // contain the size of the next step
+                sintering_data.time_data.update_dt(dt);
+
                 // Save restart point
                 if (is_last_time_step || restart_predicate.now(t))
                   {
@@ -2699,9 +2703,6 @@ namespace Sintering
                       }
                     pcout << std::endl;
                   }
-
-                // Update and advance time step size
-                sintering_data.time_data.update_dt(dt);
               }
             else
               {
-- 
2.43.0


From 75e67c4f91ae9bf4495d1fad33247bebe5aa5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 48/49] fix: a restarted run forgot a mesh refinement that was
 due

---
 .../sintering/include/pf-applications/sintering/driver.h  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 0155e06..4a48f80 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -157,6 +157,8 @@ namespace Sintering
     double       max_reached_dt;
     unsigned int restart_counter;
     double       t;
+    bool         do_mesh_refinement = false;
+    bool         do_grain_tracker   = false;
 
     std::map<std::string, unsigned int> counters;
 
@@ -496,6 +498,8 @@ namespace Sintering
       ar &max_reached_dt;
       ar &restart_counter;
       ar &t;
+      ar &do_mesh_refinement;
+      ar &do_grain_tracker;
       ar &counters;
     }
 
@@ -1930,9 +1934,7 @@ namespace Sintering
                         additional_output);
         }
 
-      bool has_converged      = true;
-      bool do_mesh_refinement = false;
-      bool do_grain_tracker   = false;
+      bool has_converged = true;
 
       const double tol_termination = 1e-9;
 
-- 
2.43.0


From e9553ce8c2ae36e087d5dcab188f9bccc47fb751 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 49/49] fix: linear predictor used a lost solution after
 refinement or restart

---
 .../sintering/include/pf-applications/sintering/driver.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 4a48f80..1737dea 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2043,7 +2043,14 @@ namespace Sintering
                       {
                         const auto fac = dt0 / dt1;
 
-                        solution_history.extrapolate(extrap, fac);
+                        // The recent old solution has not been set yet for
+                        // this step, so the committed ones have to be used
+                        solution_history.filter(true, false, true)
+                          .extrapolate(extrap, fac);
+                      }
+                    else
+                      {
+                        extrap = solution;
                       }
                   }
                 else
-- 
2.43.0

