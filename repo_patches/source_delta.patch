From 5909a963c5d93313d3bcc4dea286239262326425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 01/45] fix: divide by depth for points behind the camera in
 the vector projectPoint overload

The parenthesis of std::abs() enclosed the whole comparison, so points with a negative z were never scaled by their
depth, unlike in the array overload.
---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..d201d05 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z() - T(0.0)) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From 3f8bc540ae828b734f127434ce122d55a2811c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 02/45] fix: let PnP start from a guess without rotation

The derivative of the norm of a zero angle-axis vector is not defined, so automatic differentiation produced NaN and
the solve failed (and the covariance computation aborted the process) for an identity orientation guess. Use the
angle-axis point transform that the other optimizations use.
---
 .../src/rct_optimizations/pnp.cpp             | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..a3e0cd6 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,15 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: the derivative of the norm of the angle axis is undefined for a zero rotation, so the norm is not used here
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +56,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: the derivative of the norm of the angle axis is undefined for a zero rotation, so the norm is not used here
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From 62234dcd314fc3eca8c51893d448b88c3557ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 03/45] fix: keep the standard deviation of a parameter without
 variance at zero

---
 .../src/rct_optimizations/covariance_analysis.cpp        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..2fb36bd 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -24,12 +24,11 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
-        if (sigma_j < std::numeric_limits<double>::epsilon())
-          sigma_j = 1;
+        // Avoid dividing by zero, without altering sigma_i which is still needed for the diagonal element of this row
+        const double div_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1.0 : sigma_i;
+        const double div_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1.0 : sigma_j;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (div_i * div_j);
       }
     }
   }
-- 
2.43.0


From 12fc7c4ba540a28a3c13867b8c7b666df80761fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 04/45] fix: refuse a wrong number of names in
 computeCovarianceResults

---
 .../include/rct_optimizations/covariance_analysis.h            | 1 +
 .../src/rct_optimizations/covariance_analysis.cpp              | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/covariance_analysis.h b/rct_optimizations/include/rct_optimizations/covariance_analysis.h
index baa72ac..a8be732 100644
--- a/rct_optimizations/include/rct_optimizations/covariance_analysis.h
+++ b/rct_optimizations/include/rct_optimizations/covariance_analysis.h
@@ -25,6 +25,7 @@ struct DefaultCovarianceOptions : ceres::Covariance::Options
  * @param cov_matrix The covariance matrix
  * @param parameter_names The parameter names
  * @return The covariance results
+ * @throw CovarianceException if @ref cov_matrix is not square or the number of names is not its number of rows.
  */
 CovarianceResult computeCovarianceResults(const Eigen::MatrixXd& cov_matrix,
                                           const std::vector<std::string>& parameter_names);
diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 2fb36bd..40a5e67 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -39,6 +39,9 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
 CovarianceResult computeCovarianceResults(const Eigen::MatrixXd& cov_matrix,
                                           const std::vector<std::string>& parameter_names)
 {
+  if (static_cast<std::size_t>(cov_matrix.rows()) != parameter_names.size())
+    throw CovarianceException("Number of parameter names does not match the size of the covariance matrix");
+
   // 0. Save original covariance matrix output
   // For parameter blocks [p1, p2], the structure of this matrix will be:
   /*    |     p1    |     p2    |
-- 
2.43.0


From eebbb1b2001e7c8fc2ea3ec0f5bae65fc8c7f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:43 +0000
Subject: [PATCH 05/45] fix: name the pose covariance rows in the order of the
 pose parameters

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 0e39f9b53c7a7663cb55f27f265816a82e0b2958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 06/45] fix: report the covariance of the fitted radius instead
 of its square root

---
 rct_optimizations/src/rct_optimizations/circle_fit.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/circle_fit.cpp b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
index 706afe6..97c5211 100644
--- a/rct_optimizations/src/rct_optimizations/circle_fit.cpp
+++ b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
@@ -48,5 +48,10 @@ rct_optimizations::CircleFitResult rct_optimizations::optimize(const rct_optimiz
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
   result.covariance = rct_optimizations::computeCovariance(problem, param_block_labels);
 
+  // The third solver parameter is the square root of the radius; report the covariance of the radius itself
+  const Eigen::Vector3d d_params(1.0, 1.0, 2.0 * circle_params[2]);
+  result.covariance = rct_optimizations::computeCovarianceResults(
+      d_params.asDiagonal() * result.covariance.covariance_matrix * d_params.asDiagonal(), params.labels);
+
   return result;
 }
-- 
2.43.0


From 6e1b816b34843e0b0da733c0157022680d5b0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 07/45] fix: return the target poses found by intrinsic
 calibration

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..b10b464 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -268,6 +268,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.distortions[3] = internal_intrinsics_data[7];
   result.distortions[4] = internal_intrinsics_data[8];
 
+  for (const Pose6d& pose : internal_poses)
+    result.target_transforms.push_back(poseCalToEigen(pose));
+
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-- 
2.43.0


From 2138d0e09f3c8ae36404afd5cff999646e6bfe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 08/45] fix: leave images without a starting pose out of the
 intrinsic covariance

---
 .../src/rct_optimizations/camera_intrinsic.cpp             | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index b10b464..4e0efc7 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -207,6 +207,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
     }
   }
 
+  if (valid_idx.empty())
+    throw std::runtime_error("Failed to find a starting pose of the target for any image");
+
   ceres::Problem problem;
 
   // Create a set of cost functions for each observation set
@@ -237,6 +240,10 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
 
   for (std::size_t i = 0; i < internal_poses.size(); i++)
   {
+    // Images without a starting pose are not part of the problem
+    if (!problem.HasParameterBlock(internal_poses[i].values.data()))
+      continue;
+
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
     // compose labels poseN_x, etc.
-- 
2.43.0


From 38a041ba15e9e4657910cb8a6aa4ea9257017a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 09/45] fix: start intrinsic calibration from the given target
 poses when requested

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index 7444477..a2578ce 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -11,7 +11,7 @@ struct IntrinsicEstimationProblem
 {
   std::vector<Correspondence2D3D::Set> image_observations;
   CameraIntrinsics intrinsics_guess;
-  bool use_extrinsic_guesses;
+  bool use_extrinsic_guesses = false;
   std::vector<Eigen::Isometry3d> extrinsic_guesses;
 
   std::string label_extr = "pose";
diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 4e0efc7..acd86f2 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -197,7 +197,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   {
     try
     {
-      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guessInitialPose());
+      internal_poses[i] = params.use_extrinsic_guesses ? poseEigenToCal(params.extrinsic_guesses.at(i)) :
+                                                         guessInitialPose();
+      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], internal_poses[i]);
       valid_idx.push_back(i);
     }
     catch (const std::exception&)
-- 
2.43.0


From 927cf9250d715e18c51b69ac12462b40ef9b9534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 10/45] fix: refuse the covariance of parameters without
 measurements instead of aborting

---
 .../include/rct_optimizations/covariance_analysis.h            | 1 +
 .../src/rct_optimizations/covariance_analysis.cpp              | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/covariance_analysis.h b/rct_optimizations/include/rct_optimizations/covariance_analysis.h
index a8be732..5197621 100644
--- a/rct_optimizations/include/rct_optimizations/covariance_analysis.h
+++ b/rct_optimizations/include/rct_optimizations/covariance_analysis.h
@@ -95,6 +95,7 @@ CovarianceResult computeCovariance(
  * @throw CovarianceException if covariance.Compute fails.
  * @throw CovarianceException if covariance.GetCovarianceMatrix fails.
  * @throw CovarianceException if parameter_names.size() != parameter_blocks.size().
+ * @throw CovarianceException if one of @ref parameter_blocks is not part of the problem.
  * @throw CovarianceException if the number of parameter label strings provided for a block is different than the number
  * of parameters in that block.
  */
diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 40a5e67..041f26e 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -155,6 +155,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
+    if (!problem.HasParameterBlock(b))
+      throw CovarianceException("Provided parameter block is not part of the problem");
+
     int block_size = problem.ParameterBlockSize(b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
-- 
2.43.0


From 117bcd549e65ada835dae8134366146154977d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 11/45] fix: keep joint names, limits and seeds when applying
 offsets to a DH chain

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..ef3322d 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -56,8 +56,10 @@ DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    // Only the DH parameters change; the type, name, limits and random seed of the joint are kept
+    DHTransform transform(other.transforms_.at(i));
+    transform.params += dh_offsets.row(i).transpose();
+    transforms_.push_back(transform);
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From 6f8f326b5db51f36977593fa574c739b5a0d2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 12/45] fix: refuse too few offset rows when applying offsets
 to a DH chain

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index ef3322d..41d9c2a 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -1,5 +1,7 @@
 #include <rct_optimizations/dh_chain.h>
 #include <random>
+#include <sstream>
+#include <stdexcept>
 
 namespace rct_optimizations
 {
@@ -53,6 +55,14 @@ DHChain::DHChain(std::vector<DHTransform> transforms, const Eigen::Isometry3d& b
 
 DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
 {
+  if (dh_offsets.rows() < static_cast<Eigen::Index>(other.transforms_.size()))
+  {
+    std::stringstream ss;
+    ss << "Rows of DH offsets (" << dh_offsets.rows() << ") are fewer than the chain DoF (" << other.transforms_.size()
+       << ")";
+    throw std::runtime_error(ss.str());
+  }
+
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-- 
2.43.0


From 93712abeee62553cc781e8c6dd3e376e3fba368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 13/45] fix: let kinematic calibration start from transforms
 without rotation

---
 .../dh_chain_kinematic_calibration.h                  | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..477094f 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -151,15 +151,14 @@ public:
   static Isometry3<T> createTransform(T const* const* params, const std::size_t idx)
   {
     Eigen::Map<const Vector3<T>> t(params[idx]);
-    Eigen::Map<const Vector3<T>> aa(params[idx + 1]);
 
     Isometry3<T> result = Isometry3<T>::Identity() * Eigen::Translation<T, 3>(t);
 
-    T aa_norm = aa.norm();
-    if (aa_norm > std::numeric_limits<T>::epsilon())
-    {
-      result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
-    }
+    // Keeps the derivative with respect to the angle axis at zero rotation, such that identity can be an initial guess
+    Eigen::Matrix<T, 3, 3> rotation;
+    ceres::AngleAxisToRotationMatrix(params[idx + 1], rotation.data());
+    result.linear() = rotation;
+
     return result;
   }
 
-- 
2.43.0


From 2a06f8e3502adbd947389d46066391059e0f632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 14/45] fix: refuse negative mask indices instead of aborting

---
 .../include/rct_optimizations/local_parameterization.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/local_parameterization.h b/rct_optimizations/include/rct_optimizations/local_parameterization.h
index b907048..9e1e15e 100644
--- a/rct_optimizations/include/rct_optimizations/local_parameterization.h
+++ b/rct_optimizations/include/rct_optimizations/local_parameterization.h
@@ -119,6 +119,14 @@ void addSubsetParameterization(ceres::Problem& problem, const std::map<const dou
           throw OptimizationException(ss.str());
         }
 
+        // The indices are sorted, so the first one is the smallest
+        if (mask.front() < 0)
+        {
+          std::stringstream ss;
+          ss << "The mask indices cannot be negative (" << mask.front() << ")";
+          throw OptimizationException(ss.str());
+        }
+
         // Set local parameterization on the indices or set the entire block constant
         if (mask.size() >= block_size)
         {
-- 
2.43.0


From 6d192b817d8abdbef482f72870b5f6969cd93f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 15/45] fix: read back the orientation of a saved hand-eye
 calibration result

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..e36e502 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -111,11 +111,11 @@ struct convert<rct_optimizations::ExtrinsicHandEyeResult>
     rhs.final_cost_per_obs = node["final_cost_per_obs"].as<decltype(rhs.final_cost_per_obs)>();
 
     Eigen::Vector3d target_mount_to_target_pos = node["target_mount_to_target_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>();
     rhs.target_mount_to_target = toIsometry<double>(target_mount_to_target_pos, target_mount_to_target_rpy);
 
     Eigen::Vector3d camera_mount_to_camera_pos = node["camera_mount_to_camera_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>();
     rhs.camera_mount_to_camera = toIsometry<double>(camera_mount_to_camera_pos, camera_mount_to_camera_rpy);
 
     return true;
-- 
2.43.0


From 33af270d7344127ba86753c2248904bbba133420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 16/45] fix: refuse a DH chain whose transforms are not a
 sequence

---
 .../include/rct_optimizations/serialization/types.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..f631374 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -134,6 +134,9 @@ struct convert<rct_optimizations::DHChain>
     val.base_offset_ = n["base_transform"].as<Eigen::Isometry3d>();
 
     const YAML::Node& transforms = n["dh_transforms"];
+    if (!transforms.IsSequence())
+      return false;
+
     val.transforms_.clear();
     val.transforms_.reserve(transforms.size());
     for (std::size_t i = 0; i < transforms.size(); i++)
-- 
2.43.0


From f4054770a132e68818f75c9d7485f08e2abdfd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 17/45] fix: seed the random generator of joints read from YAML

---
 .../include/rct_optimizations/serialization/types.h             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index f631374..61f3550 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <random>
 #include <rct_optimizations/dh_chain.h>
 #include <rct_optimizations/types.h>
 #include <rct_optimizations/serialization/eigen.h>
@@ -120,6 +121,7 @@ struct convert<rct_optimizations::DHTransform>
     }
 
     val.name = n["joint_name"].as<std::string>();
+    val.random_seed = std::random_device{}();
 
     return true;
   }
-- 
2.43.0


From 149b746428602856aefe170efbc2b7641b8879c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 18/45] fix: compare the correspondences of kinematic
 observations

---
 rct_optimizations/include/rct_optimizations/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..12c5d79 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -146,7 +146,7 @@ struct KinematicObservation
   inline bool operator==(const KinematicObservation& rhs) const
   {
     return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
-- 
2.43.0


From 87480669ed046d0145ae6f59d1ff5a6fb94eaafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:45 +0000
Subject: [PATCH 19/45] fix: compare kinematic data with different numbers of
 joints

---
 rct_optimizations/include/rct_optimizations/types.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index 12c5d79..69f33c5 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,7 +145,9 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
@@ -178,7 +180,9 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
-- 
2.43.0


From 11e5b5a7fcb9257b4f1b784f0bc95881937a1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 20/45] fix: refuse negative sizes of a modified circle grid in
 the configuration

---
 rct_ros_tools/src/target_loader_plugins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/target_loader_plugins.cpp b/rct_ros_tools/src/target_loader_plugins.cpp
index b8b613a..032cecd 100644
--- a/rct_ros_tools/src/target_loader_plugins.cpp
+++ b/rct_ros_tools/src/target_loader_plugins.cpp
@@ -80,8 +80,8 @@ public:
 
   void init(const YAML::Node& config) override
   {
-    int rows = config["rows"].as<int>();
-    int cols = config["cols"].as<int>();
+    unsigned rows = config["rows"].as<unsigned>();
+    unsigned cols = config["cols"].as<unsigned>();
     double spacing = config["spacing"].as<double>();
     rct_image_tools::ModifiedCircleGridTarget target(rows, cols, spacing);
 
-- 
2.43.0


From b088c323d83140dc1ceebfcd51e88b4f89dbe68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 21/45] fix: refuse features that do not match the size of a
 modified circle grid

---
 .../src/rct_image_tools/modified_circle_grid_target.cpp   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
index 2364a5e..4331cc8 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
@@ -1,5 +1,8 @@
 #include "rct_image_tools/modified_circle_grid_target.h"
 
+#include <stdexcept>
+#include <string>
+
 namespace rct_image_tools
 {
 ModifiedCircleGridTarget::ModifiedCircleGridTarget(const unsigned rows_, const unsigned cols_, const double spacing_)
@@ -21,7 +24,10 @@ rct_optimizations::Correspondence2D3D::Set
 ModifiedCircleGridTarget::createCorrespondences(const TargetFeatures& target_features) const
 {
   std::vector<Eigen::Vector3d> target_points = createPoints();
-  assert(target_features.size() == target_points.size());
+  if (target_features.size() != target_points.size())
+    throw std::runtime_error("The number of target features (" + std::to_string(target_features.size()) +
+                             ") does not match the number of points in the target (" +
+                             std::to_string(target_points.size()) + ")");
 
   rct_optimizations::Correspondence2D3D::Set correspondences;
   correspondences.reserve(target_features.size());
-- 
2.43.0


From 18853ae702cb3489e22d7cc69503cbcf005f0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 22/45] fix: do not call targets with different marker
 dictionaries equal

---
 .../src/rct_image_tools/aruco_grid_target.cpp         | 11 +++++++++++
 .../src/rct_image_tools/charuco_grid_target.cpp       | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp b/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
index 60f5836..0318410 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
@@ -24,6 +24,16 @@ std::map<int, std::vector<Eigen::Vector3d>> mapArucoIdsToObjPts(const cv::Ptr<cv
   }
   return map_ids_to_corners;
 }
+
+/**
+ * @brief Determines if two dictionaries define the same markers
+ */
+bool isSameDictionary(const cv::aruco::Dictionary& a, const cv::aruco::Dictionary& b)
+{
+  return a.markerSize == b.markerSize && a.maxCorrectionBits == b.maxCorrectionBits &&
+         a.bytesList.type() == b.bytesList.type() && a.bytesList.size() == b.bytesList.size() &&
+         cv::norm(a.bytesList, b.bytesList, cv::NORM_INF) == 0.0;
+}
 }  // namespace
 
 namespace rct_image_tools
@@ -58,6 +68,7 @@ bool ArucoGridTarget::operator==(const ArucoGridTarget& other) const
   equal &= (std::abs(other.board->getMarkerSeparation() - board->getMarkerSeparation()) <
             std::numeric_limits<float>::epsilon());
   equal &= other.points == points;
+  equal &= isSameDictionary(*other.board->dictionary, *board->dictionary);
   return equal;
 }
 
diff --git a/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp b/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
index efda68b..3d45b00 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
@@ -19,6 +19,16 @@ std::map<unsigned, Eigen::Vector3d> mapCharucoIdsToObjPts(const cv::Ptr<cv::aruc
   }
   return points;
 }
+
+/**
+ * @brief Determines if two dictionaries define the same markers
+ */
+bool isSameDictionary(const cv::aruco::Dictionary& a, const cv::aruco::Dictionary& b)
+{
+  return a.markerSize == b.markerSize && a.maxCorrectionBits == b.maxCorrectionBits &&
+         a.bytesList.type() == b.bytesList.type() && a.bytesList.size() == b.bytesList.size() &&
+         cv::norm(a.bytesList, b.bytesList, cv::NORM_INF) == 0.0;
+}
 }  // namespace
 
 namespace rct_image_tools
@@ -48,6 +58,7 @@ bool CharucoGridTarget::operator==(const CharucoGridTarget& other) const
   auto other_board_size = other.board->getChessboardSize();
   bool equal = true;
   equal &= other.points == points;
+  equal &= isSameDictionary(*other.board->dictionary, *board->dictionary);
   equal &=
       (std::abs(other.board->getMarkerLength() - board->getMarkerLength()) < std::numeric_limits<float>::epsilon());
   equal &=
-- 
2.43.0


From 23672216473a97e2e205efb007830decc25b8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 23/45] fix: choose different correspondences in the random
 correspondence sampler

---
 .../validation/homography_validation.cpp       | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..842e7e4 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -1,5 +1,6 @@
 #include <rct_optimizations/validation/homography_validation.h>
 #include <Eigen/Dense>
+#include <numeric>
 #include <rct_optimizations/types.h>
 
 namespace rct_optimizations
@@ -63,14 +64,19 @@ RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n_cor
 
 std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const
 {
-  // Create a random number generator with a uniform distribution across all indices
+  // Create a random number generator
   std::mt19937 rand_gen(seed);
-  std::uniform_int_distribution<std::size_t> dist(0, n_correspondences - 1);
-  auto fn = [&rand_gen, &dist]() -> std::size_t { return dist(rand_gen); };
 
-  // Generate a vector of 4 random correspondence indices
-  std::vector<std::size_t> output(n_samples);
-  std::generate(output.begin(), output.end(), fn);
+  // Choose each of the samples with uniform probability from the indices that have not been chosen yet, such that no
+  // correspondence is used more than once (a homography needs 4 different points)
+  std::vector<std::size_t> output(n_correspondences);
+  std::iota(output.begin(), output.end(), 0);
+  for (std::size_t i = 0; i < n_samples; ++i)
+  {
+    std::uniform_int_distribution<std::size_t> dist(i, n_correspondences - 1);
+    std::swap(output[i], output[dist(rand_gen)]);
+  }
+  output.resize(n_samples);
 
   return output;
 }
-- 
2.43.0


From 6ebdf2e3a816a34c6b867f750fb7f669ad8020f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 24/45] fix: refuse to sample the corners of a grid with a
 single row or column

---
 .../validation/homography_validation.cpp                  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index 842e7e4..2f33407 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -25,6 +25,14 @@ std::vector<std::size_t> GridCorrespondenceSampler::getSampleCorrespondenceIndic
     throw std::runtime_error(ss.str());
   }
 
+  // The corners of a grid with a single row or column are not different points
+  if (rows < 2 || cols < 2)
+  {
+    std::stringstream ss;
+    ss << "A grid of " << rows << " row(s) and " << cols << " column(s) does not have " << n_samples << " corners";
+    throw std::runtime_error(ss.str());
+  }
+
   std::vector<std::size_t> correspondence_indices;
   correspondence_indices.reserve(n_samples);
 
-- 
2.43.0


From e52b0adbc1bf5e454d90ff6b986554304fcf24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 25/45] fix: keep the homography error of 3D correspondences
 with negative depth positive

---
 .../rct_optimizations/validation/homography_validation.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index 2f33407..d9c1724 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -218,8 +218,8 @@ Eigen::VectorXd calculateHomographyError(const Correspondence3D3D::Set& correspo
   // Calculate the homography error
   Eigen::VectorXd error = calculateHomographyError(correspondences_2d, correspondence_sampler);
 
-  // Scale the errors again by the z values of the original correspondences
-  return error.cwiseProduct(z_values);
+  // Scale the errors again by the (absolute) z values of the original correspondences
+  return error.cwiseProduct(z_values.cwiseAbs());
 }
 
 }  // namespace rct_optimizations
-- 
2.43.0


From 4691f492d6ee324cec27909d87fa4a075f56cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 26/45] fix: refuse an empty set of observations when measuring
 intrinsic calibration accuracy

---
 .../validation/camera_intrinsic_calibration_validation.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..82545a3 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -64,6 +64,9 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
                                     const Eigen::Isometry3d& camera_base_to_target_base,
                                     const double pnp_sq_error_threshold)
 {
+  if (observations.empty())
+    throw OptimizationException("No observations provided to measure the accuracy of the intrinsic calibration");
+
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
   for (std::size_t i = 0; i < observations.size() - 1; ++i)
-- 
2.43.0


From 43d07a8dffdeffd1aeeae118b11c03686487b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 27/45] fix: circle detector reads the color of ellipse centers
 outside of the image

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..7420f37 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,12 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of an ellipse fit to a short or nearly straight contour can lie outside of the image
+      const cv::Point center_pixel(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(0, 0, binarized_image.cols, binarized_image.rows).contains(center_pixel))
+        continue;
+
+      if (binarized_image.at<uchar>(center_pixel) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From cd6115552d8edbd65ae77e267225ae0a73cf9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 28/45] fix: circle detector yields undefined keypoints for
 perfectly fit ellipses

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 7420f37..3aa95fe 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -50,6 +50,7 @@ the use of this software, even if advised of the possibility of such damage.
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
 #include <yaml-cpp/yaml.h>
 
 namespace
@@ -213,7 +214,8 @@ DetectionResult findCircles(const cv::Mat& image,
       // Create the center
       rct_image_tools::CircleDetector::Center center;
       center.location = box.center;
-      center.confidence = 1.0 / err;
+      // Limit the confidence of a perfect fit, for which the weighted average would otherwise be undefined
+      center.confidence = 1.0 / std::max(err, std::numeric_limits<double>::epsilon());
       center.radius = (box.size.height + box.size.width) / 4.0;
 
       result.centers.push_back(center);
-- 
2.43.0


From 46cd9ae9674b77a2ff0a07e964dce1479acca579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 29/45] fix: ArUco finder reports markers that are not part of
 the target

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 528129c..83ababd 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -25,6 +25,10 @@ TargetFeatures ArucoGridBoardTargetFinder::findTargetFeatures(const cv::Mat& ima
 
   for (unsigned i = 0; i < marker_ids.size(); i++)
   {
+    // Ignore markers of the dictionary that are not part of the board
+    if (target_.points.find(marker_ids[i]) == target_.points.end())
+      continue;
+
     std::vector<cv::Point2f> corner_pts = marker_corners[i];
     VectorEigenVector<2> obs_pts(4);
 
-- 
2.43.0


From 9e383ef9a8469b2f2faf26345dc99b62ec3d641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 30/45] fix: drawing ArUco and ChArUco features alters the
 input image

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp   | 7 +++++--
 rct_image_tools/src/rct_image_tools/charuco_finder.cpp | 7 ++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 83ababd..0476bd2 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -55,7 +55,10 @@ cv::Mat ArucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     });
     marker_corners.push_back(cv_obs);
   }
-  cv::aruco::drawDetectedMarkers(image, marker_corners, marker_ids);
-  return image;
+
+  // Draw on a copy, since the input image shares its data
+  cv::Mat out_image = image.clone();
+  cv::aruco::drawDetectedMarkers(out_image, marker_corners, marker_ids);
+  return out_image;
 }
 }  // namespace rct_image_tools
diff --git a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
index 0107117..8979955 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
@@ -64,10 +64,11 @@ cv::Mat CharucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     charuco_corners.push_back(cv::Point2f(pt.x(), pt.y()));
   }
 
-  // Draw the detected corners
-  cv::aruco::drawDetectedCornersCharuco(image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
+  // Draw the detected corners on a copy, since the input image shares its data
+  cv::Mat out_image = image.clone();
+  cv::aruco::drawDetectedCornersCharuco(out_image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
 
-  return image;
+  return out_image;
 }
 
 }  // namespace rct_image_tools
-- 
2.43.0


From b011023d9112040da3586ad2bfa7565841f7d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 31/45] fix: drawing an incomplete set of circle grid features
 reads out of bounds

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..bffd8a8 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -33,6 +33,10 @@ static cv::Mat renderObservations(const cv::Mat& input,
 
   if (!observation_points.empty())
   {
+    if (observation_points.size() != static_cast<std::size_t>(target.rows) * target.cols)
+      throw std::runtime_error("The number of features (" + std::to_string(observation_points.size()) +
+                               ") does not match the number of points in the target");
+
     cv::Size pattern_size(static_cast<int>(target.cols), static_cast<int>(target.rows));
 
     cv::Mat center_image = cv::Mat(observation_points);
-- 
2.43.0


From 30c1f490bbb9e924768cf088d0b27302b4614e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 32/45] fix: load a data set given by a file name without
 directory

---
 rct_ros_tools/src/data_set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09ae4e7..1448e65 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -11,7 +11,8 @@
 static std::string rootPath(const std::string& filename)
 {
   const auto last_idx = filename.find_last_of('/');
-  assert(last_idx != std::string::npos);
+  if (last_idx == std::string::npos)
+    return ".";
   return filename.substr(0, last_idx);
 }
 
-- 
2.43.0


From 3c2c69d611c2f346ca7e0578c9f54b65f7801cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 33/45] fix: report when a data set could not be saved

---
 rct_ros_tools/src/data_set.cpp | 40 +++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 1448e65..e0e1ed1 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -74,14 +74,16 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
   }
 }
 
-void writePose(const std::string& path, const Eigen::Isometry3d& pose)
+bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
 {
   YAML::Node root(pose);
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return !ofh.fail();
 }
 
-void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
+bool writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
   YAML::Node root;
 
@@ -96,10 +98,18 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return !ofh.fail();
 }
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
+  if (data.images.size() != data.tool_poses.size())
+  {
+    ROS_ERROR_STREAM("Data set has " << data.images.size() << " images but " << data.tool_poses.size() << " poses");
+    return false;
+  }
+
   mkdir(path.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/images").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/poses").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
@@ -107,16 +117,36 @@ bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
     auto name = path + "/images/" + std::to_string(i) + ".png";
-    cv::imwrite(name, data.images[i]);
+    try
+    {
+      if (!cv::imwrite(name, data.images[i]))
+      {
+        ROS_ERROR_STREAM("Failed to write image: " << name);
+        return false;
+      }
+    }
+    catch (const cv::Exception& ex)
+    {
+      ROS_ERROR_STREAM("Failed to write image: " << name << ": " << ex.what());
+      return false;
+    }
   }
 
   for (std::size_t i = 0; i < data.tool_poses.size(); ++i)
   {
     auto name = path + "/poses/" + std::to_string(i) + ".yaml";
-    writePose(name, data.tool_poses[i]);
+    if (!writePose(name, data.tool_poses[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write pose: " << name);
+      return false;
+    }
   }
 
-  writeDirectory(path + "/data.yaml", data);
+  if (!writeDirectory(path + "/data.yaml", data))
+  {
+    ROS_ERROR_STREAM("Failed to write data set: " << path << "/data.yaml");
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 2fbf505918e82e3e9c1827bace865e7c9430b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 34/45] fix: let cameras of a correspondence data set have
 different numbers of images

---
 rct_ros_tools/src/data_set.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index e0e1ed1..2c3f837 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -3,6 +3,7 @@
 #include <rct_image_tools/image_utils.h>
 #include <rct_optimizations/serialization/eigen.h>
 
+#include <algorithm>
 #include <fstream>
 #include <opencv2/highgui.hpp>
 #include <ros/console.h>
@@ -160,8 +161,13 @@ rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
   if (debug)
     cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
 
-  correspondences_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
-  mask_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
+  // The cameras may have different numbers of images; the missing ones are masked out
+  std::size_t image_count = 0;
+  for (const rct_ros_tools::ExtrinsicDataSet& data_set : extrinsic_data_set)
+    image_count = std::max(image_count, data_set.images.size());
+
+  correspondences_.resize(extrinsic_data_set.size(), image_count);
+  mask_.setZero(extrinsic_data_set.size(), image_count);
   for (std::size_t c = 0; c < extrinsic_data_set.size(); ++c)
   {
     // We know it exists, so define a helpful alias
-- 
2.43.0


From f15121c54d7923cfbf9d5efbca8fdc559d56b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 35/45] fix: convert empty parameter arrays to YAML

---
 rct_ros_tools/src/loader_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_ros_tools/src/loader_utils.cpp b/rct_ros_tools/src/loader_utils.cpp
index 196f2cf..e4d7cda 100644
--- a/rct_ros_tools/src/loader_utils.cpp
+++ b/rct_ros_tools/src/loader_utils.cpp
@@ -59,6 +59,11 @@ YAML::Node toYAML(XmlRpc::XmlRpcValue value)
         node[it->first] = toYAML(it->second);
         break;
       case XmlRpc::XmlRpcValue::TypeArray:
+        if (it->second.size() == 0)
+        {
+          node[it->first] = YAML::Node(YAML::NodeType::Sequence);
+          break;
+        }
         switch (getArrayType(it->second))
         {
           case XmlRpc::XmlRpcValue::TypeBoolean:
-- 
2.43.0


From 49b42e454089b8e77630a4c575fa0b8628a37d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 36/45] fix: read a rotation from any YAML quaternion with a
 length, refuse others

---
 .../include/rct_optimizations/serialization/eigen.h        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/eigen.h b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
index 4017eac..f553a0d 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/eigen.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Geometry>
+#include <cmath>
 #include <yaml-cpp/yaml.h>
 
 namespace YAML
@@ -85,6 +86,12 @@ struct convert<Eigen::Transform<FloatT, 3, Eigen::Isometry>>
     quat.y() = node["qy"].as<FloatT>();
     quat.z() = node["qz"].as<FloatT>();
 
+    // A rotation can only be made of a quaternion with a length
+    const FloatT norm = quat.coeffs().stableNorm();
+    if (!(norm > FloatT(0)) || !std::isfinite(norm))
+      return false;
+    quat.coeffs() /= norm;
+
     val = Eigen::Translation<FloatT, 3>(trans) * quat;
 
     return true;
-- 
2.43.0


From c528133258e9c734e8ab6944b2fd06ecc32e11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 37/45] fix: refuse pose parameters whose quaternion has no
 length

---
 rct_ros_tools/src/parameter_loaders.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/parameter_loaders.cpp b/rct_ros_tools/src/parameter_loaders.cpp
index cb13470..394d7f5 100644
--- a/rct_ros_tools/src/parameter_loaders.cpp
+++ b/rct_ros_tools/src/parameter_loaders.cpp
@@ -3,6 +3,7 @@
 #include <rct_optimizations/serialization/eigen.h>
 #include <rct_optimizations/serialization/types.h>
 
+#include <cmath>
 #include <xmlrpcpp/XmlRpcException.h>
 
 template <typename T>
@@ -106,8 +107,14 @@ Eigen::Isometry3d loadPose(const ros::NodeHandle& nh, const std::string& key)
   if (!read(xml, "qw", qw))
     throw ros::InvalidParameterException(key + "/qw");
 
-  Eigen::Isometry3d pose =
-      Eigen::Translation3d(Eigen::Vector3d(x, y, z)) * Eigen::AngleAxisd(Eigen::Quaterniond(qw, qx, qy, qz));
+  // A rotation can only be made of a quaternion with a length
+  Eigen::Quaterniond quat(qw, qx, qy, qz);
+  const double norm = quat.coeffs().stableNorm();
+  if (!(norm > 0.0) || !std::isfinite(norm))
+    throw ros::InvalidParameterException(key + "/q");
+  quat.coeffs() /= norm;
+
+  Eigen::Isometry3d pose = Eigen::Translation3d(Eigen::Vector3d(x, y, z)) * Eigen::AngleAxisd(quat);
   return pose;
 }
 
-- 
2.43.0


From 36e129f824c934edf9b1a25cb5337919fb0d8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 38/45] fix: report files that cannot be read as bad files when
 loading intrinsics and poses

---
 rct_ros_tools/src/parameter_loaders.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rct_ros_tools/src/parameter_loaders.cpp b/rct_ros_tools/src/parameter_loaders.cpp
index 394d7f5..47d51e9 100644
--- a/rct_ros_tools/src/parameter_loaders.cpp
+++ b/rct_ros_tools/src/parameter_loaders.cpp
@@ -4,6 +4,7 @@
 #include <rct_optimizations/serialization/types.h>
 
 #include <cmath>
+#include <ios>
 #include <xmlrpcpp/XmlRpcException.h>
 
 template <typename T>
@@ -69,6 +70,10 @@ rct_optimizations::CameraIntrinsics loadIntrinsics(const std::string& path)
   {
     throw BadFileException(std::string("YAML failure: ") + ex.what());
   }
+  catch (std::ios_base::failure& ex)
+  {
+    throw BadFileException(std::string("Read failure: ") + ex.what());
+  }
 }
 
 bool loadIntrinsics(const std::string& path, rct_optimizations::CameraIntrinsics& intrinsics)
@@ -143,6 +148,10 @@ Eigen::Isometry3d loadPose(const std::string& path)
   {
     throw BadFileException(std::string("YAML failure: ") + ex.what());
   }
+  catch (std::ios_base::failure& ex)
+  {
+    throw BadFileException(std::string("Read failure: ") + ex.what());
+  }
 }
 
 bool loadPose(const std::string& path, Eigen::Isometry3d& pose)
-- 
2.43.0


From ac17ff1dd5c94e04e1721b860292f17bc60c95b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 39/45] fix: report data set files that cannot be read

---
 rct_ros_tools/src/data_set.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 2c3f837..76d09c6 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <ios>
 #include <opencv2/highgui.hpp>
 #include <ros/console.h>
 #include <sys/stat.h>
@@ -73,6 +74,11 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
     ROS_ERROR_STREAM("Error while parsing YAML file: " << ex.what());
     return {};
   }
+  catch (const std::ios_base::failure& ex)
+  {
+    ROS_ERROR_STREAM("Error while reading file: " << ex.what());
+    return {};
+  }
 }
 
 bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
-- 
2.43.0


From c77b210d23451b720a33a07be879e4dca2713faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 40/45] fix: report a missing data set instead of dereferencing
 it

multi_static_camera_extrinsic dereferenced the optional returned by
parseFromFile before checking whether it holds a data set.
---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 14a817e..c51ebf6 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -108,7 +108,7 @@ int main(int argc, char** argv)
       data_path[c] = get<std::string>(pnh, param_name);
 
       // Attempt to load the data set from the specified path
-      boost::optional<ExtrinsicDataSet> data_set = *parseFromFile(data_path[c]);
+      boost::optional<ExtrinsicDataSet> data_set = parseFromFile(data_path[c]);
       if (!data_set)
         throw std::runtime_error("Failed to parse data set from path = " + data_path[c]);
       maybe_data_set[c] = *data_set;
-- 
2.43.0


From e2867504e1f34ce8b15a53cd2cc4fc769daddeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 41/45] fix: show the reprojection on the image it belongs to

multi_static_camera_multi_step_extrinsic skips images not seen by all
cameras, but then indexed the images of the data set by the number of
the used view.
---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index e85653b..4b7b07f 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -145,6 +145,7 @@ int main(int argc, char** argv)
 
     // build problem
     problem_def.fix_first_camera = fix_first_camera;
+    std::vector<std::size_t> image_indices;
     for (std::size_t i = 0; i < corr_data_set.getImageCount(); ++i)
     {
       // Currently requires that an image is found by all cameras but it maybe should
@@ -153,6 +154,7 @@ int main(int argc, char** argv)
       {
         problem_def.base_to_target_guess.push_back(maybe_data_set[0].tool_poses[i] * wrist_to_target);
         problem_wrist_def.wrist_poses.push_back(maybe_data_set[0].tool_poses[i]);
+        image_indices.push_back(i);
         for (std::size_t c = 0; c < corr_data_set.getCameraCount(); ++c)
         {
           problem_def.image_observations[c].push_back(corr_data_set.getCorrespondenceSet(c, i));
@@ -238,8 +240,8 @@ int main(int argc, char** argv)
         corr_set.push_back(problem_def.image_observations[c][i]);
       }
 
-      printTitle("REPROJECT IMAGE " + std::to_string(i));
-      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[i], corr_set);
+      printTitle("REPROJECT IMAGE " + std::to_string(image_indices[i]));
+      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[image_indices[i]], corr_set);
     }
   }
   catch (const std::exception& ex)
-- 
2.43.0


From 2d2ba372e5ea22ff1c20b83ea7583a4fdb64ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 42/45] fix: read every image of the noise qualification

The static local kept the first image for all iterations, so the noise
of one and the same image was reported.
---
 rct_examples/src/tools/noise_qualification_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 97f6e7d..3168f2a 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -62,7 +62,7 @@ int main(int argc, char** argv)
       // Each entry should have an image path. This path is relative to the root_path directory!
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
-      static cv::Mat image = readImageOpenCV(image_name);
+      cv::Mat image = readImageOpenCV(image_name);
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From 3cd548d83a22246719180494b64b7903d2321e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 43/45] fix: refuse a noise qualification without any
 observation

When no image showed the target, noise_qualification_2d printed
undefined statistics and reported success.
---
 rct_examples/src/tools/noise_qualification_2d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 3168f2a..c39f8d1 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -96,6 +96,9 @@ int main(int argc, char** argv)
       problem_set.push_back(problem);
     }
 
+    if (problem_set.empty())
+      throw std::runtime_error("Failed to find the target in any of the images");
+
     // Perform the noise qualification
     PnPNoiseStat result = qualifyNoise2D(problem_set);
 
-- 
2.43.0


From 21f3c34edf8460d0b0fc23fb3c144526d378c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 44/45] fix: report a failure to save the collected data

The save service of the data collection node reported success although
the data set could not be written.
---
 rct_ros_tools/src/command_line_cal.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 16fca3b..4d062e6 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -182,8 +182,7 @@ struct DataCollection
     }
 
     ROS_INFO_STREAM("Saving data-set to " << save_dir_);
-    rct_ros_tools::saveToDirectory(save_dir_, data);
-    return true;
+    return rct_ros_tools::saveToDirectory(save_dir_, data);
   }
 
   ros::ServiceServer trigger_server;
-- 
2.43.0


From 74a7fafc7ea94eae721d400f5c1c462715eff93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 45/45] fix: leave out pictures whose homography error is
 undefined

---
 rct_examples/src/tools/camera_on_wrist_extrinsic.cpp | 2 +-
 rct_examples/src/tools/static_camera_extrinsic.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
index 96ad400..12eae0f 100644
--- a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
+++ b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
@@ -109,7 +109,7 @@ int main(int argc, char** argv)
             obs.correspondence_set.size(), obs.correspondence_set.size() / 3, RANDOM_SEED);
         Eigen::VectorXd homography_error =
             rct_optimizations::calculateHomographyError(obs.correspondence_set, random_sampler);
-        if (homography_error.array().mean() > homography_threshold)
+        if (!(homography_error.array().mean() <= homography_threshold))
           throw std::runtime_error("Homography error exceeds threshold (" +
                                    std::to_string(homography_error.array().mean()) + ")");
 
diff --git a/rct_examples/src/tools/static_camera_extrinsic.cpp b/rct_examples/src/tools/static_camera_extrinsic.cpp
index 630653a..89a2d4f 100644
--- a/rct_examples/src/tools/static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/static_camera_extrinsic.cpp
@@ -103,7 +103,7 @@ int main(int argc, char** argv)
             obs.correspondence_set.size(), obs.correspondence_set.size() / 3, RANDOM_SEED);
         Eigen::VectorXd homography_error =
             rct_optimizations::calculateHomographyError(obs.correspondence_set, random_sampler);
-        if (homography_error.array().mean() > homography_threshold)
+        if (!(homography_error.array().mean() <= homography_threshold))
           throw std::runtime_error("Homography error exceeds threshold (" +
                                    std::to_string(homography_error.array().mean()) + ")");
 
-- 
2.43.0

