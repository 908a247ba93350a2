From d2d26d7bef46be15e55b49463906a3be5c008742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 01/23] fix: roll sign of rot2rpy in gimbal lock at a pitch of
 -90 degrees

---
 ov_core/src/utils/quat_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/utils/quat_ops.h b/ov_core/src/utils/quat_ops.h
index 6b1e7c3..feea8c2 100644
--- a/ov_core/src/utils/quat_ops.h
+++ b/ov_core/src/utils/quat_ops.h
@@ -554,7 +554,7 @@ inline Eigen::Matrix<double, 3, 1> rot2rpy(const Eigen::Matrix<double, 3, 3> &ro
     rpy(0, 0) = atan2(rot(2, 1) / cos(rpy(1, 0)), rot(2, 2) / cos(rpy(1, 0)));
   } else {
     rpy(2, 0) = 0;
-    rpy(0, 0) = atan2(rot(0, 1), rot(1, 1));
+    rpy(0, 0) = atan2(-rot(1, 2), rot(1, 1));
   }
   return rpy;
 }
-- 
2.43.0


From 0b22f606a0988478d72368c069a27558e06c26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/23] fix: fisheye projection Jacobian was zero at the
 principal point

---
 ov_core/src/cam/CamEqui.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cam/CamEqui.h b/ov_core/src/cam/CamEqui.h
index df72717..6b14951 100644
--- a/ov_core/src/cam/CamEqui.h
+++ b/ov_core/src/cam/CamEqui.h
@@ -184,7 +184,7 @@ public:
 
     // Jacobian of "normalized" pixel to normalized pixel
     Eigen::Matrix<double, 2, 2> dxy_dxyn = Eigen::Matrix<double, 2, 2>::Zero();
-    dxy_dxyn << theta_d * inv_r, 0, 0, theta_d * inv_r;
+    dxy_dxyn << cdist, 0, 0, cdist;
 
     // Jacobian of "normalized" pixel to r
     Eigen::Matrix<double, 2, 1> dxy_dr = Eigen::Matrix<double, 2, 1>::Zero();
-- 
2.43.0


From 682499bc13404203ace4f14fc607c616612195f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 03/23] fix: first-estimate position of MSCKF and single
 inverse depth landmarks returned the current estimate

---
 ov_core/src/types/Landmark.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ov_core/src/types/Landmark.cpp b/ov_core/src/types/Landmark.cpp
index 4d20e4e..49466fa 100644
--- a/ov_core/src/types/Landmark.cpp
+++ b/ov_core/src/types/Landmark.cpp
@@ -46,15 +46,14 @@ Eigen::Matrix<double, 3, 1> Landmark::get_xyz(bool getfej) const {
   // CASE: Anchored MSCKF inverse depth feature representation
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH) {
     Eigen::Matrix<double, 3, 1> p_FinA;
-    Eigen::Matrix<double, 3, 1> p_invFinA = value();
+    Eigen::Matrix<double, 3, 1> p_invFinA = (getfej) ? fej() : value();
     p_FinA << (1 / p_invFinA(2)) * p_invFinA(0), (1 / p_invFinA(2)) * p_invFinA(1), 1 / p_invFinA(2);
     return p_FinA;
   }
 
   // CASE: Estimate single depth of the feature using the initial bearing
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
-    // if(getfej) return 1.0/fej()(0)*uv_norm_zero_fej;
-    return 1.0 / value()(0) * uv_norm_zero;
+    return (getfej) ? Eigen::Vector3d(1.0 / fej()(0) * uv_norm_zero_fej) : Eigen::Vector3d(1.0 / value()(0) * uv_norm_zero);
   }
 
   // Failure
-- 
2.43.0


From 54006dddf4fbfdcbbba62e8d786e0f12a95234d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 04/23] fix: disparity statistics of fewer than two
 displacements were not-a-number

---
 ov_core/src/feat/FeatureHelper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ov_core/src/feat/FeatureHelper.h b/ov_core/src/feat/FeatureHelper.h
index db35c55..b038383 100644
--- a/ov_core/src/feat/FeatureHelper.h
+++ b/ov_core/src/feat/FeatureHelper.h
@@ -91,6 +91,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
@@ -164,6 +165,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
-- 
2.43.0


From 7f7b8cb17966bafeef8394960191319f3ea97704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 05/23] fix: initializer IMU selection missed the end of a
 period that ends within or at the end of the last pair of readings

---
 ov_init/src/utils/helper.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ov_init/src/utils/helper.h b/ov_init/src/utils/helper.h
index d2c3f03..e6b0ee3 100644
--- a/ov_init/src/utils/helper.h
+++ b/ov_init/src/utils/helper.h
@@ -112,6 +112,13 @@ public:
       return prop_data;
     }
 
+    // If the period ends inside (or exactly at the end of) our last pair of readings then the above loop can stop before its end
+    // Thus we still need to append the measurement which is right at the ending time
+    if (prop_data.at(prop_data.size() - 1).timestamp != time1 && imu_data_tmp.at(imu_data_tmp.size() - 1).timestamp >= time1) {
+      ov_core::ImuData data = interpolate_data(imu_data_tmp.at(imu_data_tmp.size() - 2), imu_data_tmp.at(imu_data_tmp.size() - 1), time1);
+      prop_data.push_back(data);
+    }
+
     // Loop through and ensure we do not have an zero dt values
     // This would cause the noise covariance to be Infinity
     for (size_t i = 0; i < prop_data.size() - 1; i++) {
-- 
2.43.0


From 50e592d3831b6a4a0e3109647823316b949ddf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 06/23] fix: statistics accumulated the RMSE over
 recomputations, kept stale results when emptied, and had a not-a-number
 deviation for one value

---
 ov_eval/src/utils/Statistics.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ov_eval/src/utils/Statistics.h b/ov_eval/src/utils/Statistics.h
index bd4fe90..c6e1987 100644
--- a/ov_eval/src/utils/Statistics.h
+++ b/ov_eval/src/utils/Statistics.h
@@ -72,6 +72,9 @@ public:
   /// Will calculate all values from our vectors of information
   void calculate() {
 
+    // Reset any old results (we can be recomputed or reused after being cleared)
+    rmse = mean = median = std = max = min = ninetynine = 0.0;
+
     // Sort the data for easy finding of values
     std::vector<double> values_sorted = values;
     std::sort(values_sorted.begin(), values_sorted.end());
@@ -99,6 +102,7 @@ public:
 
     // Compute mean and rmse
     mean = 0;
+    rmse = 0;
     for (size_t i = 0; i < values_sorted.size(); i++) {
       assert(!std::isnan(values_sorted.at(i)));
       mean += values_sorted.at(i);
@@ -107,12 +111,12 @@ public:
     mean /= values_sorted.size();
     rmse = std::sqrt(rmse / values_sorted.size());
 
-    // Using mean, compute standard deviation
+    // Using mean, compute standard deviation (zero if we only have a single value)
     std = 0;
     for (size_t i = 0; i < values_sorted.size(); i++) {
       std += std::pow(values_sorted.at(i) - mean, 2);
     }
-    std = std::sqrt(std / (values_sorted.size() - 1));
+    std = (values_sorted.size() > 1) ? std::sqrt(std / (values_sorted.size() - 1)) : 0.0;
 
     // 99th percentile
     // TODO: is this correct?
-- 
2.43.0


From 80fab2ba8a9903e142cb5478cb44cb45c60fca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 07/23] fix: perform_association returned unmatched
 trajectories when fewer than three poses were associated

---
 ov_eval/src/alignment/AlignUtils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ov_eval/src/alignment/AlignUtils.cpp b/ov_eval/src/alignment/AlignUtils.cpp
index 1a54015..048fb2e 100644
--- a/ov_eval/src/alignment/AlignUtils.cpp
+++ b/ov_eval/src/alignment/AlignUtils.cpp
@@ -166,13 +166,6 @@ void AlignUtils::perform_association(double offset, double max_difference, std::
     }
   }
 
-  // Ensure that we have enough associations
-  if (est_times.size() < 3) {
-    PRINT_ERROR(RED "[ALIGN]: Was unable to associate groundtruth and estimate trajectories\n" RESET);
-    PRINT_ERROR(RED "[ALIGN]: %d total matches....\n" RESET, (int)est_times.size());
-    PRINT_ERROR(RED "[ALIGN]: Do the time of the files match??\n" RESET);
-    return;
-  }
   assert(est_times_temp.size() == gt_times_temp.size());
   // PRINT_DEBUG("[TRAJ]: %d est poses and %d gt poses => %d
   // matches\n",(int)est_times.size(),(int)gt_times.size(),(int)est_times_temp.size());
@@ -186,4 +179,11 @@ void AlignUtils::perform_association(double offset, double max_difference, std::
   gt_poses = gt_poses_temp;
   gt_covori = gt_covori_temp;
   gt_covpos = gt_covpos_temp;
+
+  // Ensure that we have enough associations
+  if (est_times.size() < 3) {
+    PRINT_ERROR(RED "[ALIGN]: Was unable to associate groundtruth and estimate trajectories\n" RESET);
+    PRINT_ERROR(RED "[ALIGN]: %d total matches....\n" RESET, (int)est_times.size());
+    PRINT_ERROR(RED "[ALIGN]: Do the time of the files match??\n" RESET);
+  }
 }
-- 
2.43.0


From 87544466dda7f53a769c39f68545bb40d3463d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 08/23] fix: timing, simulation and groundtruth files with
 blank lines were misread

---
 ov_core/src/utils/dataset_reader.h |  3 +++
 ov_eval/src/utils/Loader.cpp       | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/ov_core/src/utils/dataset_reader.h b/ov_core/src/utils/dataset_reader.h
index 01589e5..50b5d53 100644
--- a/ov_core/src/utils/dataset_reader.h
+++ b/ov_core/src/utils/dataset_reader.h
@@ -81,6 +81,9 @@ public:
 
     // Loop through each line in the file
     while (std::getline(file, line)) {
+      // Skip if we start with a comment or if this is a blank line
+      if (!line.find("#") || line.find_first_not_of(" \t\r") == std::string::npos)
+        continue;
       // Loop variables
       int i = 0;
       std::istringstream s(line);
diff --git a/ov_eval/src/utils/Loader.cpp b/ov_eval/src/utils/Loader.cpp
index d44b31d..6c59c30 100644
--- a/ov_eval/src/utils/Loader.cpp
+++ b/ov_eval/src/utils/Loader.cpp
@@ -194,6 +194,10 @@ void Loader::load_simulation(std::string path, std::vector<Eigen::VectorXd> &val
     if (!current_line.find("#"))
       continue;
 
+    // Skip if this is a blank line
+    if (current_line.find_first_not_of(" \t\r") == std::string::npos)
+      continue;
+
     // Loop variables
     std::istringstream s(current_line);
     std::string field;
@@ -273,6 +277,10 @@ void Loader::load_timing_flamegraph(std::string path, std::vector<std::string> &
       continue;
     }
 
+    // Skip if this is a blank line
+    if (current_line.find_first_not_of(" \t\r") == std::string::npos)
+      continue;
+
     // Loop variables
     std::istringstream s(current_line);
     std::string field;
@@ -337,6 +345,10 @@ void Loader::load_timing_percent(std::string path, std::vector<double> &times, s
     if (!current_line.find("#"))
       continue;
 
+    // Skip if this is a blank line
+    if (current_line.find_first_not_of(" \t\r") == std::string::npos)
+      continue;
+
     // Loop variables
     std::istringstream s(current_line);
     std::string field;
-- 
2.43.0


From 819881c98aad0b040a5c9d2e59e4ef33929024b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 09/23] fix: second preintegration model had a wrong sign in a
 velocity Jacobian column

---
 ov_core/src/cpi/CpiV2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cpi/CpiV2.cpp b/ov_core/src/cpi/CpiV2.cpp
index 10e2806..18e9a84 100644
--- a/ov_core/src/cpi/CpiV2.cpp
+++ b/ov_core/src/cpi/CpiV2.cpp
@@ -230,7 +230,7 @@ void CpiV2::feed_IMU(double t_0, double t_1, Eigen::Matrix<double, 3, 1> w_m_0,
       H_al * skew_x((J_save * e_3)) * g_tau;
   J_b.block(0, 0, 3, 1) +=
       (d_R_bw_1 * Beta_arg + R_tau12k * (df_3_dbw_1 * w_x - f_3 * e_1x + df_4_dbw_1 * w_x_2 - f_4 * (e_1x * w_x + w_x * e_1x))) * a_hat -
-      -H_be * skew_x((J_save * e_1)) * g_tau;
+      H_be * skew_x((J_save * e_1)) * g_tau;
   J_b.block(0, 1, 3, 1) +=
       (d_R_bw_2 * Beta_arg + R_tau12k * (df_3_dbw_2 * w_x - f_3 * e_2x + df_4_dbw_2 * w_x_2 - f_4 * (e_2x * w_x + w_x * e_2x))) * a_hat -
       H_be * skew_x((J_save * e_2)) * g_tau;
-- 
2.43.0


From 0172cdf91c71e14531c66f4735932e1d2bc3a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 10/23] fix: gradient of the generic prior factor was whitened
 with the wrong square root

---
 ov_init/src/ceres/Factor_GenericPrior.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_init/src/ceres/Factor_GenericPrior.cpp b/ov_init/src/ceres/Factor_GenericPrior.cpp
index 96fa034..1d803bd 100644
--- a/ov_init/src/ceres/Factor_GenericPrior.cpp
+++ b/ov_init/src/ceres/Factor_GenericPrior.cpp
@@ -65,7 +65,7 @@ Factor_GenericPrior::Factor_GenericPrior(const Eigen::MatrixXd &x_lin_, const st
   Eigen::LLT<Eigen::MatrixXd> lltOfI(prior_Info);
   sqrtI = lltOfI.matrixL().transpose();
   Eigen::MatrixXd I = Eigen::MatrixXd::Identity(prior_Info.rows(), prior_Info.rows());
-  b = sqrtI.triangularView<Eigen::Upper>().solve(I) * prior_grad;
+  b = sqrtI.transpose().triangularView<Eigen::Lower>().solve(I) * prior_grad;
 
   // Check that we have a valid matrix that we can get the information of
   if (std::isnan(prior_Info.norm()) || std::isnan(sqrtI.norm()) || std::isnan(b.norm())) {
-- 
2.43.0


From 9f648c014673e1ce2e75ad2318133e181abe386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 11/23] fix: rotation Jacobian of the preintegration factor had
 the wrong sign for relative rotations around a half turn

---
 ov_init/src/ceres/Factor_ImuCPIv1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ov_init/src/ceres/Factor_ImuCPIv1.cpp b/ov_init/src/ceres/Factor_ImuCPIv1.cpp
index aa459f1..d71d31f 100644
--- a/ov_init/src/ceres/Factor_ImuCPIv1.cpp
+++ b/ov_init/src/ceres/Factor_ImuCPIv1.cpp
@@ -154,6 +154,10 @@ bool Factor_ImuCPIv1::Evaluate(double const *const *parameters, double *residual
     Eigen::Matrix<double, 3, 3> eye = Eigen::MatrixXd::Identity(3, 3);
     Eigen::Matrix<double, 4, 1> q_meas_plus = ov_core::quat_multiply(ov_core::Inv(q_breve), q_b);
 
+    // q and -q are the same rotation, ensure q_1_to_2*q_meas_plus has the sign of the residual (differs for relative rotations around pi)
+    if (q_1_to_2(3, 0) * q_meas_plus(3, 0) - q_1_to_2.head(3).dot(q_meas_plus.head(3)) < 0)
+      q_meas_plus = -q_meas_plus;
+
     // Dtheta wrt theta 1
     Jacobian.block(0, 0, 3, 3) = -((q_1_to_2(3, 0) * eye - ov_core::skew_x(q_1_to_2.block(0, 0, 3, 1))) *
                                        (q_meas_plus(3, 0) * eye + ov_core::skew_x(q_meas_plus.block(0, 0, 3, 1))) -
-- 
2.43.0


From dd182e07fb3c7d01dbe4552398af6953b0819801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 12/23] fix: fresh state's inertial intrinsics are the identity
 for the rpng model (upper triangular, column-wise)

---
 ov_msckf/src/state/State.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/State.cpp b/ov_msckf/src/state/State.cpp
index f8c4612..4782fb6 100644
--- a/ov_msckf/src/state/State.cpp
+++ b/ov_msckf/src/state/State.cpp
@@ -53,7 +53,7 @@ State::State(StateOptions &options) {
   } else {
     // upper triangular of the matrix (column-wise)
     Eigen::Matrix<double, 6, 1> _imu_default = Eigen::Matrix<double, 6, 1>::Zero();
-    _imu_default << 1.0, 0.0, 0.0, 1.0, 0.0, 1.0;
+    _imu_default << 1.0, 0.0, 1.0, 0.0, 0.0, 1.0;
     _calib_imu_dw->set_value(_imu_default);
     _calib_imu_dw->set_fej(_imu_default);
     _calib_imu_da->set_value(_imu_default);
-- 
2.43.0


From a0a61942da530e9c5fe7725da18d297a103aa626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 13/23] fix: discrete propagation scales the gravity
 sensitivity's accelerometer term by the gyroscope intrinsics

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 47879ec..cf026f8 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -925,7 +925,7 @@ void Propagator::compute_F_and_G_discrete(std::shared_ptr<State> state, double d
   // begin to add the state transition matrix for the acc intrinsics Da part
   if (Da_id != -1) {
     Eigen::MatrixXd H_Da = compute_H_Da(state, a_uncorrected);
-    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Tg * R_atoI * H_Da;
+    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Dw * Tg * R_atoI * H_Da;
     F.block(p_id, Da_id, 3, state->_calib_imu_da->size()) = 0.5 * R_k.transpose() * dt * dt * R_atoI * H_Da;
     F.block(v_id, Da_id, 3, state->_calib_imu_da->size()) = R_k.transpose() * dt * R_atoI * H_Da;
     F.block(Da_id, Da_id, state->_calib_imu_da->size(), state->_calib_imu_da->size()).setIdentity();
-- 
2.43.0


From dce7bc5fe79225e0ef9d04d28ae8b14701055a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 14/23] fix: fast propagation applied the camera-imu time
 offset to the requested imu clock time

---
 ov_msckf/src/state/Propagator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index cf026f8..1f3e452 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -145,13 +145,14 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
     cache_state_time = state->_timestamp;
     cache_state_est = state->_imu->value();
     cache_state_covariance = StateHelper::get_marginal_covariance(state, {state->_imu});
-    cache_t_off = state->_calib_dt_CAMtoIMU->value()(0);
+    cache_t_off = (have_last_prop_time_offset) ? last_prop_time_offset : state->_calib_dt_CAMtoIMU->value()(0);
     cache_imu_valid = true;
   }
 
   // First lets construct an IMU vector of measurements we need
+  // The requested time is already in the IMU clock
   double time0 = cache_state_time + cache_t_off;
-  double time1 = timestamp + cache_t_off;
+  double time1 = timestamp;
   std::vector<ov_core::ImuData> prop_data;
   {
     std::lock_guard<std::mutex> lck(imu_data_mtx);
-- 
2.43.0


From a74e1c2b16ca58fdbdb5373b9ba9b608aaab3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 15/23] fix: covariance of the fast propagation ignored the imu
 intrinsics in its bias and noise Jacobians

---
 ov_msckf/src/state/Propagator.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 1f3e452..3901533 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -201,20 +201,22 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
     // TODO: currently this just does a quick discrete prediction using only the previous marg IMU uncertainty
     Eigen::Matrix<double, 15, 15> F = Eigen::Matrix<double, 15, 15>::Zero();
     F.block(0, 0, 3, 3) = exp_so3(-w_hat * dt);
-    F.block(0, 9, 3, 3).noalias() = -exp_so3(-w_hat * dt) * Jr_so3(-w_hat * dt) * dt;
+    F.block(0, 9, 3, 3) = -exp_so3(-w_hat * dt) * Jr_so3(-w_hat * dt) * dt * R_GYROtoIMU * Dw;
+    F.block(0, 12, 3, 3) = exp_so3(-w_hat * dt) * Jr_so3(-w_hat * dt) * dt * R_GYROtoIMU * Dw * Tg * R_ACCtoIMU * Da;
     F.block(9, 9, 3, 3).setIdentity();
     F.block(6, 0, 3, 3).noalias() = -R_Gtoi.transpose() * skew_x(a_hat * dt);
     F.block(6, 6, 3, 3).setIdentity();
-    F.block(6, 12, 3, 3) = -R_Gtoi.transpose() * dt;
+    F.block(6, 12, 3, 3) = -R_Gtoi.transpose() * dt * R_ACCtoIMU * Da;
     F.block(12, 12, 3, 3).setIdentity();
     F.block(3, 0, 3, 3).noalias() = -0.5 * R_Gtoi.transpose() * skew_x(a_hat * dt * dt);
     F.block(3, 6, 3, 3) = Eigen::Matrix3d::Identity() * dt;
-    F.block(3, 12, 3, 3) = -0.5 * R_Gtoi.transpose() * dt * dt;
+    F.block(3, 12, 3, 3) = -0.5 * R_Gtoi.transpose() * dt * dt * R_ACCtoIMU * Da;
     F.block(3, 3, 3, 3).setIdentity();
     Eigen::Matrix<double, 15, 12> G = Eigen::Matrix<double, 15, 12>::Zero();
-    G.block(0, 0, 3, 3) = -exp_so3(-w_hat * dt) * Jr_so3(-w_hat * dt) * dt;
-    G.block(6, 3, 3, 3) = -R_Gtoi.transpose() * dt;
-    G.block(3, 3, 3, 3) = -0.5 * R_Gtoi.transpose() * dt * dt;
+    G.block(0, 0, 3, 3) = F.block(0, 9, 3, 3);
+    G.block(0, 3, 3, 3) = F.block(0, 12, 3, 3);
+    G.block(6, 3, 3, 3) = F.block(6, 12, 3, 3);
+    G.block(3, 3, 3, 3) = F.block(3, 12, 3, 3);
     G.block(9, 6, 3, 3).setIdentity();
     G.block(12, 9, 3, 3).setIdentity();
 
-- 
2.43.0


From 263d9500a84b949cff6a9094ed2cdc97624389de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 16/23] fix: fast propagation kept using a state from before
 the filter moved while waiting for enough clones

---
 ov_msckf/src/core/VioManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 6a0d7b9..4a6e856 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -339,6 +339,7 @@ void VioManager::do_feature_propagate_update(const ov_core::CameraData &message)
   // NOTE: then no need to prop since we already are at the desired timestep
   if (state->_timestamp != message.timestamp) {
     propagator->propagate_and_clone(state, message.timestamp);
+    propagator->invalidate_cache();
   }
   rT3 = boost::posix_time::microsec_clock::local_time();
 
-- 
2.43.0


From 46a4f40035d218f02f2d4a18b4d1ee8cb4882f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 17/23] fix: report configuration values which are not of the
 type of the option

OpenCV converts text or a list into the largest number there is without failing, and a matrix with missing rows was filled with the identity, while parsing was still reported as successful.
---
 ov_core/src/utils/opencv_yaml_parse.h | 52 +++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/ov_core/src/utils/opencv_yaml_parse.h b/ov_core/src/utils/opencv_yaml_parse.h
index 3ee9814..5eb9e30 100644
--- a/ov_core/src/utils/opencv_yaml_parse.h
+++ b/ov_core/src/utils/opencv_yaml_parse.h
@@ -343,6 +343,37 @@ private:
     return found_node;
   }
 
+  /**
+   * @brief Checks that a node holds a value of the type requested.
+   * OpenCV does not fail if it does not (e.g. text read as a number gives the largest number there is), thus needs to be checked before.
+   * @param node OpenCV file node we will get the data from
+   * @return True if the node can be read as this type
+   */
+  static bool valid_type(const cv::FileNode &node, const int &) {
+    return node.isInt() || (node.isReal() && std::floor((double)node) == (double)node);
+  }
+  static bool valid_type(const cv::FileNode &node, const double &) { return node.isInt() || node.isReal(); }
+  static bool valid_type(const cv::FileNode &node, const std::string &) { return node.isString(); }
+  template <class T> static bool valid_type(const cv::FileNode &node, const std::vector<T> &) {
+    if (!node.isSeq())
+      return false;
+    for (const auto &item : node) {
+      if (!valid_type(item, T()))
+        return false;
+    }
+    return true;
+  }
+  template <int N> static bool valid_type(const cv::FileNode &node, const Eigen::Matrix<double, N, N> &) {
+    if (!node.isSeq() || (int)node.size() != N)
+      return false;
+    for (const auto &row : node) {
+      if ((int)row.size() != N || !valid_type(row, std::vector<double>()))
+        return false;
+    }
+    return true;
+  }
+  template <class T> static bool valid_type(const cv::FileNode &, const T &) { return true; }
+
   /**
    * @brief This function will try to get the requested parameter from our config.
    *
@@ -367,6 +398,13 @@ private:
       return;
     }
 
+    // Check that the value is what we expect it to be
+    if (!valid_type(file_node[node_name], node_result)) {
+      PRINT_WARNING(YELLOW "the node %s has an invalid value for type [%s]\n" RESET, node_name.c_str(), typeid(node_result).name());
+      all_params_found_successfully = false;
+      return;
+    }
+
     // Now try to get it from the config
     try {
       file_node[node_name] >> node_result;
@@ -458,6 +496,13 @@ private:
       return;
     }
 
+    // Check that the value is what we expect it to be
+    if (!valid_type(file_node[node_name], node_result)) {
+      PRINT_WARNING(YELLOW "the node %s has an invalid value for type [%s]\n" RESET, node_name.c_str(), typeid(node_result).name());
+      all_params_found_successfully = false;
+      return;
+    }
+
     // Now try to get it from the config
     node_result = Eigen::Matrix3d::Identity();
     try {
@@ -508,6 +553,13 @@ private:
       return;
     }
 
+    // Check that the value is what we expect it to be
+    if (!valid_type(file_node[node_name_local], node_result)) {
+      PRINT_WARNING(YELLOW "the node %s has an invalid value for type [%s]\n" RESET, node_name_local.c_str(), typeid(node_result).name());
+      all_params_found_successfully = false;
+      return;
+    }
+
     // Now try to get it from the config
     node_result = Eigen::Matrix4d::Identity();
     try {
-- 
2.43.0


From 491c457245388287e7d22da4ad11c77efcd9a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 18/23] fix: report unknown camera distortion models

Any other name was silently used as the radtan model.
---
 ov_init/src/init/InertialInitializerOptions.h | 6 +++++-
 ov_msckf/src/core/VioManagerOptions.h         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ov_init/src/init/InertialInitializerOptions.h b/ov_init/src/init/InertialInitializerOptions.h
index 47d1c3b..315dc06 100644
--- a/ov_init/src/init/InertialInitializerOptions.h
+++ b/ov_init/src/init/InertialInitializerOptions.h
@@ -307,9 +307,13 @@ struct InertialInitializerOptions {
         if (dist_model == "equidistant") {
           camera_intrinsics.insert({i, std::make_shared<ov_core::CamEqui>(matrix_wh.at(0), matrix_wh.at(1))});
           camera_intrinsics.at(i)->set_value(cam_calib);
-        } else {
+        } else if (dist_model == "radtan") {
           camera_intrinsics.insert({i, std::make_shared<ov_core::CamRadtan>(matrix_wh.at(0), matrix_wh.at(1))});
           camera_intrinsics.at(i)->set_value(cam_calib);
+        } else {
+          PRINT_ERROR(RED "InertialInitializer(): invalid distortion model for cam%d: %s\n" RESET, i, dist_model.c_str());
+          PRINT_ERROR(RED "please select a valid model: radtan, equidistant\n" RESET);
+          std::exit(EXIT_FAILURE);
         }
         camera_extrinsics.insert({i, cam_eigen});
       }
diff --git a/ov_msckf/src/core/VioManagerOptions.h b/ov_msckf/src/core/VioManagerOptions.h
index 0df7d15..10d6802 100644
--- a/ov_msckf/src/core/VioManagerOptions.h
+++ b/ov_msckf/src/core/VioManagerOptions.h
@@ -272,9 +272,13 @@ struct VioManagerOptions {
         if (dist_model == "equidistant") {
           camera_intrinsics.insert({i, std::make_shared<ov_core::CamEqui>(matrix_wh.at(0), matrix_wh.at(1))});
           camera_intrinsics.at(i)->set_value(cam_calib);
-        } else {
+        } else if (dist_model == "radtan") {
           camera_intrinsics.insert({i, std::make_shared<ov_core::CamRadtan>(matrix_wh.at(0), matrix_wh.at(1))});
           camera_intrinsics.at(i)->set_value(cam_calib);
+        } else {
+          PRINT_ERROR(RED "VioManager(): invalid distortion model for cam%d: %s\n" RESET, i, dist_model.c_str());
+          PRINT_ERROR(RED "please select a valid model: radtan, equidistant\n" RESET);
+          std::exit(EXIT_FAILURE);
         }
         camera_extrinsics.insert({i, cam_eigen});
       }
-- 
2.43.0


From e0ae77599b97f283fe6de03643ed9ad483d48400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 19/23] fix: report unknown feature representations

---
 ov_msckf/src/state/StateOptions.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ov_msckf/src/state/StateOptions.h b/ov_msckf/src/state/StateOptions.h
index 95836e9..a13be40 100644
--- a/ov_msckf/src/state/StateOptions.h
+++ b/ov_msckf/src/state/StateOptions.h
@@ -136,6 +136,12 @@ struct StateOptions {
       std::string rep3 = ov_type::LandmarkRepresentation::as_string(feat_rep_aruco);
       parser->parse_config("feat_rep_aruco", rep3);
       feat_rep_aruco = ov_type::LandmarkRepresentation::from_string(rep3);
+      if (feat_rep_msckf == ov_type::LandmarkRepresentation::Representation::UNKNOWN ||
+          feat_rep_slam == ov_type::LandmarkRepresentation::Representation::UNKNOWN ||
+          feat_rep_aruco == ov_type::LandmarkRepresentation::Representation::UNKNOWN) {
+        PRINT_ERROR(RED "invalid feature representation: %s (msckf), %s (slam), %s (aruco)\n" RESET, rep1.c_str(), rep2.c_str(), rep3.c_str());
+        std::exit(EXIT_FAILURE);
+      }
 
       // IMU model
       std::string imu_model_str = "kalibr";
-- 
2.43.0


From b69b8f885a2e3f2fbfc23b1f282f856e2492d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 20/23] fix: report inertial intrinsics which cannot be
 inverted

---
 ov_msckf/src/core/VioManagerOptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/core/VioManagerOptions.h b/ov_msckf/src/core/VioManagerOptions.h
index 10d6802..c76e945 100644
--- a/ov_msckf/src/core/VioManagerOptions.h
+++ b/ov_msckf/src/core/VioManagerOptions.h
@@ -324,7 +324,7 @@ struct VioManagerOptions {
       Eigen::Matrix3d Da = Ta.colPivHouseholderQr().solve(Eigen::Matrix3d::Identity());
       Eigen::Matrix3d R_ACCtoIMU = R_IMUtoACC.transpose();
       Eigen::Matrix3d R_GYROtoIMU = R_IMUtoGYRO.transpose();
-      if (std::isnan(Tw.norm()) || std::isnan(Dw.norm())) {
+      if (std::isnan(Tw.norm()) || std::isnan(Dw.norm()) || !(Tw * Dw).isIdentity(1e-6)) {
         std::stringstream ss;
         ss << "gyroscope has bad intrinsic values!" << std::endl;
         ss << "Tw - " << std::endl << Tw << std::endl << std::endl;
@@ -332,7 +332,7 @@ struct VioManagerOptions {
         PRINT_DEBUG(RED "" RESET, ss.str().c_str());
         std::exit(EXIT_FAILURE);
       }
-      if (std::isnan(Ta.norm()) || std::isnan(Da.norm())) {
+      if (std::isnan(Ta.norm()) || std::isnan(Da.norm()) || !(Ta * Da).isIdentity(1e-6)) {
         std::stringstream ss;
         ss << "accelerometer has bad intrinsic values!" << std::endl;
         ss << "Ta - " << std::endl << Ta << std::endl << std::endl;
-- 
2.43.0


From fe5d24c8d5bc2e7d0ac92484e332fafe7aee7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 21/23] fix: report camera and bias lists with a wrong number
 of entries

Too few threw an exception out of the parser (an abort where assertions are on), any further ones were ignored.
---
 ov_init/src/init/InertialInitializerOptions.h | 12 ++++++++++++
 ov_msckf/src/core/VioManagerOptions.h         |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/ov_init/src/init/InertialInitializerOptions.h b/ov_init/src/init/InertialInitializerOptions.h
index 315dc06..0648d7e 100644
--- a/ov_init/src/init/InertialInitializerOptions.h
+++ b/ov_init/src/init/InertialInitializerOptions.h
@@ -144,6 +144,10 @@ struct InertialInitializerOptions {
       std::vector<double> bias_a = {0, 0, 0};
       parser->parse_config("init_dyn_bias_g", bias_g);
       parser->parse_config("init_dyn_bias_a", bias_a);
+      if (bias_g.size() != 3 || bias_a.size() != 3) {
+        PRINT_ERROR(RED "expected 3 values for each of the initial biases\n" RESET);
+        std::exit(EXIT_FAILURE);
+      }
       init_dyn_bias_g << bias_g.at(0), bias_g.at(1), bias_g.at(2);
       init_dyn_bias_a << bias_a.at(0), bias_a.at(1), bias_a.at(2);
     }
@@ -280,6 +284,10 @@ struct InertialInitializerOptions {
         std::vector<double> cam_calib2 = {0, 0, 0, 0};
         parser->parse_external("relative_config_imucam", "cam" + std::to_string(i), "intrinsics", cam_calib1);
         parser->parse_external("relative_config_imucam", "cam" + std::to_string(i), "distortion_coeffs", cam_calib2);
+        if (cam_calib1.size() != 4 || cam_calib2.size() != 4) {
+          PRINT_ERROR(RED "InertialInitializer(): expected 4 intrinsics and 4 distortion coefficients for cam%d\n" RESET, i);
+          std::exit(EXIT_FAILURE);
+        }
         Eigen::VectorXd cam_calib = Eigen::VectorXd::Zero(8);
         cam_calib << cam_calib1.at(0), cam_calib1.at(1), cam_calib1.at(2), cam_calib1.at(3), cam_calib2.at(0), cam_calib2.at(1),
             cam_calib2.at(2), cam_calib2.at(3);
@@ -291,6 +299,10 @@ struct InertialInitializerOptions {
         // FOV / resolution
         std::vector<int> matrix_wh = {1, 1};
         parser->parse_external("relative_config_imucam", "cam" + std::to_string(i), "resolution", matrix_wh);
+        if (matrix_wh.size() != 2) {
+          PRINT_ERROR(RED "InertialInitializer(): expected a width and a height as resolution for cam%d\n" RESET, i);
+          std::exit(EXIT_FAILURE);
+        }
         matrix_wh.at(0) /= (downsample_cameras) ? 2.0 : 1.0;
         matrix_wh.at(1) /= (downsample_cameras) ? 2.0 : 1.0;
 
diff --git a/ov_msckf/src/core/VioManagerOptions.h b/ov_msckf/src/core/VioManagerOptions.h
index c76e945..023fa69 100644
--- a/ov_msckf/src/core/VioManagerOptions.h
+++ b/ov_msckf/src/core/VioManagerOptions.h
@@ -245,6 +245,10 @@ struct VioManagerOptions {
         std::vector<double> cam_calib2 = {0, 0, 0, 0};
         parser->parse_external("relative_config_imucam", "cam" + std::to_string(i), "intrinsics", cam_calib1);
         parser->parse_external("relative_config_imucam", "cam" + std::to_string(i), "distortion_coeffs", cam_calib2);
+        if (cam_calib1.size() != 4 || cam_calib2.size() != 4) {
+          PRINT_ERROR(RED "VioManager(): expected 4 intrinsics and 4 distortion coefficients for cam%d\n" RESET, i);
+          std::exit(EXIT_FAILURE);
+        }
         Eigen::VectorXd cam_calib = Eigen::VectorXd::Zero(8);
         cam_calib << cam_calib1.at(0), cam_calib1.at(1), cam_calib1.at(2), cam_calib1.at(3), cam_calib2.at(0), cam_calib2.at(1),
             cam_calib2.at(2), cam_calib2.at(3);
@@ -256,6 +260,10 @@ struct VioManagerOptions {
         // FOV / resolution
         std::vector<int> matrix_wh = {1, 1};
         parser->parse_external("relative_config_imucam", "cam" + std::to_string(i), "resolution", matrix_wh);
+        if (matrix_wh.size() != 2) {
+          PRINT_ERROR(RED "VioManager(): expected a width and a height as resolution for cam%d\n" RESET, i);
+          std::exit(EXIT_FAILURE);
+        }
         matrix_wh.at(0) /= (downsample_cameras) ? 2.0 : 1.0;
         matrix_wh.at(1) /= (downsample_cameras) ? 2.0 : 1.0;
 
-- 
2.43.0


From 64bd9f5ddbdeaed3a1d83886586d6f022967f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 22/23] fix: images from before the filter's clock moved the
 clock back in zero velocity updates and disturbed the tracker

---
 ov_msckf/src/core/VioManager.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 4a6e856..faf68ec 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -194,6 +194,12 @@ void VioManager::feed_measurement_simulation(double timestamp, const std::vector
   // Start timing
   rT1 = boost::posix_time::microsec_clock::local_time();
 
+  // Images from before the current state should have no effect, thus they also should not reach the tracker or the zero velocity update
+  if (is_initialized_vio && state->_timestamp > timestamp) {
+    PRINT_WARNING(YELLOW "image received out of order, unable to do anything (prop dt = %3f)\n" RESET, (timestamp - state->_timestamp));
+    return;
+  }
+
   // Check if we actually have a simulated tracker
   // If not, recreate and re-cast the tracker to our simulation tracker
   std::shared_ptr<TrackSIM> trackSIM = std::dynamic_pointer_cast<TrackSIM>(trackFEATS);
@@ -265,6 +271,13 @@ void VioManager::track_image_and_update(const ov_core::CameraData &message_const
     assert(message_const.sensor_ids.at(i) != message_const.sensor_ids.at(i + 1));
   }
 
+  // Images from before the current state should have no effect, thus they also should not reach the tracker or the zero velocity update
+  if (is_initialized_vio && state->_timestamp > message_const.timestamp) {
+    PRINT_WARNING(YELLOW "image received out of order, unable to do anything (prop dt = %3f)\n" RESET,
+                  (message_const.timestamp - state->_timestamp));
+    return;
+  }
+
   // Downsample if we are downsampling
   ov_core::CameraData message = message_const;
   for (size_t i = 0; i < message.sensor_ids.size() && params.downsample_cameras; i++) {
-- 
2.43.0


From 6f7486f217c81526a95aef931ade21ddde071f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 23/23] fix: feature ids of several cameras tracked separately
 depended on the timing of threads

---
 ov_core/src/track/TrackDescriptor.cpp | 9 ++++-----
 ov_core/src/track/TrackKLT.cpp        | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/ov_core/src/track/TrackDescriptor.cpp b/ov_core/src/track/TrackDescriptor.cpp
index 915873d..73fb39d 100644
--- a/ov_core/src/track/TrackDescriptor.cpp
+++ b/ov_core/src/track/TrackDescriptor.cpp
@@ -49,11 +49,10 @@ void TrackDescriptor::feed_new_camera(const CameraData &message) {
   } else if (num_images == 2 && use_stereo) {
     feed_stereo(message, 0, 1);
   } else if (!use_stereo) {
-    parallel_for_(cv::Range(0, (int)num_images), LambdaBody([&](const cv::Range &range) {
-                    for (int i = range.start; i < range.end; i++) {
-                      feed_monocular(message, i);
-                    }
-                  }));
+    // NOTE: cameras share the feature id counter, thus do them in order so that ids do not depend on the timing of threads
+    for (size_t i = 0; i < num_images; i++) {
+      feed_monocular(message, i);
+    }
   } else {
     PRINT_ERROR(RED "[ERROR]: invalid number of images passed %zu, we only support mono or stereo tracking", num_images);
     std::exit(EXIT_FAILURE);
diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index d2fe388..d485362 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -82,11 +82,10 @@ void TrackKLT::feed_new_camera(const CameraData &message) {
   } else if (num_images == 2 && use_stereo) {
     feed_stereo(message, 0, 1);
   } else if (!use_stereo) {
-    parallel_for_(cv::Range(0, (int)num_images), LambdaBody([&](const cv::Range &range) {
-                    for (int i = range.start; i < range.end; i++) {
-                      feed_monocular(message, i);
-                    }
-                  }));
+    // NOTE: cameras share the feature id counter, thus do them in order so that ids do not depend on the timing of threads
+    for (size_t i = 0; i < num_images; i++) {
+      feed_monocular(message, i);
+    }
   } else {
     PRINT_ERROR(RED "[ERROR]: invalid number of images passed %zu, we only support mono or stereo tracking", num_images);
     std::exit(EXIT_FAILURE);
-- 
2.43.0

