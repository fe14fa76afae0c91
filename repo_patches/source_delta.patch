From 752c1418adacf1e275e068e9cfd04f6450e6e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 01/34] fix: data loader starts its time line at the first
 message

Clear(), which the constructor calls, set the offset to -1 instead of the NAN
that the calibration looks for, so that every time stamp came out one second
late and was never based on the first message.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..f037041 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -8,7 +8,7 @@ namespace ESKF_VIO_BACKEND {
     void DataLoader::Clear(void) {
         this->featMeas.clear();
         this->imuMeas.clear();
-        this->timeStampOffset = static_cast<fp64>(-1);
+        this->timeStampOffset = NAN;
     }
 
 
-- 
2.43.0


From 1d05f2819db2f59fc3588f35e7c32fc53472f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 02/34] fix: data loader remembers time stamps per loader, and
 only accepted ones

The last time stamp was a static variable of the function: shared by all
loaders of the process, kept over Clear(), and overwritten by rejected
messages, so that after 10, 5 the stamp 7 was accepted out of order.
---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..f103f12 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 最近一次被接受的数据的时间戳
+        fp64 lastFeatTimeStamp = NAN;
+        fp64 lastImuTimeStamp = NAN;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index f037041..6c08837 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -9,6 +9,8 @@ namespace ESKF_VIO_BACKEND {
         this->featMeas.clear();
         this->imuMeas.clear();
         this->timeStampOffset = NAN;
+        this->lastFeatTimeStamp = NAN;
+        this->lastImuTimeStamp = NAN;
     }
 
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (std::isnan(this->lastFeatTimeStamp) || newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (std::isnan(this->lastImuTimeStamp) || newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        lastTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From e388e1b8e3a72735e8b4ea5bb9e1edcf594820eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 03/34] fix: packed pop allocates its output as the single pop
 does

PopPackedMessage dereferenced a null output pointer.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 6c08837..0ef1a9d 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -90,6 +90,10 @@ namespace ESKF_VIO_BACKEND {
 
     /* 仅当 features message 存在时，按时间戳输出下一捆数据 */
     bool DataLoader::PopPackedMessage(std::shared_ptr<CombinedMessage> &output) {
+        if (output == nullptr) {
+            std::shared_ptr<CombinedMessage> msg(new CombinedMessage());
+            output = msg;
+        }
         output->Clear();
         // 如果队列为空，则返回 false
         if (this->imuMeas.empty() || this->featMeas.empty()) {
-- 
2.43.0


From 3bd8b9ee37db55af55d4c55603e2e9c2664213cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 04/34] fix: load only complete config matrices, within their
 size

---
 eskf_vio_backend/src/config/config.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..ab702d3 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -116,13 +116,13 @@ namespace ESKF_VIO_BACKEND {
         std::string oneLine;
         mat.resize(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                RETURN_FALSE_IF(!(matData >> mat(row, col)));
             }
             ++row;
         }
-        return true;
+        return row == rows;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1c5ee2c0ea0e46bed6778c300037a6ad2b7ded99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 05/34] fix: keep observations with their frame when a track is
 interrupted or repeated

---
 .../src/data_manager/vision_data/feature_manager.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..4c51342 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,8 +56,20 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有任何观测的特征点，视为在此帧中没有被追踪到
+            if (newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
+                // 同一帧内重复出现的特征点，仅保留首个观测
+                if (it->second->FinalFrameID() >= frameID) {
+                    continue;
+                }
+                // 追踪曾经中断时，用空观测补齐中断期间的帧，保证观测和帧 ID 一一对应
+                while (it->second->FinalFrameID() + 1 < frameID) {
+                    it->second->observes.emplace_back(new FeatureObserve());
+                }
                 // 对应特征点已经存在时，直接添加观测
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
-- 
2.43.0


From caf0ef69a5d017b6a232883ff65e7da13142d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 06/34] fix: compare the mean parallax with its key frame
 threshold

---
 .../src/data_manager/vision_data/frame_manager.cpp             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
index cb2a539..94d7312 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
@@ -196,6 +196,9 @@ namespace ESKF_VIO_BACKEND {
         if (trackedNum < this->minKeyframeTrackedFeatureNum) {
             return true;
         }
+        if (parallax > this->minKeyframeMeanParallax) {
+            return true;
+        }
         if (translation > this->maxKeyframeTranslation) {
             return true;
         }
-- 
2.43.0


From 962f660d9448522574f999255bf2d89a0683290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 07/34] fix: level the initial attitude exactly, also for large
 or no tilt

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..cb25cc2 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -18,13 +18,8 @@ namespace ESKF_VIO_BACKEND {
                     " is not equal to gravity, attitude estimator init failed.");
                 return false;
             }
-            // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            // 将量测到的重力加速度方向旋转到 w 系的重力加速度方向
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From f4220b73ff39aaf58e718fd4898f49db1a71e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 08/34] fix: integrate the attitude in the direction of the
 body rate

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index cb25cc2..9d7390d 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From a9911e6a6d03c6dffdff54a1fb45f55657d88108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 09/34] fix: attitude survives a measurement without specific
 force

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 9d7390d..31b7655 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -41,7 +41,7 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
+            Vector3 acc_b_measure = accel.normalized();    // 加速度为零时，没有可用的修正
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
-- 
2.43.0


From e9a03f9d63c23dc74b14a52152c48139797ef94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 10/34] fix: find the attitude of a single later item

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 31b7655..fcf7f6d 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -73,7 +73,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // 最小的时间戳也大于目标时间戳
-        if (this->items.size() > 1 && this->items.front()->timeStamp >= timeStamp) {
+        if (this->items.front()->timeStamp >= timeStamp) {
             if (this->items.front()->timeStamp - timeStamp < threshold) {
                 atti = this->items.front()->q_wb;
                 return true;
-- 
2.43.0


From 7a1c473c391386b83ec059d1f5e4f973a3296a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 11/34] fix: stop cleaning attitude items when none is left

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index fcf7f6d..bd2b710 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -116,7 +116,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        while (!this->items.empty() && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From 0cb7a2e71c4a0040bb18231c3e8b73f3b9e9189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 12/34] fix: attitude items hold the raw measurement, whose
 bias the propagator removes

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bd2b710..e5a56bb 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -23,8 +23,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -36,15 +36,15 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
             Vector3 acc_b_measure = accel.normalized();    // 加速度为零时，没有可用的修正
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From 3e359f7d479c0a8fcf618a8735c271935411f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 13/34] fix: iterative triangulation anchors its inverse depth
 in the first camera

---
 .../src/geometry/trianglation.cpp             | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 39f64af..db1f20e 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -54,10 +54,15 @@ namespace ESKF_VIO_BACKEND {
                                           const std::vector<Vector3> &p_wc,
                                           const std::vector<Vector2> &norm,
                                           Vector3 &p_w) {
-        Vector3 solution(p_w(0) / p_w(2), p_w(1) / p_w(2), 1.0 / p_w(2));
         uint32_t total_poses = q_wc.size();
+        if (total_poses == 0) {
+            return false;
+        }
+        // The inverse depth is that in the first camera frame, not in the world frame, where it can be anything.
+        Vector3 p_c0 = q_wc[0].inverse() * (p_w - p_wc[0]);
+        Vector3 solution(p_c0(0) / p_c0(2), p_c0(1) / p_c0(2), 1.0 / p_c0(2));
 
-        //from world2camera  -> camera2world
+        // from first camera to each camera
         std::vector<Quaternion> q_cw;
         std::vector<Vector3> p_cw;
 
@@ -72,9 +77,9 @@ namespace ESKF_VIO_BACKEND {
         // Compute the initial cost.
         Scalar total_cost = 0.0;
         for (uint32_t i = 0; i < total_poses; ++i) {
-            q_cw.emplace_back(q_wc[i].inverse());
-            p_cw.emplace_back(q_wc[i].inverse() * - p_wc[i]);
-            total_cost += ComputeResidual(q_cw[i], p_cw[i], p_w, norm[i]);
+            q_cw.emplace_back(q_wc[i].inverse() * q_wc[0]);
+            p_cw.emplace_back(q_wc[i].inverse() * (p_wc[0] - p_wc[i]));
+            total_cost += ComputeResidual(q_cw[i], p_cw[i], p_c0, norm[i]);
         }
 
         // Outer loop.
@@ -105,13 +110,13 @@ namespace ESKF_VIO_BACKEND {
                 Matrix33 damper = lambda * Matrix33::Identity();
                 Vector3 delta = (A + damper).ldlt().solve(b);
                 Vector3 new_solution = solution - delta;
-                p_w = Vector3(new_solution(0) / new_solution(2),
-                              new_solution(1) / new_solution(2),
-                              1.0 / new_solution(2));
+                p_c0 = Vector3(new_solution(0) / new_solution(2),
+                               new_solution(1) / new_solution(2),
+                               1.0 / new_solution(2));
                 delta_norm = delta.norm();
                 Scalar new_cost = 0.0;
                 for (uint32_t i = 0; i < total_poses; ++i) {
-                    new_cost += this->ComputeResidual(q_cw[i], p_cw[i], p_w, norm[i]);
+                    new_cost += this->ComputeResidual(q_cw[i], p_cw[i], p_c0, norm[i]);
                 }
                 if (new_cost < total_cost) {
                     is_cost_reduced = true;
@@ -120,7 +125,6 @@ namespace ESKF_VIO_BACKEND {
                     lambda = lambda / 10 > 1e-10 ? lambda / 10 : 1e-10;
                 } else {
                     is_cost_reduced = false;
-                    p_w = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));
                     lambda = lambda * 10 < 1e12 ? lambda * 10 : 1e12;
                 }
             } while (inner_loop_cntr++ < INNER_LOOP_MAX_ITER && !is_cost_reduced);
@@ -129,7 +133,8 @@ namespace ESKF_VIO_BACKEND {
 
         // Covert the feature position from inverse depth
         // representation to its 3d coordinate.
-        p_w = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));
+        p_c0 = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));
+        p_w = q_wc[0] * p_c0 + p_wc[0];
         // TODO: when to return false?
         return true;
     }
-- 
2.43.0


From 349cba40d0eb13848a8bc549f7b785ddddf289c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 14/34] fix: PnP refuses a step whose length overflows

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..29b5c41 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -51,7 +51,7 @@ namespace ESKF_VIO_BACKEND {
             // 求解高斯牛顿增量方程
             dx = H.ldlt().solve(b);
             Scalar norm_dx = dx.norm();
-            if (std::isnan(norm_dx) == true) {
+            if (std::isfinite(norm_dx) == false) {
                 return false;
             }
 
@@ -212,7 +212,7 @@ namespace ESKF_VIO_BACKEND {
             // 求解高斯牛顿增量方程
             dx = H.ldlt().solve(b);
             Scalar norm_dx = dx.norm();
-            if (std::isnan(norm_dx) == true) {
+            if (std::isfinite(norm_dx) == false) {
                 return false;
             }
 
-- 
2.43.0


From 50fd3f01f9450dfeb2732b4d4fe4babeeab44a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 15/34] fix: RANSAC refuses fewer points than it samples
 instead of looping forever

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 29b5c41..7d59afb 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,7 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
-- 
2.43.0


From cc96f576365332d32d041f07257e3995fd6ccc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 16/34] fix: RANSAC inlier flags do not depend on what the
 vector held before

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 7d59afb..3084e4d 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -152,7 +152,7 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), true);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-- 
2.43.0


From a8edb1cdab801cb338ea915ecba05334a5f46b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 17/34] fix: RANSAC returns its best model, not the one it
 tried last

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 3084e4d..f47071a 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -140,6 +140,8 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
-- 
2.43.0


From 73d807041805d8ae4c9417da70a33a58bebca2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 18/34] fix: RANSAC starts every sample from the given pose, so
 that a diverged one cannot trap it

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index f47071a..1486ab4 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -92,6 +92,8 @@ namespace ESKF_VIO_BACKEND {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
+        const Quaternion init_q_wc = q_wc;
+        const Vector3 init_p_wc = p_wc;
         Quaternion best_q_wc = q_wc;
         Vector3 best_p_wc = p_wc;
         uint32_t best_score = 0;
@@ -116,8 +118,8 @@ namespace ESKF_VIO_BACKEND {
                 subPts2d.emplace_back(pts_2d[*it]);
             }
             // 代入 PnP 模型，计算模型参数（这里如果能换成 P3P 模型会更好）
-            q_wc = best_q_wc;
-            p_wc = best_p_wc;
+            q_wc = init_q_wc;
+            p_wc = init_p_wc;
             this->EstimatePose(subPts3d, subPts2d, q_wc, p_wc);
             // 将模型代入所有点对，计算得分
             score = 0;
-- 
2.43.0


From 8d133728e03274c9824fa4ef6aa9b95267e7aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 19/34] fix: rotation magnitude of (nearly) no rotation is
 zero, not NaN

---
 eskf_vio_backend/include/utility/math_lib.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 26bd13f..265af17 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -92,10 +92,10 @@ namespace ESKF_VIO_BACKEND {
 
         /* 计算旋转误差的量级，输出单位为 rad 的误差角 */
         static Scalar ComputeRotationMagnitude(Matrix33 &delta_R) {
-            Scalar magnitude = std::fabs(std::acos(
-                (delta_R.trace() - Scalar(1.0)) / Scalar(2.0)
-            ));
-            return magnitude;
+            // 舍入误差可能使余弦值略微超出 [-1, 1]
+            Scalar cosine = (delta_R.trace() - Scalar(1.0)) / Scalar(2.0);
+            cosine = std::min(std::max(cosine, Scalar(-1.0)), Scalar(1.0));
+            return std::fabs(std::acos(cosine));
         }
         static Scalar ComputeRotationMagnitude(Quaternion &delta_q) {
             Matrix33 delta_R(delta_q);
-- 
2.43.0


From 32b8dd4bfabc028b4baf090f9e6209d11f65a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 20/34] fix: rotation magnitude of a rotation vector takes a
 unit quaternion

---
 eskf_vio_backend/include/utility/math_lib.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 265af17..23444f0 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -107,6 +107,7 @@ namespace ESKF_VIO_BACKEND {
                 Scalar(0.5) * delta_r(0),
                 Scalar(0.5) * delta_r(1),
                 Scalar(0.5) * delta_r(2));
+            delta_q.normalize();
             return ComputeRotationMagnitude(delta_q);
         }
 
-- 
2.43.0


From d37930dbbfae736fa10fb96c3dfca73a5e08ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 21/34] fix: euler angles at the pitch singularity are finite

---
 eskf_vio_backend/include/utility/math_lib.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 23444f0..6f02b0a 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -123,7 +123,8 @@ namespace ESKF_VIO_BACKEND {
             Vector3 pry;    // pitch, roll, yaw
             Matrix33 R(q_wb.inverse());
             pry.x() = std::atan2(R(1, 2), R(2, 2)) * static_cast<Scalar>(57.295779579);
-            pry.y() = std::asin(- R(0, 2)) * static_cast<Scalar>(57.295779579);
+            // 舍入误差可能使正弦值略微超出 [-1, 1]
+            pry.y() = std::asin(std::min(std::max(- R(0, 2), Scalar(-1.0)), Scalar(1.0))) * static_cast<Scalar>(57.295779579);
             pry.z() = std::atan2(R(0, 1), R(0, 0)) * static_cast<Scalar>(57.295779579);
             return pry;
         }
-- 
2.43.0


From 1f55cf6db15db94a9420ba8674031e05ebb7180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 22/34] fix: an image updates the propagated state nearest to
 it, not one a period older

---
 eskf_vio_backend/src/propagate/sequence_propagator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eskf_vio_backend/src/propagate/sequence_propagator.cpp b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
index 3b58115..474e6b9 100644
--- a/eskf_vio_backend/src/propagate/sequence_propagator.cpp
+++ b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
@@ -213,6 +213,11 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
         }
+        // 容差之内可能不止一个 item，以最接近 timeStamp 的作为起点
+        while (this->items.size() > 1 &&
+               std::fabs(this->items[1]->timeStamp - timeStamp) < std::fabs(this->items[0]->timeStamp - timeStamp)) {
+            this->items.pop_front();
+        }
         LogInfo(">> Propagator reset at " << timeStamp << "s, first item time stamp is " <<
             this->items.front()->timeStamp << "s, " << this->items.size() << " items maintained.");
         return true;
-- 
2.43.0


From ed119513e3696a460e19997dd4a105d52b2b30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 23/34] fix: propagation starts at the first frame, not one
 period before it

---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 6254046..341edfd 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -134,7 +134,7 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.initState.v_wb = initState.v_wb;
         this->propagator.initState.q_wb = initState.q_wb;
         // 从 attitude estimator 提取出从首帧时刻点开始，到最新时刻的 imu 量测，依次输入到 propagator 让他递推到最新时刻
-        this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod);
+        this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod * 0.55);
         for (auto it = this->attitudeEstimator.items.begin(); it != this->attitudeEstimator.items.end(); ++it) {
             this->propagator.Propagate((*it)->accel, (*it)->gyro, (*it)->timeStamp);
         }
-- 
2.43.0


From 540e7455eeccc7145294c2be92d662aeea8660f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 24/34] fix: the attitude estimator uses the configured bias
 until an update estimates it

---
 eskf_vio_backend/src/backend/backend_config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index eff0d7e..ad6d4d8 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -19,6 +19,7 @@ namespace ESKF_VIO_BACKEND {
                                                       this->config->imu.sigmaBiasGyroRandomWalk);
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
+        this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
 
         this->frameManager.extrinsics.clear();
-- 
2.43.0


From 5a702d13e8c8a910054c11eeb39aa0b82ac5f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 25/34] fix: level the initial attitude in double precision,
 exact also almost upside down

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index e5a56bb..53bc055 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,7 +19,8 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将量测到的重力加速度方向旋转到 w 系的重力加速度方向
-            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
+            // （单精度下，两向量接近反向时 FromTwoVectors 误差较大，因此采用双精度）
+            Quaternion q_wb = Eigen::Quaterniond::FromTwoVectors(g_imu.cast<fp64>(), g_word.cast<fp64>()).cast<Scalar>();
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From 2abe936fbbb40a06b70ce079988442571531bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 26/34] fix: the attitude is corrected towards the specific
 force without its bias

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 53bc055..8f34d64 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -42,7 +42,7 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel.normalized();    // 加速度为零时，没有可用的修正
+            Vector3 acc_b_measure = (accel - this->bias_a).normalized();    // 加速度为零时，没有可用的修正
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
-- 
2.43.0


From e0007cb9911dd43a23503de3e3b721893235191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 27/34] fix: initialisation starts a new propagation instead of
 continuing the old one

---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 341edfd..ce808cd 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -129,6 +129,8 @@ namespace ESKF_VIO_BACKEND {
     /* 初始化序列化 propagator */
     bool Backend::InitializePropagator(const IMUMotionState &initState,
                                        const fp64 startTime) {
+        // 重新初始化时，清空之前遗留的递推序列
+        this->propagator.items.clear();
         // 首帧位置设置为原点，将首帧位姿和速度赋值给 propagator 的 initState
         this->propagator.initState.p_wb = initState.p_wb;
         this->propagator.initState.v_wb = initState.v_wb;
-- 
2.43.0


From be23531a24088204aaa2027dca6f9d7c870cfe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 28/34] fix: two features with the same score are both used for
 the update

---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 36a1ffd..2018aae 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -155,7 +155,7 @@ namespace ESKF_VIO_BACKEND {
     /* 更新每一个点的三角测量质量，基于三角测量的质量，选择一定数量的特征点 */
     bool MultiViewVisionUpdate::SelectGoodFeatures(void) {
         auto frame = this->frameManager->frames.back();
-        std::map<fp32, std::shared_ptr<Feature>> goodFeatures;  // <score, feature_ptr>
+        std::multimap<fp32, std::shared_ptr<Feature>> goodFeatures;  // <score, feature_ptr>
         for (auto it = frame->features.begin(); it != frame->features.end(); ++it) {
             auto feature = (*it).second;
             if (this->TrianglizeMultiFrame(feature) == true) {
-- 
2.43.0


From 317467fe681a0d87aaf4f396edda63f9469a9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 29/34] fix: bundling a message no longer reads the queue
 element it has just removed

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 0ef1a9d..2ca74dc 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -58,8 +58,8 @@ namespace ESKF_VIO_BACKEND {
         output->Clear();
         // 如果队列都不为空，则输出时间戳最旧的数据
         if (!this->imuMeas.empty() && !this->featMeas.empty()) {
-            auto &imu = this->imuMeas.front();
-            auto &feat = this->featMeas.front();
+            auto imu = this->imuMeas.front();
+            auto feat = this->featMeas.front();
             if (feat->timeStamp <= imu->timeStamp) {
                 output->featMeas = feat;
                 this->featMeas.pop_front();
-- 
2.43.0


From 7cf9dc1e86fce876d0f1d9b2a9a7f9305018a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 30/34] fix: an estimator used the gravity of the one
 configured last

---
 eskf_vio_backend/include/backend/backend.hpp    | 2 ++
 eskf_vio_backend/src/backend/backend.cpp        | 3 +++
 eskf_vio_backend/src/backend/backend_config.cpp | 1 +
 3 files changed, 6 insertions(+)

diff --git a/eskf_vio_backend/include/backend/backend.hpp b/eskf_vio_backend/include/backend/backend.hpp
index 6630744..d4b696d 100644
--- a/eskf_vio_backend/include/backend/backend.hpp
+++ b/eskf_vio_backend/include/backend/backend.hpp
@@ -34,6 +34,8 @@ namespace ESKF_VIO_BACKEND {
     public:
         // 当前 Backend 的状态
         Status status = NEED_INIT;
+        // 当前 Backend 所配置的重力加速度（IMUFullState::gravity_w 由所有 Backend 共用）
+        Vector3 gravity_w = Vector3(0.0, 0.0, 9.8);
     public:
         /* 构造函数与析构函数 */
         Backend() = default;
diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 389b05c..a8de08e 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -28,6 +28,9 @@ namespace ESKF_VIO_BACKEND {
             return false;
         }
 
+        // 采用自身配置的重力加速度，而不是最近一个被配置的 Backend 的重力加速度
+        IMUFullState::gravity_w = this->gravity_w;
+
         // 当存在 IMU 量测输入时
         if (msg->imuMeas.size() > 0) {
             if (msg->imuMeas.front() != nullptr) {
diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index ad6d4d8..1903165 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -21,6 +21,7 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
         this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
+        this->gravity_w = IMUFullState::gravity_w;
 
         this->frameManager.extrinsics.clear();
         for (uint32_t i = 0; i < this->config->vision.default_p_bc.size(); ++i) {
-- 
2.43.0


From ba3695efe85587251559fdb85434d449dc3cc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 31/34] fix: observations of cameras without extrinsics were
 read past the end of the extrinsics

---
 eskf_vio_backend/src/backend/backend.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index a8de08e..379cba6 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -157,6 +157,12 @@ namespace ESKF_VIO_BACKEND {
         if (featMeas == nullptr) {
             return false;
         }
+        // 没有外参的相机（编号超出已配置的相机个数）无法参与估计，剔除其观测
+        for (auto &observe : featMeas->observes) {
+            for (auto it = observe->norms.begin(); it != observe->norms.end(); ) {
+                it = it->first < this->frameManager.extrinsics.size() ? std::next(it) : observe->norms.erase(it);
+            }
+        }
         // 添加新帧，新帧 frame id 由 frame manager 给定
         std::shared_ptr<Frame> newFrame(new Frame(featMeas->timeStamp));
         this->frameManager.AddNewFrame(newFrame);
-- 
2.43.0


From 12c8243f63b73ebc8cb8080a0b3b4501f5e9c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 32/34] fix: the covariance after an update lost its positive
 definiteness in single precision

P = (I - K H) P is only right for the exact gain: with rounding, directions that
are measured well got variances far below zero noise or negative ones, the
innovation covariance of later updates became singular and the state jumped
(0.1 m and 0.02 rad away from the same filter in double precision with a
measurement noise of 0.0003 to 0.001). Use the Joseph form.
---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 2018aae..bf4592a 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -310,9 +310,9 @@ namespace ESKF_VIO_BACKEND {
         Matrix I_KH = - this->K * H;
         I_KH.diagonal().array() += Scalar(1);
         static Matrix newCov;
-        newCov = I_KH * this->covariance;   // P = (I - K * H) * P
-        // newCov = I_KH * this->covariance * I_KH.transpose() +
-        //     this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
+        // P = (I - K * H) * P 在单精度下会失去正定性，导致后续的卡尔曼增益出错
+        newCov = I_KH * this->covariance * I_KH.transpose() +
+            this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
 
         // check cov
         for (uint32_t i = 0; i < newCov.rows(); ++i) {
-- 
2.43.0


From 045342c9e9686bb8b91d20f72bc6a5b8d8ef412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 33/34] fix: the Kalman update loses the covariance when the
 uncertainty is far above the measurement noise

---
 .../update/multi_view_vision_update.hpp       |  4 ---
 .../src/update/multi_view_vision_update.cpp   | 36 +++++++++++--------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/eskf_vio_backend/include/update/multi_view_vision_update.hpp b/eskf_vio_backend/include/update/multi_view_vision_update.hpp
index 0a9f79d..84b381d 100644
--- a/eskf_vio_backend/include/update/multi_view_vision_update.hpp
+++ b/eskf_vio_backend/include/update/multi_view_vision_update.hpp
@@ -35,15 +35,11 @@ namespace ESKF_VIO_BACKEND {
         Matrix covariance;
         // 用于状态扩维的雅可比矩阵
         Matrix expand_J;
-        // 量测误差的协方差矩阵
-        Matrix meas_covariance;
         // 所有特征点共同构造出来的量测方程 [Hx | r]
         Matrix Hx_r;
         // 每个特征点投影到左零空间的子量测方程的量测维度之和
         uint32_t Hx_cols = 0;
         uint32_t Hx_rows = 0;
-        // ESKF 中的卡尔曼增益
-        Matrix K;
 
     public:
         /* 构造函数与析构函数 */
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index bf4592a..a8bdbb2 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -297,22 +297,30 @@ namespace ESKF_VIO_BACKEND {
     /* 更新误差状态和名义状态 */
     bool MultiViewVisionUpdate::UpdateState(void) {
         // Step 1: 执行卡尔曼滤波的 update 过程
-        // 计算卡尔曼增益
-        Matrix &&H = this->Hx_r.block(0, 0, this->Hx_r.rows(), this->Hx_r.cols() - 1);
-        Vector &&r = this->Hx_r.block(0, this->Hx_r.cols() - 1, this->Hx_r.rows(), 1);
-        Matrix PHt = this->covariance * H.transpose();
-        const Scalar R = this->measureNoise * this->measureNoise;
-        this->meas_covariance = H * PHt;
-        this->meas_covariance.diagonal().array() += R;     // S = H * P * Ht + R
-        this->K = PHt * Utility::Inverse(this->meas_covariance);    // K = P * Ht * Sinv
+        // 先验不确定度远大于量测噪声时，求逆 S = H * P * Ht + R 会使增益出错，P 失去正定性，因此采用平方根形式（双精度）
+        // P = L * L.t，对 [H * L / sigma; I] 进行 QR 分解，则 P_new = L * (R.t * R)inv * L.t 始终半正定且不大于 P
+        const uint32_t measSize = this->Hx_r.rows();
+        const uint32_t stateSize = this->Hx_r.cols() - 1;
+        const double sigma = std::max(std::fabs(double(this->measureNoise)), 1e-6);    // 未配置量测噪声时为 0
+        const Eigen::MatrixXd P = this->covariance.cast<double>();
+        const Eigen::VectorXd scale = P.diagonal().cwiseMax(1e-30).cwiseSqrt();       // 各状态量的尺度
+        const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> saes(
+            Eigen::MatrixXd(scale.cwiseInverse().asDiagonal() * P * scale.cwiseInverse().asDiagonal()));
+        const Eigen::MatrixXd L = scale.asDiagonal() * saes.eigenvectors() *
+            saes.eigenvalues().cwiseMax(0.0).cwiseSqrt().asDiagonal();
+        Eigen::MatrixXd stacked = Eigen::MatrixXd::Zero(measSize + stateSize, stateSize);
+        stacked.topRows(measSize) = this->Hx_r.leftCols(stateSize).cast<double>() * L / sigma;
+        stacked.bottomRows(stateSize).setIdentity();
+        Eigen::VectorXd residual = Eigen::VectorXd::Zero(measSize + stateSize);
+        residual.head(measSize) = this->Hx_r.col(stateSize).cast<double>() / sigma;
+        const Eigen::HouseholderQR<Eigen::MatrixXd> QRSolver(stacked);
+        residual = QRSolver.householderQ().transpose() * residual;
+        const auto R = QRSolver.matrixQR().topRows(stateSize).triangularView<Eigen::Upper>();
         // 更新误差状态向量
-        this->delta_x = this->K * r;       // dx = K * r
-        Matrix I_KH = - this->K * H;
-        I_KH.diagonal().array() += Scalar(1);
+        this->delta_x = (L * R.solve(residual.head(stateSize))).cast<Scalar>();
+        const Eigen::MatrixXd newL = R.transpose().solve(L.transpose()).transpose();    // L * Rinv
         static Matrix newCov;
-        // P = (I - K * H) * P 在单精度下会失去正定性，导致后续的卡尔曼增益出错
-        newCov = I_KH * this->covariance * I_KH.transpose() +
-            this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
+        newCov = (newL * newL.transpose()).cast<Scalar>();
 
         // check cov
         for (uint32_t i = 0; i < newCov.rows(); ++i) {
-- 
2.43.0


From c13f54f3fd14a4eb0d20c8af952cbfc747d779b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 34/34] fix: printing a features message with more ids than
 observations read past the end

---
 eskf_vio_backend/src/data_manager/data_typedef.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_typedef.cpp b/eskf_vio_backend/src/data_manager/data_typedef.cpp
index 6796ab7..83ca4dd 100644
--- a/eskf_vio_backend/src/data_manager/data_typedef.cpp
+++ b/eskf_vio_backend/src/data_manager/data_typedef.cpp
@@ -47,7 +47,7 @@ namespace ESKF_VIO_BACKEND {
     /* 自我打印保存信息 */
     void FeaturesMessage::Information(void) {
         LogInfo(">> Features Message at time stamp " << this->timeStamp << "s:");
-        for (uint32_t i = 0; i < this->ids.size(); ++i) {
+        for (uint32_t i = 0; i < this->ids.size() && i < this->observes.size(); ++i) {
             LogInfo("     feature id " << this->ids[i] << " is observed in:");
             for (auto it = this->observes[i]->norms.begin(); it != this->observes[i]->norms.end(); ++it) {
                 LogInfo("       camera id " << it->first << " [" << it->second.transpose() << "]");
-- 
2.43.0

