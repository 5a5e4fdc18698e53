From 55e50c37bd9674b0f33cb5bab646691cfbf482a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 001/132] fix: signs and coefficients of the small-angle series
 of the quaternion exponential and logarithm

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 09e85eb..e9bed3f 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 157ea347a376de47453b02f5505a84c69f9f3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 002/132] fix: Euler angle extraction at gimbal lock (NaN or a
 different rotation)

---
 .../src/EulerAnglesYawPitchRoll.cpp           | 10 ++++++-
 .../sm_kinematics/src/EulerAnglesZXY.cpp      |  9 ++++++-
 .../sm_kinematics/src/EulerAnglesZYX.cpp      | 10 ++++++-
 .../sm_kinematics/src/rotations.cpp           | 27 +++++++++----------
 4 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index fc61189..9af629a 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -36,9 +36,17 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
+      // atan2 rather than asin: rounding can make the entry larger than one.
+      double cp = sqrt(rotationMatrix(2,1)*rotationMatrix(2,1) + rotationMatrix(2,2)*rotationMatrix(2,2));
+      double phi = atan2(-rotationMatrix(2,0), cp);
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
+      if(cp < 1e-10)
+	{
+	  // Gimbal lock: only a combination of the two other angles is determined.
+	  psi = 0.0;
+	  theta = atan2(phi > 0.0 ? rotationMatrix(0,1) : -rotationMatrix(0,1), rotationMatrix(1,1));
+	}
     
       Eigen::Vector3d ret;
       ret[2] = theta;
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
index 1f0d7d7..1b0941f 100644
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -67,7 +67,14 @@ namespace sm {
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
       const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
+      // atan2 rather than asin: rounding can make the entry larger than one.
+      const double cx = sqrt(rotationMatrix(2, 0) * rotationMatrix(2, 0) +
+        rotationMatrix(2, 2) * rotationMatrix(2, 2));
+      const double r_x = atan2(sx, cx);
+      // Gimbal lock: only a combination of the two other angles is determined.
+      if (cx < 1e-10)
+        return Eigen::Vector3d(0.0, r_x,
+          atan2(rotationMatrix(0, 2), rotationMatrix(0, 0)));
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
       const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
       return Eigen::Vector3d(r_z, r_x, r_y);
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
index c253681..0bf38f7 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -36,9 +36,17 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
+      // atan2 rather than asin: rounding can make the entry larger than one.
+      double cp = sqrt(rotationMatrix(2,1)*rotationMatrix(2,1) + rotationMatrix(2,2)*rotationMatrix(2,2));
+      double phi = atan2(rotationMatrix(2,0), cp);
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
+      if(cp < 1e-10)
+	{
+	  // Gimbal lock: only a combination of the two other angles is determined.
+	  psi = 0.0;
+	  theta = atan2(phi > 0.0 ? -rotationMatrix(0,1) : rotationMatrix(0,1), rotationMatrix(1,1));
+	}
     
       Eigen::Vector3d ret;
       ret[2] = -theta;
diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 6837d61..27c134a 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -60,9 +60,16 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    // atan2 rather than asin: rounding can make the entry larger than one.
+    double cp = sqrt(C(2,1)*C(2,1) + C(2,2)*C(2,2));
+    double phi = atan2(C(2,0), cp);
     double theta = atan2(C(2,1),C(2,2));
     double psi = atan2(C(1,0), C(0,0));
+    if(cp < 1e-10) {
+      // Gimbal lock: only a combination of the two other angles is determined.
+      psi = 0.0;
+      theta = atan2(C(2,0) > 0.0 ? -C(0,1) : C(0,1), C(1,1));
+    }
     
     Eigen::Vector3d ret;
     ret[0] = theta;
@@ -208,24 +215,14 @@ namespace sm { namespace kinematics {
      SM_ASSERT_EQ_DBG(std::runtime_error,C.rows(),3,"The input matrix must be 3x3");
      SM_ASSERT_EQ_DBG(std::runtime_error,C.cols(),3,"The input matrix must be 3x3");
 
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     // rph2C(x) is rph2R(-x)
+     return -R2rph(C);
    }
 
    Eigen::Vector3d C2rph(Eigen::Matrix3d const & C)
    {
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     // rph2C(x) is rph2R(-x)
+     return -R2rph(C);
    }
 
 
-- 
2.43.0


From 11df173dfda4e4e652fce3822e4ee5695d118e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 003/132] fix: rotation vector of half a turn was zero

---
 .../sm_kinematics/src/RotationVector.cpp            | 13 ++++++++++++-
 Schweizer-Messer/sm_kinematics/src/rotations.cpp    | 10 ++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index e074df3..d786332 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -70,9 +70,20 @@ namespace sm { namespace kinematics {
             p[1] = (C(0,2) - C(2,0));
             p[2] = (C(1,0) - C(0,1));
             double n2 = p.norm();
+            if(n2 < 1e-7 && tr < 0.0)
+            {
+                // (Almost) half a turn: the axis is in the symmetric part of C.
+                Eigen::Matrix3d B = C + C.transpose();
+                int i;
+                B.diagonal().maxCoeff(&i);
+                Eigen::Vector3d axis = B.col(i);
+                axis[i] += 2.0;
+                axis.normalize();
+                return axis.dot(p) > 0.0 ? Eigen::Vector3d(-a * axis) : Eigen::Vector3d(a * axis);
+            }
             if(fabs(n2) < 1e-14)
                 return Eigen::Vector3d::Zero();
-      
+
             double scale = -a/n2;
             p = scale * p;
 
diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 27c134a..6c3a885 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -153,6 +153,16 @@ namespace sm { namespace kinematics {
     axis[1] = (C(0,2) - C(2,0));
     axis[2] = (C(1,0) - C(0,1));
     double n2 = axis.norm();
+    if(n2 < 1e-7 && tr < 0.0) {
+      // (Almost) half a turn: the axis is in the symmetric part of C.
+      Eigen::Matrix3d B = C + C.transpose();
+      int i;
+      B.diagonal().maxCoeff(&i);
+      Eigen::Vector3d u = B.col(i);
+      u[i] += 2.0;
+      u.normalize();
+      return u.dot(axis) > 0.0 ? Eigen::Vector3d(-a * u) : Eigen::Vector3d(a * u);
+    }
     if(fabs(n2) < 1e-10)
       return Eigen::Vector3d::Zero();
 		
-- 
2.43.0


From 58762226db7a9af4d712dbfc6ba9e91cbc5aeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:24 +0000
Subject: [PATCH 004/132] fix: Jacobian of the angular velocity was NaN for the
 zero rotation vector

---
 Schweizer-Messer/sm_kinematics/src/RotationVector.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index d786332..d875bf6 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -135,6 +135,13 @@ namespace sm { namespace kinematics {
                 // LAZY
                 // \todo...redo when there is time and not so lazy.
                 Eigen::Matrix<double,3,6> & J = *Jacobian;
+                if(p.squaredNorm() < 1e-8)
+                {
+                    // The expressions below divide by the angle; S = 1 - crossMx(p)/2 + crossMx(p)^2/6 - ...
+                    J.block(0,0,3,3) = 0.5 * crossMx(pdot)
+                        + (p.dot(pdot) * Eigen::Matrix3d::Identity() + p * pdot.transpose() - 2.0 * pdot * p.transpose()) / 6.0;
+                    return omega;
+                }
                 double t1 = p[0];
                 double t2 = p[1];
                 double t3 = p[2];
-- 
2.43.0


From bc2be64c2a9fae53a4f8f2e0c8f5057b76258e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 005/132] fix: covariance of sums and differences of
 homogeneous points with scale other than one

---
 .../sm_kinematics/src/HomogeneousPoint.cpp          |  8 ++++++--
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp | 13 +++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
index 32cbb67..1fa2d5e 100755
--- a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,5 +1,6 @@
 #include <sm_kinematics/HomogeneousPoint.hpp>
 #include <sm_kinematics/quaternion_algebra.hpp>
+#include <sm_kinematics/homogeneous_coordinates.hpp>
 #include <sm_kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm_common/serialization_macros.hpp>
 
@@ -51,7 +52,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -65,7 +67,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+      PL.topRows<3>() *= -1.0; // the derivative with respect to the right-hand side
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
     }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b0f0783..f2fdcac 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -175,7 +177,9 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
+
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
@@ -203,8 +207,9 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+	PL.topRows<3>() *= -1.0; // the derivative with respect to the right-hand side
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From b62591ff73c7e50962f55dcae1169bb5ab31c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 006/132] fix: DenseQrLinearSystemSolver ignored the request
 for a diagonal conditioner and read an uninitialised flag

---
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index 580e199..a4a6680 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -24,8 +24,9 @@ namespace aslam {
       return &_J;
     }
 
-  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool /* useDiagonalConditioner */)
+  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool useDiagonalConditioner)
     {
+      _useDiagonalConditioner = useDiagonalConditioner;
       // \todo Verify that this is similar to the "reserve()" feature in a standard vector.
       _J._M.resize(_JRows, _JCols);
     }
-- 
2.43.0


From 93bb0624d887c8f711ba1ff3fe76247d47ba5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 007/132] fix: block Cholesky solver changed its Hessian with
 every conditioned solve

---
 .../aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3dc73cf..0ac86d4 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -73,8 +73,8 @@ namespace aslam {
 
     bool BlockCholeskyLinearSystemSolver::solveSystem(Eigen::VectorXd& outDx)
     {
+      const Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
       if (_useDiagonalConditioner) {
-        Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
@@ -92,7 +92,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
@@ -123,8 +123,8 @@ namespace aslam {
     {
       // Not sure why I have to do this.
       //_solver->init();
+      const Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
       if (_useDiagonalConditioner) {
-        Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
@@ -141,7 +141,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
-- 
2.43.0


From b11eb0a64385298416594844e70dac7d3f65f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 008/132] fix: dense QR solver solved with the errors of a
 rejected state

---
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index a4a6680..80e35ca 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -36,6 +36,8 @@ namespace aslam {
       _J._M.setZero();
       setupThreadedJob(boost::bind(&DenseQrLinearSystemSolver::evaluateJacobians, this, _1, _2, _3, _4), nThreads, useMEstimator);
       _rhs = _J._M.transpose() * _e;
+      // evaluateError() overwrites _e. The Jacobian above belongs to these errors.
+      _truncated_e = _e;
     }
 
 
@@ -46,14 +48,14 @@ namespace aslam {
         _J._M.conservativeResize(_JRows + _JCols, Eigen::NoChange);
         _J._M.bottomRows(_JCols) = _diagonalConditioner.asDiagonal();
         // Append zeros to make the sizes match.
-        _e.conservativeResize(_JRows + _JCols);
-        _e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
+        _truncated_e.conservativeResize(_JRows + _JCols);
+        _truncated_e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
       }
-      outDx = _J._M.colPivHouseholderQr().solve(_e);
+      outDx = _J._M.colPivHouseholderQr().solve(_truncated_e);
       if (_useDiagonalConditioner) {
         // Remove the diagonal
         _J._M.conservativeResize(_JRows, Eigen::NoChange);
-        _e.conservativeResize(_JRows);
+        _truncated_e.conservativeResize(_JRows);
       }
       return true;
     }
-- 
2.43.0


From 0d31fddf15cec51d064fc5d6792b4fa5879dfd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 009/132] fix: block Cholesky solver computed the curvature
 along the gradient from the upper triangle only

---
 .../src/BlockCholeskyLinearSystemSolver.cpp           | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 0ac86d4..03d2885 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -170,9 +170,18 @@ namespace aslam {
       
       
     double BlockCholeskyLinearSystemSolver::rhsJtJrhs() {
+        // Only the upper triangular blocks of the Hessian are stored.
         Eigen::VectorXd JtJrhs;
         _H.rightMultiply(_rhs, JtJrhs);
-        return _rhs.dot(JtJrhs);
+        double result = 2.0 * _rhs.dot(JtJrhs);
+        int rowBase = 0;
+        for (int i = 0; i < _H._M.bRows(); ++i) {
+          const Eigen::MatrixXd& block = *_H._M.block(i, i, true);
+          const Eigen::VectorXd r = _rhs.segment(rowBase, block.rows());
+          result -= r.dot(block * r);
+          rowBase += block.rows();
+        }
+        return result;
     }
       
 
-- 
2.43.0


From dad83010153e57f8ea72380ee4251ae203226631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 010/132] fix: block SPQR solver reported success with a NaN
 solution for a singular system

---
 .../aslam_sparse_block_matrix/linear_solver_spqr.h        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_spqr.h b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_spqr.h
index 676b16a..829588b 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_spqr.h
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_spqr.h
@@ -17,6 +17,7 @@
 #ifndef SBM_LINEAR_SOLVER_SPQR
 #define SBM_LINEAR_SOLVER_SPQR
 
+#include <cmath>
 #include <aslam_sparse_block_matrix/linear_solver.h>
 #include <SuiteSparseQR.hpp>
 #include <aslam_sparse_block_matrix/sparse_helper.h>
@@ -145,12 +146,17 @@ class LinearSolverQr : public LinearSolver<MatrixType>
 		// copy into output array:
 		memcpy(x, X->x, sizeof(double) * X->nrow); // copy back to our array
 
+		// no rank detection tolerance is used above: a singular system ends in divisions by zero.
+		bool finite = true;
+		for (size_t i = 0; i < X->nrow; ++i)
+			finite = finite && std::isfinite(x[i]);
+
 		// free everything and finish CHOLMOD
 		cholmod_l_free_dense (&X, cc) ;
 		cholmod_l_free_dense (&Y, cc) ;
 		//cholmod_l_free_sparse (&A1, cc) ;
 
-		return true;
+		return finite;
     }
 
     //! do the AMD ordering on the blocks or on the scalar matrix
-- 
2.43.0


From 5360818e61e511549814fd2083d053abda73d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 011/132] fix: Levenberg-Marquardt used the previous step after
 a failed linear solve

---
 .../aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp
index 5cd590f..3dcf018 100644
--- a/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp
@@ -56,7 +56,8 @@ namespace aslam {
                 _solver->buildSystem(nThreads, true);
             } else {
                 ///get Rho and update Lambda:
-                double rho = getLmRho();
+                // (after a failed iteration there may be no previous step, and the ratio is not used)
+                double rho = previousIterationFailed ? 0.0 : getLmRho();
               
                 if (previousIterationFailed ) {
                   // The last step was a regression.
-- 
2.43.0


From 2dbc341df8e98d65c3048e081bcc58781aa2f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 012/132] fix: trust region policies compared a rejected step
 with an older state

---
 aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
index 3e7b135..30368fc 100644
--- a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
@@ -39,6 +39,7 @@ namespace aslam {
         bool TrustRegionPolicy::solveSystem(double J, bool previousIterationFailed, int nThreads, Eigen::VectorXd& outDx)
         {
             if(previousIterationFailed) {
+                _p_J = _last_successful_J;
                 _J = J;
             } else {
                 _p_J = _last_successful_J;
-- 
2.43.0


From 09dcd7650b872a53f85f1916882a5ce47c880bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 013/132] fix: dog leg took a Gauss-Newton step it had not
 computed after a failed linear solve

---
 .../aslam_backend/backend/DogLegTrustRegionPolicy.hpp     | 2 ++
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp         | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
index abe6a57..439ad05 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
@@ -35,6 +35,8 @@ namespace aslam {
 
             double _dx_sd_norm;
             double _dx_gn_norm;
+            // does _dx_gn solve the current system?
+            bool _gnComputed;
             double _L0;
             double _sd_scale;
             double _beta;
diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index bfed369..873fc88 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -12,6 +12,7 @@ namespace aslam {
         {
             _dx_sd_norm = 0;
             _dx_gn_norm = 0;
+            _gnComputed = false;
             _L0 = 0;
             _sd_scale = 0;
             _beta = 0;
@@ -57,7 +58,6 @@ namespace aslam {
                         _delta /= 2.0;
                 }
             }
-            bool gnComputed = true;
             // successful step:
             // rebuild system and recalculate sd-solution
             if(!previousIterationFailed) {
@@ -75,7 +75,7 @@ namespace aslam {
                 _dx_sd_norm = _dx_sd.norm();
 
                 // invalidate GN solution
-                gnComputed = false;
+                _gnComputed = false;
             }
 
             // Trust Region smaller than SD:
@@ -89,14 +89,14 @@ namespace aslam {
             else
             {
                 // calculate the GN step.
-                if(!gnComputed)
+                if(!_gnComputed)
                 {
                     solutionSuccess = _solver->solveSystem(_dx_gn);
 
                     if(!solutionSuccess)
                         return solutionSuccess;
 
-                    gnComputed = true;  // now we have it!
+                    _gnComputed = true;  // now we have it!
                     // and calculate the norm:
                     _dx_gn_norm = _dx_gn.norm();
                 }
-- 
2.43.0


From bb448e4159daa8cff1b80f80e88809600163daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 014/132] fix: dog leg destroyed the state when started at a
 point with zero gradient

---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 873fc88..b791484 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -67,7 +67,9 @@ namespace aslam {
 
                 // calculate steepest descent step:
 
-                _sd_scale = _solver->rhs().squaredNorm() / _solver->rhsJtJrhs();
+                const double gradientNormSquared = _solver->rhs().squaredNorm();
+                // there is no steepest descent step where the gradient vanishes
+                _sd_scale = gradientNormSquared > 0.0 ? gradientNormSquared / _solver->rhsJtJrhs() : 0.0;
                 _dx_sd = _sd_scale * _solver->rhs();
 
 
-- 
2.43.0


From 6ae57f6e735b53c443c662fa460ac24203f07218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 015/132] fix: Optimizer2 accepted a step to a state whose cost
 is not a number

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2feb50f..e80c0d2 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -240,7 +240,8 @@ namespace aslam {
                     // This was a regression.
                     if( _trustRegionPolicy->revertOnFailure() )
                     {
-                        if(deltaJ < 0.0)
+                        // (not (deltaJ < 0.0): a cost that is not a number is no improvement)
+                        if(!(deltaJ >= 0.0))
                         {
                             _options.verbose && std::cout << "Last step was a regression. Reverting\n";
                             revertLastStateUpdate();
-- 
2.43.0


From 193ccf63982b1c979247f7a1c8b00c910ae6f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 016/132] fix: Optimizer estimated the initial lambda from
 elements outside of the diagonal

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 20c8113..2afafd4 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -149,7 +149,7 @@ namespace aslam {
           if (H) {
             for (int j = 0; j < H->rows(); j++) {
               if (fabs((*H)(j, j)) > maximum)
-                maximum = fabs((*H)(i, j));
+                maximum = fabs((*H)(j, j));
             }
           }
         }
-- 
2.43.0


From 9ab2aa9679d29d9d7f99a1957fa947c02107325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 017/132] fix: Optimizer reverted an accepted step after a
 failed linear solve

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 2afafd4..a0b385f 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -520,9 +520,8 @@ namespace aslam {
         if (!solutionSuccess) {
           // \todo do something better
           //SM_ASSERT_TRUE(Exception, solutionSuccess, "The linear solution failed");
+          // (nothing was applied, so there is nothing to revert)
           isLmRegression = true;
-          // **** if J is a regression
-          revertLastStateUpdate();
           // ***** Update lambda
           // _lambda *= 1000;
           _lambda *= mu;
-- 
2.43.0


From 84725584c448bd0208d39c88e4b6a08a52d7ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 018/132] fix: Optimizer reported the cost of a reverted step,
 and accepted steps to a cost that is not a number

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index a0b385f..61678ad 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -541,10 +541,12 @@ namespace aslam {
             // update rho:
             double rho = getLmRho();
             // if(_J > _p_J)
-            if (rho <= 0) {
+            // (a cost that is not a number is a regression, too)
+            if (!(rho > 0)) {
               isLmRegression = true;
               // **** if J is a regression
               revertLastStateUpdate();
+              _J = _p_J;
               // ***** Update lambda
               // _lambda *= 1000;
               _lambda *= mu;
-- 
2.43.0


From 310e8edf9196c5e7e90d76d4c0452cc321fa6989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:31 +0000
Subject: [PATCH 019/132] fix: Levenberg-Marquardt damping became NaN at a
 stationary point

---
 .../aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp
index 3dcf018..1b58af0 100644
--- a/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp
@@ -110,7 +110,8 @@ namespace aslam {
             double d1 = get_dJ();    // update cost delta
             // L(0) - L(h):
             double d2 = _dx.transpose() * (_lambda * _dx + _solver->rhs());
-            return d1 / d2;
+            // at a stationary point the step, and with it the predicted reduction, is zero
+            return d2 == 0.0 ? 0.0 : d1 / d2;
         }
         
     bool LevenbergMarquardtTrustRegionPolicy::requiresAugmentedDiagonal() const {
-- 
2.43.0


From 57e5be04a6c14dcbf74b8c22785713fa25d13e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:36 +0000
Subject: [PATCH 020/132] fix: Optimizer2 never detected convergence after a
 linear solve had failed once

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index e80c0d2..5d0f872 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -206,6 +206,7 @@ namespace aslam {
             double deltaJ = _options.convergenceDeltaJ + 1.0;
             bool previousIterationFailed = false;
             bool linearSolverFailure = false;
+            bool lastSolveFailed = false;
 
             SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
             _trustRegionPolicy->setSolver(_solver);
@@ -216,7 +217,7 @@ namespace aslam {
                    srv.failedIterations < _options.maxIterations &&
                    ((deltaX > _options.convergenceDeltaX &&
                      fabs(deltaJ) > _options.convergenceDeltaJ) ||
-                    linearSolverFailure)) {
+                    lastSolveFailed)) {
 
                 timeSolve.start();
                 bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
@@ -226,8 +227,10 @@ namespace aslam {
                     _options.verbose && std::cout << "[WARNING] System solution failed\n";
                     previousIterationFailed = true;
                     linearSolverFailure = true;
+                    lastSolveFailed = true;
                     srv.failedIterations++;
                 } else {
+                    lastSolveFailed = false;
                     /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
                     timeBackSub.start();
                     deltaX = applyStateUpdate();
-- 
2.43.0


From 9aed7c1a737925b4ef4932575f6ce621045d7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 021/132] fix: multi-threaded evaluation divided by zero for a
 problem without error terms

---
 .../implementation/CompressedColumnJacobianTransposeBuilder.hpp | 2 +-
 aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
index 1783df7..648a926 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
@@ -61,7 +61,7 @@ namespace aslam {
       if (nThreads <= 1) {
         (this->*ptr)(0, 0, _jacobianPointers.size(), useMEstimator);
       } else {
-        nThreads = std::min(nThreads, _jacobianPointers.size());
+        nThreads = std::max((size_t)1, std::min(nThreads, _jacobianPointers.size()));
         // Give some error terms to each thread.
         std::vector<int> indices(nThreads + 1, 0);
         int nJPerThread = std::max(1, (int)(_jacobianPointers.size() / nThreads));
diff --git a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
index ee45398..342fda4 100644
--- a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
@@ -52,7 +52,7 @@ namespace aslam {
       if (nThreads <= 1) {
         job(0, 0, _errorTerms.size(), useMEstimator);
       } else {
-        nThreads = std::min(nThreads, _errorTerms.size());
+        nThreads = std::max((size_t)1, std::min(nThreads, _errorTerms.size()));
         // Give some error terms to each thread.
         std::vector<int> indices(nThreads + 1, 0);
         int nJPerThread = std::max(1, (int)(_errorTerms.size() / nThreads));
-- 
2.43.0


From b43dde5149859ff318c154f5aa7cac7078b320f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 022/132] fix: exceptions of error terms lost their type and
 message, or ended the process, in worker threads

---
 .../aslam_backend/src/LinearSystemSolver.cpp  | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
index 342fda4..2a29252 100644
--- a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
@@ -2,6 +2,7 @@
 #include <boost/thread.hpp>
 #include <aslam_backend/backend/ErrorTerm.hpp>
 #include <boost/ref.hpp>
+#include <exception>
 
 namespace aslam {
   namespace backend {
@@ -22,27 +23,17 @@ namespace aslam {
       }
     }
 
-    struct SafeJobReturnValue {
-      SafeJobReturnValue(const std::exception& e) : _e(e) {}
-
-      std::exception _e;
-    };
-
     struct SafeJob {
       boost::function<void()> _fn;
-      SafeJobReturnValue* _rval;
-      SafeJob() : _rval(NULL) {}
-      SafeJob(boost::function<void()> fn) : _fn(fn), _rval(NULL) {}
-      ~SafeJob() {
-        if (_rval) delete _rval;
-      }
+      std::exception_ptr _exception;
+      SafeJob() {}
+      SafeJob(boost::function<void()> fn) : _fn(fn) {}
 
       void operator()() {
         try {
           _fn();
-        } catch (const std::exception& e) {
-          _rval = new SafeJobReturnValue(e);
-          std::cout << "Exception in thread block: " << e.what() << std::endl;
+        } catch (...) {
+          _exception = std::current_exception();
         }
       }
     };
@@ -70,8 +61,8 @@ namespace aslam {
         threads.join_all();
         // Now go through and look for exceptions.
         for (size_t i = 0; i < nThreads; ++i) {
-          if (jobs[i]._rval) {
-            throw jobs[i]._rval->_e;
+          if (jobs[i]._exception) {
+            std::rethrow_exception(jobs[i]._exception);
           }
         }
       }
-- 
2.43.0


From d3df542e18322a49a1fa36e9060b42f28edc0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 023/132] fix: an exception of an error term in a worker of the
 Jacobian builder ended the process

---
 .../CompressedColumnJacobianTransposeBuilder.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
index 648a926..4410293 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
@@ -1,5 +1,6 @@
 #include <aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp>
 #include <boost/thread.hpp>
+#include <exception>
 
 namespace aslam {
   namespace backend {
@@ -71,10 +72,23 @@ namespace aslam {
         indices.back() = _jacobianPointers.size();
         // Build a thread pool and evaluate the jacobians.
         boost::thread_group threads;
+        std::vector<std::exception_ptr> exceptions(nThreads);
         for (unsigned i = 0; i < nThreads; ++i) {
-          threads.create_thread(boost::bind(ptr, this, i, indices[i], indices[i + 1], useMEstimator));
+          threads.create_thread([=, &indices, &exceptions]() {
+            try {
+              (this->*ptr)(i, indices[i], indices[i + 1], useMEstimator);
+            } catch (...) {
+              exceptions[i] = std::current_exception();
+            }
+          });
         }
         threads.join_all();
+        // An exception must not leave a thread: hand it to the caller.
+        for (unsigned i = 0; i < nThreads; ++i) {
+          if (exceptions[i]) {
+            std::rethrow_exception(exceptions[i]);
+          }
+        }
       }
     }
 
-- 
2.43.0


From 00546912384c4b2ff8ed4255f0923fdeec2533c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 024/132] fix: an error term refused because of a missing
 design variable stayed in the problem

---
 aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 6c0e392..ac9b916 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -58,12 +58,14 @@ namespace aslam {
     /// \brief Add an error term to the problem
     void OptimizationProblem::addErrorTerm(const boost::shared_ptr<ErrorTerm> & et)
     {
+      // check all design variables first: a refused error term must not become part of the problem.
+      for (size_t i = 0; i < et->numDesignVariables(); ++i) {
+        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(et->designVariable(i)), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
+      }
       _errorTerms.push_back(et);
       // add this error term to the multi-map
       for (size_t i = 0; i < et->numDesignVariables(); ++i) {
-        DesignVariable* dv = et->designVariable(i);
-        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
-        _errorTermMap.insert(std::make_pair(dv, et.get()));
+        _errorTermMap.insert(std::make_pair(et->designVariable(i), et.get()));
       }
     }
 
-- 
2.43.0


From a81cc25bab3f672697bad3a6661e87eff9e621cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 025/132] fix: minimal difference of mapped design variables
 was that of the value before the last update

---
 .../implementation/DesignVariableMappedVector.hpp             | 2 +-
 .../aslam_backend_expressions/src/MappedEuclideanPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp  | 4 ++--
 .../src/MappedRotationQuaternion.cpp                          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
index 4f9edfa..4653cf8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
@@ -115,7 +115,7 @@ namespace aslam {
     void DesignVariableMappedVector<D>::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
     	SM_ASSERT_TRUE(aslam::Exception, (xHat.rows() == D)&&(xHat.cols() == 1), "Dimension mismatch!");
-    	outDifference = _p_v - xHat;
+    	outDifference = _v - xHat;
     }
 
     template<int D>
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
index 81e116b..81d88fc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedEuclideanPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 3) && (xHat.cols() == 1), "xHat has incompatible dimensions");
-     outDifference = _p_p - xHat;
+     outDifference = _p - xHat;
     }
 
     void MappedEuclideanPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 4361364..969c1cc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedHomogeneousPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedHomogeneousPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -84,7 +84,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index 52d7d61..b8be1f8 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -74,7 +74,7 @@ namespace aslam {
     void MappedRotationQuaternion::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_q, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedRotationQuaternion::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -82,7 +82,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
-- 
2.43.0


From 3a77d9d197f443bfc0d4b50f57feaf6e726a0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 026/132] fix: Jacobian of the minimal difference of
 homogeneous points and mapped rotations

---
 .../aslam_backend_expressions/src/HomogeneousPoint.cpp          | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedRotationQuaternion.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
index a716dae..419eae3 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 969c1cc..122eb1c 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index b8be1f8..6794b7a 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -83,7 +83,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
   } // namespace backend
-- 
2.43.0


From 4a4e54115ef74fe71c2f2def1b9e9af49cd6e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 027/132] fix: setting a rotation design variable left its
 rotation matrix at the old value

---
 .../aslam_backend_expressions/MappedRotationQuaternion.hpp     | 3 ++-
 .../include/aslam_backend_expressions/RotationQuaternion.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp
index 9ea3b98..d2a2508 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Core>
 #include <aslam_backend/backend/DesignVariable.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 #include "RotationExpression.hpp"
 #include "RotationExpressionNode.hpp"
 
@@ -29,7 +30,7 @@ namespace aslam {
 
       RotationExpression toExpression();
 
-        void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; }
+        void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; _C = sm::kinematics::quat2r(q); }
     private:
       virtual Eigen::Matrix3d toRotationMatrixImplementation() const;
       virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians) const;
diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp
index aeca9a5..ccd4675 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Core>
 #include <aslam_backend/backend/DesignVariable.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 #include "RotationExpression.hpp"
 #include "RotationExpressionNode.hpp"
 
@@ -38,7 +39,7 @@ namespace aslam {
 
       const Eigen::Vector4d & getQuaternion(){ return _q; }
 
-      void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; }
+      void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; _C = sm::kinematics::quat2r(q); }
     private:
       virtual Eigen::Matrix3d toRotationMatrixImplementation() const;
       virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians) const;
-- 
2.43.0


From ad3dea5963b6de7cf6061dc2327790a7e5ef3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 028/132] fix: covariance of a marginalization inverted a
 matrix that is not square

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 29ca601..88a27a7 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -152,7 +152,8 @@ void marginalize(
 			  if(numTopRowsInCov > 0)
 			  {
 				sm::timing::Timer myTimer("Covariance computation");
-				Eigen::FullPivLU<Eigen::MatrixXd> lu_decomp(R);
+				// R has as many rows as the Jacobian, those below the upper triangle are zero.
+				Eigen::FullPivLU<Eigen::MatrixXd> lu_decomp(R.topRows(jcols));
 				Eigen::MatrixXd Rinv = lu_decomp.inverse();
 				Eigen::MatrixXd covariance = Rinv * Rinv.transpose();
 				outCov = covariance.block(0, 0, numTopRowsInCov, numTopRowsInCov);
-- 
2.43.0


From 8f8dc34b0996830dac11dbed20adca818448189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 029/132] fix: marginalization prior and covariance ignored the
 scaling of the design variables

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 88a27a7..b1b9b0c 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -104,7 +104,11 @@ void marginalize(
 		  qrSolver.buildSystem(1, useMEstimator);
 
 
-		  const Eigen::MatrixXd& jacobian = qrSolver.getJacobian();
+		  // The solver scales the columns of the Jacobian, the prior and the covariance are about the unscaled design variables.
+		  Eigen::MatrixXd jacobian = qrSolver.getJacobian();
+		  for (size_t i = 0; i < inDesignVariables.size(); ++i) {
+			  jacobian.middleCols(inDesignVariables[i]->columnBase(), inDesignVariables[i]->minimalDimensions()) /= inDesignVariables[i]->scaling();
+		  }
 		  const Eigen::VectorXd& b = qrSolver.e();
 
 		  // check dimension of jacobian
-- 
2.43.0


From c47d2e332673272be7a392887e0abdc32f055e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 030/132] fix: marginalization lost information when the
 removed variables were not fully determined

---
 .../aslam_backend/src/Marginalizer.cpp        | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index b1b9b0c..25ee0b9 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -148,9 +148,7 @@ void marginalize(
               // do QR decomposition
 			  sm::timing::Timer myTimer("QR Decomposition");
               Eigen::HouseholderQR<Eigen::MatrixXd> qr(jacobian);
-			  Eigen::MatrixXd Q = qr.householderQ();
 			  Eigen::MatrixXd R = qr.matrixQR().triangularView<Eigen::Upper>();
-			  Eigen::VectorXd d = Q.transpose()*b;
 			  myTimer.stop();
 
 			  if(numTopRowsInCov > 0)
@@ -172,12 +170,23 @@ void marginalize(
 			  SM_ASSERT_GE(aslam::Exception, R.cols(), numTopRowsInCov, "Cannot extract " << numTopRowsInCov << " cols of R because it only has " << R.cols() << " cols.");
 			  //outRtop = R.block(0, 0, numTopRowsInRtop, numTopRowsInRtop);
 
-              // cut off the zero rows at the bottom
-              R_reduced = R.block(dimOfDesignVariablesToRemove, dimOfDesignVariablesToRemove, dimOfRemainingDesignVariables, dimOfRemainingDesignVariables);
-			  //R_reduced = R.block(dimOfDesignVariablesToRemove, dimOfDesignVariablesToRemove, numRowsToKeep, dimOfRemainingDesignVariables);
+              // Eliminate the removed design variables. The rows below the rank of their columns do not depend on them; if they are
+              // not fully determined (rank deficient), these are more rows than the ones below their number of columns.
+              Eigen::MatrixXd remaining(jrows, dimOfRemainingDesignVariables + 1);
+              remaining << jacobian.rightCols(dimOfRemainingDesignVariables), b;
+              int rankOfRemoved = 0;
+              if (dimOfDesignVariablesToRemove > 0)
+              {
+                Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qrRemoved(jacobian.leftCols(dimOfDesignVariablesToRemove));
+                rankOfRemoved = qrRemoved.rank();
+                remaining.applyOnTheLeft(qrRemoved.matrixQ().adjoint());
+              }
+              Eigen::HouseholderQR<Eigen::MatrixXd> qrRemaining(remaining.bottomLeftCorner(jrows - rankOfRemoved, dimOfRemainingDesignVariables));
+              remaining.bottomRows(jrows - rankOfRemoved).applyOnTheLeft(qrRemaining.householderQ().adjoint());
 
-              d_reduced = d.segment(dimOfDesignVariablesToRemove, dimOfRemainingDesignVariables);
-              //d_reduced = d.segment(dimOfDesignVariablesToRemove, numRowsToKeep);
+              // cut off the zero rows at the bottom
+              R_reduced = qrRemaining.matrixQR().topRows(dimOfRemainingDesignVariables).triangularView<Eigen::Upper>();
+              d_reduced = remaining.col(dimOfRemainingDesignVariables).segment(rankOfRemoved, dimOfRemainingDesignVariables);
               //dimOfPriorErrorTerm = dimOfRemainingDesignVariables;
 		  }
 
-- 
2.43.0


From 17121a77068555e29fbd474c653746f2d018cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 031/132] fix: CompressedColumnMatrix: clear() and the from*
 functions forget an appended diagonal and keep the column count

---
 .../backend/implementation/CompressedColumnMatrix.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 1263f48..75b6844 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -131,9 +131,13 @@ namespace aslam {
     template<typename I>
     void CompressedColumnMatrix<I>::clear()
     {
+      if (_hasDiagonalAppended) {
+        _cols -= _rows;
+        _hasDiagonalAppended = false;
+      }
       _values.clear();
       _row_ind.clear();
-      _col_ptr.assign(_rows + 1, (index_t)0);
+      _col_ptr.assign(_cols + 1, (index_t)0);
     }
 
 
@@ -416,6 +420,7 @@ namespace aslam {
     {
       _rows = M.rows();
       _cols = M.cols();
+      _hasDiagonalAppended = false;
       _values.clear();
       _row_ind.clear();
       _col_ptr.resize(1);
@@ -462,6 +467,7 @@ namespace aslam {
         return;
       _rows = cs->nrow;
       _cols = cs->ncol;
+      _hasDiagonalAppended = false;
       const I* row_ind = reinterpret_cast<const I*>(cs->i);
       const I* col_ptr = reinterpret_cast<const I*>(cs->p);
       const double* values = reinterpret_cast<const double*>(cs->x);
-- 
2.43.0


From a4e47ce3fcd5ca57e3c869c9ccedc0902491fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 032/132] fix: SparseBlockMatrix::transpose() into an existing
 matrix keeps its old blocks

---
 .../implementation/sparse_block_matrix.hpp                      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index 532caf0..3301d53 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -255,6 +255,8 @@ bool SparseBlockMatrix<MatrixType>::transpose(SparseBlockMatrix<MatrixTransposed
       if (_colBlockIndices[i] != dest->_rowBlockIndices[i])
         return false;
     }
+    // blocks of an existing destination that are empty here must not survive
+    dest->clear();
   }
 
   for (size_t i = 0; i < _blockCols.size(); i++) {
-- 
2.43.0


From 6782b2d6296e6a83784327506d8c8e8f0242478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 033/132] fix: SparseBlockMatrix products into an existing
 destination add to its old content

---
 .../implementation/sparse_block_matrix.hpp                  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index 3301d53..799a694 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -324,6 +324,8 @@ bool SparseBlockMatrix<MatrixType>::multiply(SparseBlockMatrix<MatrixResultType>
   }
   if (!dest->_hasStorage)
     return false;
+  // dest is assigned, not accumulated
+  dest->clear();
   for (size_t i = 0; i < M->_blockCols.size(); i++) {
     for (typename SparseBlockMatrix<MatrixFactorType>::IntBlockMap::const_iterator it = M->_blockCols[i].begin(); it != M->_blockCols[i].end(); it++) {
       // look for a non-zero block in a row of column it
@@ -380,8 +382,8 @@ template<class MatrixType>
 void SparseBlockMatrix<MatrixType>::multiply(double*& dest, const double* src) const {
   if (!dest) {
     dest = new double[_rowBlockIndices[_rowBlockIndices.size() - 1]];
-    memset(dest, 0, _rowBlockIndices[_rowBlockIndices.size() - 1] * sizeof(double));
   }
+  memset(dest, 0, _rowBlockIndices[_rowBlockIndices.size() - 1] * sizeof(double));
 
   // map the memory by Eigen
   Map<VectorXd> destVec(dest, rows());
@@ -489,8 +491,8 @@ void SparseBlockMatrix<MatrixType>::rightMultiply(double*& dest, const double* s
 
   if (!dest) {
     dest = new double[destSize];
-    memset(dest, 0, destSize * sizeof(double));
   }
+  memset(dest, 0, destSize * sizeof(double));
 
   // map the memory by Eigen
   Map<VectorXd> destVec(dest, destSize);
-- 
2.43.0


From e830e043bc9e5b2659679958747d9294444a2f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 034/132] fix: assigning to a SparseBlockMatrix view zeroes the
 blocks of the matrix it viewed

---
 .../implementation/sparse_block_matrix.hpp                | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index 799a694..35641c5 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -63,7 +63,7 @@ SparseBlockMatrix<MatrixType>::SparseBlockMatrix(const std::vector<int> & rbi, c
 }
 
 template<class MatrixType>
-SparseBlockMatrix<MatrixType>::SparseBlockMatrix(const SparseBlockMatrix& source) {
+SparseBlockMatrix<MatrixType>::SparseBlockMatrix(const SparseBlockMatrix& source) : _hasStorage(true) {
   // copy source into this:
   source.cloneInto(*this);
 }
@@ -76,7 +76,8 @@ SparseBlockMatrix<MatrixType>::SparseBlockMatrix(SparseBlockMatrix&& source) : _
 template<class MatrixType>
 SparseBlockMatrix<MatrixType> & SparseBlockMatrix<MatrixType>::operator= (SparseBlockMatrix&& source) {
   if(this != &source){
-    clear(true);
+    if (_hasStorage)
+      clear(true);
     _rowBlockIndices = std::move(source._rowBlockIndices);
     _colBlockIndices = std::move(source._colBlockIndices);
     _blockCols = std::move(source._blockCols);
@@ -163,7 +164,8 @@ SparseBlockMatrix<MatrixType>* SparseBlockMatrix<MatrixType>::clone() const {
 template<class MatrixType>
 void SparseBlockMatrix<MatrixType>::cloneInto(SparseBlockMatrix<MatrixType> & ret) const {
   if (&ret != this) {
-    ret.clear(true);
+    if (ret._hasStorage)
+      ret.clear(true);
     ret = SparseBlockMatrix<MatrixType>(&_rowBlockIndices[0], &_colBlockIndices[0], _rowBlockIndices.size(), _colBlockIndices.size());
     for (size_t i = 0; i < _blockCols.size(); i++) {
       for (typename SparseBlockMatrix<MatrixType>::IntBlockMap::const_iterator it = _blockCols[i].begin(); it != _blockCols[i].end(); it++) {
-- 
2.43.0


From 895d21b94a9507040467eb13b8a118d6660fbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 035/132] fix: LinearSolverDense reports success for singular
 systems

---
 .../aslam_sparse_block_matrix/linear_solver_dense.h        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_dense.h b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_dense.h
index 33040ea..5fa7f4d 100644
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_dense.h
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_dense.h
@@ -20,6 +20,7 @@
 #include <aslam_sparse_block_matrix/linear_solver.h>
 //#include "g2o/core/batch_stats.h"
 
+#include <limits>
 #include <vector>
 #include <utility>
 #include<Eigen/Core>
@@ -101,7 +102,11 @@ namespace aslam_sparse_block_matrix {
             xvec[i] = mm[i];
         }
 #else
-        xvec = H.selfadjointView<Eigen::Upper>().ldlt().solve(Eigen::VectorXd(bvec));
+        Eigen::LDLT<Eigen::MatrixXd, Eigen::Upper> ldlt(H);
+        // a zero pivot means that the system has no unique solution
+        if (ldlt.info() != Eigen::Success || (n > 0 && !(ldlt.vectorD().cwiseAbs().minCoeff() > (std::numeric_limits<double>::min)())))
+          return false;
+        xvec = ldlt.solve(Eigen::VectorXd(bvec));
 #endif
         // std::cerr << xvec << std::endl;
         
-- 
2.43.0


From 847cbb4eb2b8c12130fb84d1b04638090a8b6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 036/132] fix: error terms on Euclidean and generic expressions
 override the const Jacobian method and can be instantiated

---
 .../include/aslam_backend_expressions/ErrorTermEuclidean.hpp    | 2 +-
 .../aslam_backend_expressions/src/ErrorTermEuclidean.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
index 8b6fd3f..6306802 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
@@ -41,7 +41,7 @@ namespace aslam {
       virtual double evaluateErrorImplementation();
 
       /// \brief evaluate the jacobian
-      virtual void evaluateJacobiansImplementation(JacobianContainer & J);
+      virtual void evaluateJacobiansImplementation(JacobianContainer & J) const;
 
     private:
       aslam::backend::EuclideanExpression _t;
diff --git a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
index c476aa5..ce2d32d 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
@@ -59,7 +59,7 @@ namespace aslam {
 
 
   /// \brief evaluate the jacobians
-  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians)
+  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians) const
   {
      _t.evaluateJacobians(_jacobians);
   }
-- 
2.43.0


From 72c174dac5d8a4c2f67a1c8bb9111b23ceed062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 037/132] fix: squared error of expression error terms uses the
 transposed square root of the weight

---
 .../include/aslam_backend_expressions/ExpressionErrorTerm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
index b11284b..6d4ea8a 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
@@ -96,12 +96,12 @@ class ExpressionErrorTerm : public aslam::backend::ErrorTermFs<IDimension> {
   virtual double evaluateErrorImplementation() {
     auto error = internal::ExpressionToEigenVectorTraits<TExpression>::toEigenErrorVector(_expression.evaluate());
     this->setError(error);
-    auto tmp = (this->sqrtInvR() * error).eval();
+    auto tmp = (this->sqrtInvR().transpose() * error).eval();
     return tmp.dot(tmp);
   }
 
   /// \brief evaluate the jacobian
-  virtual void evaluateJacobiansImplementation(JacobianContainer & jacobians) {
+  virtual void evaluateJacobiansImplementation(JacobianContainer & jacobians) const {
     _expression.evaluateJacobians(jacobians);
   }
 
-- 
2.43.0


From fe19a386673ebce80a8b164e7298e4208997224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 038/132] fix: basis matrix functor can be called by Eigen, so
 generic matrix expressions can be differentiated

---
 .../include/aslam_backend_expressions/BasisMatrixFunctor.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
index 283ff1b..49b27a1 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
@@ -22,11 +22,11 @@ struct BasisMatrixNullaryFunctor {
         _i(i),
         _j(j) {
   }
-  inline result_type operator()(Eigen::DenseIndex& index) const {
+  inline result_type operator()(const Eigen::DenseIndex& index) const {
     return (_cwiseIndex == index) ? 1 : 0;
   }
 
-  inline result_type operator()(Eigen::DenseIndex& row, Eigen::DenseIndex& col) const {
+  inline result_type operator()(const Eigen::DenseIndex& row, const Eigen::DenseIndex& col) const {
     return (_i == row && _j == col) ? 1 : 0;
   }
 };
-- 
2.43.0


From 109a7dc631f0e70947dacc710a64a2a3ba86d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 039/132] fix: quaternion log and exp derivatives no longer
 refer to destroyed temporaries

---
 .../implementation/QuaternionExpression.hpp                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/QuaternionExpression.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/QuaternionExpression.hpp
index bcb8c4c..9fbdb7f 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/QuaternionExpression.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/QuaternionExpression.hpp
@@ -105,7 +105,7 @@ struct EigenQuaternionCalculator {
   }
   
   inline static Eigen::Matrix<TScalar, 3, 4> dlog(const vector_t & v) {
-    auto J = sm::kinematics::quatLogJacobian2(convertToOtherMode<QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER>(v)) * TScalar(0.5);
+    Eigen::Matrix<TScalar, 3, 4> J = sm::kinematics::quatLogJacobian2(convertToOtherMode<QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER>(v)) * TScalar(0.5);
     if(isRealFirst(EMode)){
       return convertFromOtherMode<QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER, 3>(J.transpose()).transpose();
     }
@@ -139,7 +139,7 @@ struct EigenQuaternionCalculator {
   }
 
   inline static Eigen::Matrix<TScalar, 4, 3> dexp(const lie_algebra_vector_t & v) {
-    auto J = sm::kinematics::quatExpJacobian((v * TScalar(2)).eval()) * TScalar(2);
+    Eigen::Matrix<TScalar, 4, 3> J = sm::kinematics::quatExpJacobian((v * TScalar(2)).eval()) * TScalar(2);
     if(isRealFirst(EMode)){
       return convertFromOtherMode<QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER, 3>(J);
     }
-- 
2.43.0


From 7c373f36a14d6fcb115ae64d4794f69b40bd7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 040/132] fix: matrix variable reports its 9xN derivative when
 no chain rule is applied

---
 aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp b/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
index 5f5c51b..28cce51 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
@@ -61,7 +61,7 @@ void MatrixBasic::evaluateJacobiansImplementation(JacobianContainer & outJacobia
 {
 	if (minimalDimensionsImplementation() != 0)
 	{
-		outJacobians.add( const_cast<MatrixBasic *>(this), Eigen::Matrix3d::Identity());
+		outJacobians.add( const_cast<MatrixBasic *>(this), _B);
 	}
 }
 
-- 
2.43.0


From 294d17404df51ce21aa4a8c470d25ecbe9c787c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 041/132] fix: derivative of a quotient of generic scalars no
 longer swaps numerator and denominator

---
 .../implementation/GenericScalarExpression.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
index 99c27b3..ca7bdf9 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
@@ -134,8 +134,8 @@ class GenericScalarExpressionNodeDivide : public GSEBinRes<Scalar_> {
     Eigen::MatrixXd L(1, 1), R(1, 1);
     L(0, 0) = 1.0 / this->_rhs->toScalar();
     R(0, 0) = -this->_lhs->toScalar() / (this->_rhs->toScalar() * this->_rhs->toScalar());
-    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
-    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
   }
 };
 
-- 
2.43.0


From 3bbe6d67f707e74664fbea9d419f65279aba4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 042/132] fix: left-translated unit quaternion variables report
 their derivative

---
 .../DesignVariableUnitQuaternion.hpp                          | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
index bfa61ee..4920ebb 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
@@ -39,9 +39,7 @@ class DesignVariableUnitQuaternion : public DesignVariableGenericVector<4, Scala
   }
 
   virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians, const typename base_t::differential_t & diff) const {
-    if(Geometry_ == UnitQuaternionGeometry::RIGHT_TRANSLATED){
-      diff.addToJacobianContainer(outJacobians, (const DesignVariable *) this, Calculator::template dUpdate<Geometry_>(this->evaluate()));
-    }
+    diff.addToJacobianContainer(outJacobians, (const DesignVariable *) this, Calculator::template dUpdate<Geometry_>(this->evaluate()));
   }
 
 
-- 
2.43.0


From 167e6d6cfd0f1d7c480d886474ddae43db43c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 043/132] fix: check the knot sequence given, not the one it
 replaces

verifyKnotSequence looped over the size of the old sequence: a fresh spline
accepted decreasing knots, and replacing a longer sequence read past the end
of the new one.
---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fe08248..55b7802 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -187,7 +187,7 @@ namespace aslam_bsplines {
 		     << "for a B-spline of order " << splineOrder_ << ". At least " << minimumKnotsRequired() 
 		     << " knots are required");
       
-      for(unsigned i = 1; i < knots_.size(); i++)
+      for(unsigned i = 1; i < knots.size(); i++)
 	{
 	  SM_ASSERT_LE(Exception, knots[i-1], knots[i],
 			 "The knot sequence must be nondecreasing. Knot " << i
-- 
2.43.0


From 9831a9cc652729d915954a703b223198ae25ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 044/132] fix: addCurveSegment2 penalises the acceleration of
 the curve

The acceleration rows left out the contribution of the fixed coefficients, so
the smoothness term pulled the two new coefficients to zero instead of keeping
the acceleration small.
---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 55b7802..8b85b4f 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -1244,12 +1244,12 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       // Add regularization constraints (keep the acceleration small)
       P = Phi(t_0,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients;
       brow += D;
 
       P = Phi(t_1,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients;
       brow += D;
 
       //A.block(brow,bcol,coefficientDim,coefficientDim) = 1e-4 * Eigen::MatrixXd::Identity(coefficientDim, coefficientDim);
-- 
2.43.0


From 365cc19952882315d76355666a3aea3d88a7cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 045/132] fix: removeCurveSegment removes the segment's basis
 matrix

The basis matrices kept those of the removed segment, so every remaining
segment was evaluated with the matrix of its predecessor: the curve of a
spline with non-uniform knots changed.
---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 8b85b4f..6a801b3 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -743,6 +743,8 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
 	{
 	  knots_.erase(knots_.begin());
 	  coefficients_ = coefficients_.block(0,1,coefficients_.rows(),coefficients_.cols() - 1).eval();
+	  if(!basisMatrices_.empty())
+	    basisMatrices_.erase(basisMatrices_.begin());
 	}
     }
 
-- 
2.43.0


From df84d2e4e345858b4ed6199effa26d00b2c70cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 046/132] fix: index the time offset Jacobian by coefficient

The Jacobian without a chain rule factor used the position in the buffer as
if it were the coefficient index: for a time beyond the first segments it read
outside the matrix, otherwise it gave coefficients the derivative of others.
---
 .../aslam_splines/src/BSplineExpressions.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 4f8e95c..84efa43 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -479,7 +479,7 @@ namespace aslam {
             {
             	// nonzero Jacobian
             	if(_localCoefficientIndices[i] >= minIdx && _localCoefficientIndices[i] <= maxIdx )
-            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(i-minIdx)*6) );
+            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(_localCoefficientIndices[i]-minIdx)*6) );
             	// zero Jacobian:
             	else
             		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), Eigen::Matrix<double, 6,6>::Zero());
-- 
2.43.0


From faa5d8a6862d17991aeeae8d676834905b8467b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 047/132] fix: include the rotation in the body frame
 acceleration Jacobian of the pose spline expression

---
 .../aslam_splines/src/BSplineExpressions.cpp  | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 84efa43..eb28a87 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -1,5 +1,6 @@
 #include <aslam_splines/BSplineExpressions.hpp>
 #include <aslam_splines/BSplinePoseDesignVariable.hpp>
+#include <sm_kinematics/rotations.hpp>
 
 namespace aslam {
     namespace splines {
@@ -312,9 +313,16 @@ namespace aslam {
     void BSplineAccelerationBodyFrameExpressionNode::
         evaluateJacobiansImplementation(aslam::backend::JacobianContainer&
         outJacobians) const {
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      // a_b = C_b_w * a_w, so both the acceleration and the orientation depend
+      // on the coefficients.
+      Eigen::MatrixXd Ja, Jr;
+      _spline->evalDAndJacobian(_time, 2, &Ja, NULL);
+      const Eigen::Matrix3d C_b_w =
+        _spline->inverseOrientationAndJacobian(_time, &Jr, NULL);
+      const Eigen::MatrixXd J = C_b_w * Ja.topRows(3) +
+        sm::kinematics::crossMx(_spline->linearAccelerationBodyFrame(_time)) *
+        Jr;
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
@@ -326,9 +334,16 @@ namespace aslam {
         outJacobians, const Eigen::MatrixXd & applyChainRule) const {
       SM_ASSERT_EQ_DBG(aslam::Exception, applyChainRule.cols(), 3,
         "The chain rule matrix is the wrong size");
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      // a_b = C_b_w * a_w, so both the acceleration and the orientation depend
+      // on the coefficients.
+      Eigen::MatrixXd Ja, Jr;
+      _spline->evalDAndJacobian(_time, 2, &Ja, NULL);
+      const Eigen::Matrix3d C_b_w =
+        _spline->inverseOrientationAndJacobian(_time, &Jr, NULL);
+      const Eigen::MatrixXd J = C_b_w * Ja.topRows(3) +
+        sm::kinematics::crossMx(_spline->linearAccelerationBodyFrame(_time)) *
+        Jr;
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
-- 
2.43.0


From 6420e3c01742b9719d003f3f498cb9509e2d04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 048/132] fix: give the world frame angular rates of a pose
 spline and their Jacobians the sign of angularVelocity()

---
 .../aslam_bsplines/src/BSplinePose.cpp                 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index b771999..982853c 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -273,12 +273,13 @@ namespace aslam_bsplines {
       //std::cout << "Jpdot\n" << Jpdot << std::endl;
 
       Eigen::Matrix<double,3,6> Jo;
-      omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      // The same sign convention as angularVelocity().
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
       
       //std::cout << "Jo:\n" << Jo << std::endl;
       if(J)
 	{
-	  *J = Jo * Jpdot;
+	  *J = -Jo * Jpdot;
 	}
 
       return omega;
@@ -349,10 +350,11 @@ namespace aslam_bsplines {
     	Jpdot.block(0,0,3,Jpdot.cols()) = Jp.block(3,0,3,Jp.cols());
 
     	Eigen::Matrix<double,3,6> Jo;
-    	omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	// The same sign convention as angularAcceleration().
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
     	if(J)
     	{
-    		*J = Jo * Jpdot;
+    		*J = -Jo * Jpdot;
     	}
 
     	return omega;
-- 
2.43.0


From 470e5fa569dbb1347793eccc11ec3184f5baa874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 049/132] fix: make the motion error terms penalise the spline
 derivative itself

---
 .../aslam_splines/implementation/BSplineMotionErrorFactory.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
index 317650a..35d03b7 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
@@ -17,8 +17,9 @@ void addMotionErrorTerms(OptimizationProblemBase& problem, SplineDv& splineDv, c
     for(unsigned i = 0; i < idxs.size(); ++i) {
       dvs.push_back(splineDv.designVariable(idxs[i]));
     }
+    // The prior evaluates R * (x - x0) - d and x0 = c, so d = -R*c makes it R * x.
     MarginalizationPriorErrorTerm::Ptr err( 
-        new MarginalizationPriorErrorTerm( dvs, R*c, R ));
+        new MarginalizationPriorErrorTerm( dvs, -(R*c), R ));
     problem.addErrorTerm(err);
             
   }
-- 
2.43.0


From 0bccbe5068cd21e7285d5d88c40c761969308b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 050/132] fix: keep the motion error Hessian in the upper
 triangle when the blocks are permuted

---
 .../aslam_splines/implementation/BSplineMotionError.hpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
index 910fddb..daef0d8 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
@@ -144,8 +144,13 @@ namespace aslam {
             				if (Qblock) { // check if block exists
             					// get the Hessian Block
             					const bool allocateIfMissing = true;
-            					Eigen::MatrixXd *Hblock = outHessian.block(rowBlockIndex, colBlockIndex, allocateIfMissing);
-            					*Hblock += *Qblock;  // insert!
+            					if (rowBlockIndex <= colBlockIndex) {
+            						Eigen::MatrixXd *Hblock = outHessian.block(rowBlockIndex, colBlockIndex, allocateIfMissing);
+            						*Hblock += *Qblock;  // insert!
+            					} else { // only the upper triangle of the Hessian is used
+            						Eigen::MatrixXd *Hblock = outHessian.block(colBlockIndex, rowBlockIndex, allocateIfMissing);
+            						*Hblock += *Qblock;
+            					}
             				}
             			}
 
-- 
2.43.0


From 562b50c57dde1269523a91e385e9194bf1de575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 051/132] fix: parenthesise the SM_CHECK*SAME macros so that
 combined comparisons look at every member

---
 .../sm_common/include/sm_common/serialization_macros.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
index 814afca..dc8043a 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
         SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 04981f55a47879bb09adf1b7fb43fe91e66f73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 052/132] fix: ImageMask refuses keypoints outside of the mask
 instead of reading beyond it

---
 .../include/aslam_cameras/cameras/ImageMask.hpp          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
index fc311f3..ba70fa7 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
@@ -33,10 +33,13 @@ class ImageMask {
 
   template<typename DERIVED>
   bool isValid(const DERIVED & k) const {
-    int k1 = k(1, 0) * _scale;
-    int k0 = k(0, 0) * _scale;
+    const double k1 = k(1, 0) * _scale;
+    const double k0 = k(0, 0) * _scale;
 //     // \todo fix this when it is initialized properly
-    return !_mask.data || (_mask.at<unsigned char>(k1, k0) > 0);
+    // A keypoint outside of the mask is not valid, it must not be looked up.
+    return !_mask.data
+        || (k1 >= 0 && k0 >= 0 && k1 < _mask.rows && k0 < _mask.cols
+            && _mask.at<unsigned char>((int) k1, (int) k0) > 0);
   }
 
   // is the mask set? (i.e. mask data != NULL)
-- 
2.43.0


From 25286d19d71d19f7ae604c69283d411ac4a7367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 053/132] fix: vsIsEuclideanVisible and vsIsHomogeneousVisible
 apply the mask like their non-virtual versions

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 56a06ff..814859d 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -121,13 +121,13 @@ namespace aslam {
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsEuclideanVisible(
         const Eigen::Vector3d & p) const {
-      return _projection.isEuclideanVisible(p);
+      return isEuclideanVisible(p);
     }
 
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsHomogeneousVisible(
         const Eigen::Vector4d & ph) const {
-      return _projection.isHomogeneousVisible(ph);
+      return isHomogeneousVisible(ph);
     }
 
     // The amount of time elapsed between the start of the image and the
-- 
2.43.0


From 89ab2d1f761f09a74ceb473c3455c80653428af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 054/132] fix: iterate until radial-tangential undistortion has
 converged

---
 .../cameras/implementation/RadialTangentialDistortion.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/RadialTangentialDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/RadialTangentialDistortion.hpp
index a50f284..4e40006 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/RadialTangentialDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/RadialTangentialDistortion.hpp
@@ -75,7 +75,7 @@ void RadialTangentialDistortion::undistort(
   y.derived().resize(2);
 
   Eigen::Vector2d ybar = y;
-  const int n = 5;
+  const int n = 30;  // stops as soon as it has converged
   Eigen::Matrix2d F;
 
   Eigen::Vector2d y_tmp;
-- 
2.43.0


From 9af200125d98199293a1fc3ba5bf7cd4aa986aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 055/132] fix: equidistant distortion is finite at the center
 of distortion

---
 .../implementation/EquidistantDistortion.hpp       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
index c7bda6b..4b3cc18 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
@@ -50,6 +50,13 @@ void EquidistantDistortion::distort(
 
   double r, theta, theta2, theta4, theta6, theta8, thetad, scaling;
 
+  r = sqrt(y[0] * y[0] + y[1] * y[1]);
+  if (r <= 1e-8) {
+    // the expressions below are 0/0 at the center, where distort() is the identity
+    J.setIdentity();
+    return;
+  }
+
   //MATLAB generated Jacobian
   J(0, 0) = atan(sqrt(y[0] * y[0] + y[1] * y[1])) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1])
@@ -204,7 +211,7 @@ void EquidistantDistortion::undistort(
     theta = thetad
         / (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8);
   }
-  scaling = tan(theta) / thetad;
+  scaling = (thetad > 1e-8) ? tan(theta) / thetad : 1.0;
 
   y[0] *= scaling;
   y[1] *= scaling;
@@ -255,6 +262,11 @@ void EquidistantDistortion::distortParameterJacobian(
   J.derived().resize(2, 4);
   J.setZero();
 
+  if (y[0] * y[0] + y[1] * y[1] <= 1e-16) {
+    // the expressions below are 0/0 at the center
+    return;
+  }
+
   J(0, 0) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 3.0) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1]);
   J(0, 1) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 5.0) * 1.0
-- 
2.43.0


From 053b91d4d77b271a2deea266ddf2278cebc83cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 056/132] fix: equidistant undistortion converges for strong
 distortion

---
 .../cameras/implementation/EquidistantDistortion.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
index 4b3cc18..8c1efd7 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
@@ -202,15 +202,21 @@ void EquidistantDistortion::undistort(
   double theta, theta2, theta4, theta6, theta8, thetad, scaling;
 
   thetad = sqrt(y[0] * y[0] + y[1] * y[1]);
-  theta = thetad;  // initial guess
+  theta = std::min(thetad, M_PI / 2.0);  // initial guess
   for (int i = 20; i > 0; i--) {
+    // Newton's method: a fixed-point iteration does not converge for strong distortion
     theta2 = theta * theta;
     theta4 = theta2 * theta2;
     theta6 = theta4 * theta2;
     theta8 = theta4 * theta4;
-    theta = thetad
-        / (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8);
+    const double step = (theta
+        * (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8) - thetad)
+        / (1 + 3 * _k1 * theta2 + 5 * _k2 * theta4 + 7 * _k3 * theta6 + 9 * _k4 * theta8);
+    theta -= step;
+    if (std::abs(step) < 1e-14)
+      break;
   }
+
   scaling = (thetad > 1e-8) ? tan(theta) / thetad : 1.0;
 
   y[0] *= scaling;
-- 
2.43.0


From 96e9bd56609b5cd3fef478c6e4d18cb85d46b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 057/132] fix: pinhole homogeneousToKeypoint with Jacobian
 respects the sign of the fourth coordinate

---
 .../cameras/implementation/PinholeProjection.hpp              | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 232d2aa..379beda 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -179,10 +179,6 @@ bool PinholeProjection<DISTORTION_T>::homogeneousToKeypoint(
   J.derived().resize(KeypointDimension, 4);
   J.setZero();
 
-  // hope this works... (required to have valid static asserts)
-  return euclideanToKeypoint(ph.derived().template head<3>(), outKeypoint,
-                             J.derived().template topLeftCorner<2, 3>());
-
   if (ph[3] < 0) {
     bool success = euclideanToKeypoint(
         -ph.derived().template head<3>(), outKeypoint,
-- 
2.43.0


From 9fb5a64ded3bb296f5ef067da122879b60eac3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 058/132] fix: back-projection with Jacobian resizes its
 outputs

---
 .../cameras/implementation/DoubleSphereProjection.hpp            | 1 +
 .../cameras/implementation/ExtendedUnifiedProjection.hpp         | 1 +
 .../aslam_cameras/cameras/implementation/OmniProjection.hpp      | 1 +
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
index dbb1999..41048f0 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
@@ -375,6 +375,7 @@ bool DoubleSphereProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
 
   Jk(0, 0) = _recip_fu * (mx * d_k_d_mx + k);
   Jk(1, 0) = _recip_fu * my * d_k_d_mx;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 751bf31..a9711d1 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -330,6 +330,7 @@ bool ExtendedUnifiedProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
   
   Jk(0, 0) = (norm_inv + 2 * mx * mx * d_norm_inv_d_r2) * _recip_fu;
   Jk(1, 0) = (2 * my * mx * d_norm_inv_d_r2) * _recip_fu;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
index 796becb..1f12129 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
@@ -298,6 +298,7 @@ bool OmniProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
 
   double r0 = outPoint[0];
   double r1 = outPoint[1];
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 379beda..9f0f4e5 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -306,6 +306,7 @@ bool PinholeProjection<DISTORTION_T>::keypointToHomogeneous(
 
   DERIVED_P & p =
       const_cast<DERIVED_P &>(outPoint);
+  p.derived().resize(4);
   p[3] = 0.0;
 
   return keypointToEuclidean(keypoint, p.template head<3>(),
-- 
2.43.0


From 540f8aa6f7742745e0aab5277d4d212982f92a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 059/132] fix: pinhole back-projection Jacobian scales columns,
 not rows, by the focal lengths

---
 .../cameras/implementation/PinholeProjection.hpp            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 9f0f4e5..8ebd31b 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -257,10 +257,8 @@ bool PinholeProjection<DISTORTION_T>::keypointToEuclidean(
   //J.derived()(0,0) = 1.0;
   //J.derived()(1,1) = _fu_over_fv;
 
-  J.derived()(0, 0) = _recip_fu;
-  J.derived()(1, 1) = _recip_fv;
-
-  J *= Jd;
+  J.template topRows<2>() = Jd
+      * Eigen::Vector2d(_recip_fu, _recip_fv).asDiagonal();
 
   return isValid(keypoint);
 
-- 
2.43.0


From ae6858ff754b1737439f91cfa199860b0f8fc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 060/132] fix: euclideanToKeypointIntrinsicsJacobian places the
 blocks of its selection side by side

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 814859d..7aed6c8 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -679,14 +679,14 @@ namespace aslam {
       if (estimateProjection) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointIntrinsicsJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension, _projection.minimalDimensions()) = J;
+        outJi.block(0, col, KeypointDimension, _projection.minimalDimensions()) = J;
         col += _projection.minimalDimensions();
       }
 
       if (estimateDistortion) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointDistortionJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension,
+        outJi.block(0, col, KeypointDimension,
                     _projection.distortion().minimalDimensions()) = J;
         col += _projection.distortion().minimalDimensions();
       }
-- 
2.43.0


From 354a2922e090248010412ebc11ff5a5b3c0c3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 061/132] fix: the global shutter's temporal offset Jacobian
 has one row like its caller's block

---
 .../include/aslam_cameras/cameras/GlobalShutter.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
index 425cea6..556ea16 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
@@ -38,7 +38,7 @@ class GlobalShutter {
       const DERIVED_J & outJ) const {
       DERIVED_J & J =
         const_cast<DERIVED_J &>(outJ);
-      J.resize(0, 0);
+      J.resize(1, 0);
 
   }
 
-- 
2.43.0


From 07403909bb0c17ff54d105934d1286ba26030c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 062/132] fix: FOV distortion parameter Jacobian near the
 center points along the keypoint

---
 .../aslam_cameras/cameras/implementation/FovDistortion.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
index 94db759..6706824 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
@@ -154,7 +154,7 @@ void FovDistortion::distortParameterJacobian(
     J.setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    J.setOnes();
+    J = y;
     J *= (_w - sin(_w)) / (_w * _w * cos(_w / 2) * cos(_w / 2));
   } else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 2cbfb260f66684be72bf0dd43fd95cb0fdf5fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 063/132] fix: extended unified projection parameter Jacobian
 uses the vertical focal length for the second row

---
 .../cameras/implementation/ExtendedUnifiedProjection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index a9711d1..a153241 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -433,7 +433,7 @@ void ExtendedUnifiedProjection<DISTORTION_T>::euclideanToKeypointIntrinsicsJacob
   J.setZero();
 
   const double tmp_x = -_fu * x * norm_inv2;
-  const double tmp_y = -_fu * y * norm_inv2;
+  const double tmp_y = -_fv * y * norm_inv2;
 
   const double tmp4 = (d - z);
   const double tmp5 = 0.5 * _alpha * r2 * d_inv;
-- 
2.43.0


From 859df962e6bf59ec3d0f910bb2a119af490d1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 064/132] fix: a duration with exactly one second of
 nanoseconds is carried into the seconds

---
 aslam_cv/aslam_time/src/duration.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/aslam_cv/aslam_time/src/duration.cpp b/aslam_cv/aslam_time/src/duration.cpp
index 92cfa63..1f3c97d 100644
--- a/aslam_cv/aslam_time/src/duration.cpp
+++ b/aslam_cv/aslam_time/src/duration.cpp
@@ -4,14 +4,10 @@
 namespace aslam {
 
 void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
-  int64_t nsec_part = nsec;
-  int64_t sec_part = sec;
+  int64_t nsec_part = nsec % 1000000000L;
+  int64_t sec_part = sec + nsec / 1000000000L;
 
-  while (nsec_part > 1000000000L) {
-    nsec_part -= 1000000000L;
-    ++sec_part;
-  }
-  while (nsec_part < 0) {
+  if (nsec_part < 0) {
     nsec_part += 1000000000L;
     --sec_part;
   }
-- 
2.43.0


From 60e9850942f538c464b8476add658330bb30876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 065/132] fix: Duration::fromSec rounds to the nearest
 nanosecond, normalises and refuses values out of range

---
 .../aslam_time/implementation/Duration.hpp    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 5cd6611..6308106 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -51,17 +51,18 @@ DurationBase<T>::DurationBase(int32_t _sec, int32_t _nsec)
 
 template<class T>
 T& DurationBase<T>::fromSec(double d) {
-#ifdef HAVE_TRUNC
-  sec = (int32_t)trunc(d);
-#else
-  // (morgan: why doesn't win32 provide trunc? argh. hacked this together
-  // without much thought. need to test this conversion.
-  if (d >= 0.0)
-    sec = (int32_t) floor(d);
-  else
-    sec = (int32_t) floor(d) + 1;
-#endif
-  nsec = (int32_t)((d - (double) sec) * 1000000000);
+  const double floor_sec = floor(d);
+
+  // the negated condition also refuses NaN
+  if (!(floor_sec >= (double) INT_MIN && floor_sec <= (double) INT_MAX))
+    throw std::runtime_error("Duration is out of dual 32-bit range");
+
+  int64_t sec64 = (int64_t) floor_sec;
+  int64_t nsec64 = (int64_t) floor((d - floor_sec) * 1e9 + 0.5);
+  normalizeSecNSecSigned(sec64, nsec64);
+
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
   return *static_cast<T*>(this);
 }
 
-- 
2.43.0


From 188d442f0b1954fcd7af12d6070fea8532181025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 066/132] fix: duration arithmetic out of the 32-bit range is
 refused instead of wrapped

---
 .../aslam_time/implementation/Duration.hpp    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 6308106..0f5e0c2 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -68,17 +68,22 @@ T& DurationBase<T>::fromSec(double d) {
 
 template<class T>
 T& DurationBase<T>::fromNSec(int64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
+  int64_t sec64 = t / 1000000000;
+  int64_t nsec64 = t % 1000000000;
 
-  normalizeSecNSecSigned(sec, nsec);
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec64, nsec64);
+
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
 
 template<class T>
 T DurationBase<T>::operator+(const T &rhs) const {
-  return T(sec + rhs.sec, nsec + rhs.nsec);
+  T t;
+  return t.fromNSec(toNSec() + rhs.toNSec());
 }
 
 template<class T>
@@ -88,12 +93,14 @@ T DurationBase<T>::operator*(double scale) const {
 
 template<class T>
 T DurationBase<T>::operator-(const T &rhs) const {
-  return T(sec - rhs.sec, nsec - rhs.nsec);
+  T t;
+  return t.fromNSec(toNSec() - rhs.toNSec());
 }
 
 template<class T>
 T DurationBase<T>::operator-() const {
-  return T(-sec, -nsec);
+  T t;
+  return t.fromNSec(-toNSec());
 }
 
 template<class T>
-- 
2.43.0


From fafe3b1482100d42d5902dff1d3d68b8fde249da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 067/132] fix: times out of the 32-bit range are refused and
 fromSec carries a rounded-up second

---
 aslam_cv/aslam_time/include/aslam_time/Time.hpp    | 14 ++++++++++++--
 .../include/aslam_time/implementation/Time.hpp     | 10 +++++++---
 aslam_cv/aslam_time/src/time.cpp                   |  2 +-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
index 647a676..fac6871 100644
--- a/aslam_cv/aslam_time/include/aslam_time/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
@@ -153,8 +153,18 @@ class TimeBase {
   }
   ;
   T& fromSec(double t) {
-    sec = (uint32_t) floor(t);
-    nsec = (uint32_t) boost::math::round((t - sec) * 1e9);
+    const double floor_sec = floor(t);
+
+    // the negated condition also refuses NaN
+    if (!(floor_sec >= 0.0 && floor_sec <= (double) UINT_MAX))
+      throw std::runtime_error("Time is out of dual 32-bit range");
+
+    uint64_t sec64 = (uint64_t) floor_sec;
+    uint64_t nsec64 = (uint64_t) boost::math::round((t - floor_sec) * 1e9);
+    normalizeSecNSec(sec64, nsec64);
+
+    sec = (uint32_t) sec64;
+    nsec = (uint32_t) nsec64;
     return *static_cast<T*>(this);
   }
 
diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
index 6d49211..c66a622 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
@@ -60,10 +60,14 @@ namespace aslam {
 
 template<class T, class D>
 T& TimeBase<T, D>::fromNSec(uint64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
+  uint64_t sec64 = t / 1000000000;
+  uint64_t nsec64 = t % 1000000000;
 
-  normalizeSecNSec(sec, nsec);
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSec(sec64, nsec64);
+
+  sec = (uint32_t) sec64;
+  nsec = (uint32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 42a5527..aa1a418 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -349,7 +349,7 @@ void normalizeSecNSec(uint64_t& sec, uint64_t& nsec) {
   uint64_t nsec_part = nsec % 1000000000UL;
   uint64_t sec_part = nsec / 1000000000UL;
 
-  if (sec_part > UINT_MAX)
+  if (sec > UINT_MAX || sec + sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec += sec_part;
-- 
2.43.0


From 0db013ab767475ac0a059ab41a650e1d564f2c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 068/132] fix: time sums and differences cover the whole 32-bit
 range of times and durations

---
 .../include/aslam_time/implementation/Duration.hpp |  2 +-
 .../include/aslam_time/implementation/Time.hpp     | 14 ++++++++++----
 aslam_cv/aslam_time/src/time.cpp                   | 12 ++++--------
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 0f5e0c2..c691436 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -111,7 +111,7 @@ T& DurationBase<T>::operator+=(const T &rhs) {
 
 template<class T>
 T& DurationBase<T>::operator-=(const T &rhs) {
-  *this += (-rhs);
+  *this = *this - rhs;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
index c66a622..53f1a91 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
@@ -74,13 +74,19 @@ T& TimeBase<T, D>::fromNSec(uint64_t t) {
 
 template<class T, class D>
 D TimeBase<T, D>::operator-(const T &rhs) const {
-  return D((int32_t) sec - (int32_t) rhs.sec,
-           (int32_t) nsec - (int32_t) rhs.nsec);  // carry handled in ctor
+  D d;
+  return d.fromNSec((int64_t) toNSec() - (int64_t) rhs.toNSec());
 }
 
 template<class T, class D>
 T TimeBase<T, D>::operator-(const D &rhs) const {
-  return *static_cast<const T*>(this) + (-rhs);
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecUnsigned(sec_diff, nsec_diff);
+
+  return T((uint32_t) sec_diff, (uint32_t) nsec_diff);
 }
 
 template<class T, class D>
@@ -103,7 +109,7 @@ T& TimeBase<T, D>::operator+=(const D &rhs) {
 
 template<class T, class D>
 T& TimeBase<T, D>::operator-=(const D &rhs) {
-  *this += (-rhs);
+  *this = *this - rhs;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index aa1a418..ac99f55 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -367,19 +367,15 @@ void normalizeSecNSec(uint32_t& sec, uint32_t& nsec) {
 }
 
 void normalizeSecNSecUnsigned(int64_t& sec, int64_t& nsec) {
-  int64_t nsec_part = nsec;
-  int64_t sec_part = sec;
+  int64_t nsec_part = nsec % 1000000000L;
+  int64_t sec_part = sec + nsec / 1000000000L;
 
-  while (nsec_part >= 1000000000L) {
-    nsec_part -= 1000000000L;
-    ++sec_part;
-  }
-  while (nsec_part < 0) {
+  if (nsec_part < 0) {
     nsec_part += 1000000000L;
     --sec_part;
   }
 
-  if (sec_part < 0 || sec_part > INT_MAX)
+  if (sec_part < 0 || sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec = sec_part;
-- 
2.43.0


From 52fe7114aef8e4f22f4a53392a291d9ec698f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 069/132] fix: secToNsec rounds to the nearest nanosecond

---
 Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp b/Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp
index ada3049..3981b61 100644
--- a/Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp
+++ b/Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp
@@ -1,4 +1,5 @@
 #include <sm_timing/NsecTimeUtilities.hpp>
+#include <cmath>
 
 namespace sm {
 namespace timing {
@@ -32,7 +33,7 @@ double nsecToSec( const NsecTime & time ) {
 
 /// \brief Convert the time (in seconds) to integer nanoseconds
 NsecTime secToNsec( const double & time ) {
-  return boost::int64_t( time * 1e9 );
+  return boost::int64_t( std::floor( time * 1e9 + 0.5 ) );
 }
 
 } // namespace timing
-- 
2.43.0


From eb6ed892e849b9384f89a4ca9ba4baf9aaa4802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 070/132] fix: negative durations are printed with their value

---
 aslam_cv/aslam_time/src/time.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index ac99f55..725f0da 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -250,18 +250,30 @@ bool Time::waitForValid(const aslam::WallDuration& timeout) {
   return true;
 }
 
-std::ostream& operator<<(std::ostream& os, const Time &rhs) {
+// Prints decimal seconds; the nanoseconds are non-negative also for negative
+// durations, where they have to be subtracted from the seconds.
+static std::ostream& printDuration(std::ostream& os, int32_t sec, int32_t nsec) {
   boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
+  if (sec < 0 && nsec > 0) {
+    ++sec;
+    nsec = 1000000000 - nsec;
+    if (sec == 0)
+      os << "-";
+  }
+  os << sec << "." << std::setw(9) << std::setfill('0') << nsec;
   return os;
 }
 
-std::ostream& operator<<(std::ostream& os, const Duration& rhs) {
+std::ostream& operator<<(std::ostream& os, const Time &rhs) {
   boost::io::ios_all_saver s(os);
   os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
   return os;
 }
 
+std::ostream& operator<<(std::ostream& os, const Duration& rhs) {
+  return printDuration(os, rhs.sec, rhs.nsec);
+}
+
 bool Time::sleepUntil(const Time& end) {
   if (Time::useSystemTime()) {
     Duration d(end - Time::now());
@@ -336,9 +348,7 @@ WallTime WallTime::now() {
 }
 
 std::ostream &operator<<(std::ostream& os, const WallDuration& rhs) {
-  boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
-  return os;
+  return printDuration(os, rhs.sec, rhs.nsec);
 }
 
 bool WallDuration::sleep() const {
-- 
2.43.0


From 81ffec59fa320a29ffc4fdfcd63361b06a241002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 071/132] fix: timestamp corrector does not keep a stale
 segment when the hull shrinks to two points

---
 .../include/sm_timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index a795242..b4226b5 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -57,6 +57,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   }
   else
   {
+    // the hull may have shrunk, there is only one segment left
+    _midpointSegmentIndex = 0;
     // and if there aren't enough data points, just return the sampled local time.
     return localTime;
   }
-- 
2.43.0


From 4a1cd1497eba786f54e3250b30998d842407302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 072/132] fix: timestamp corrector does not overflow or lose
 precision for integer times

---
 .../sm_timing/implementation/TimestampCorrector.hpp       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index b4226b5..3cd504e 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -44,7 +44,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3)
   {
-    T midpoint = (_convexHull[0].x + remoteTime) / 2.0;
+    T midpoint = _convexHull[0].x + (remoteTime - _convexHull[0].x) / 2;
 	  
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(), _convexHull.end(), midpoint);
     _midpointSegmentIndex = lbit - _convexHull.begin() - 1;
@@ -102,7 +102,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::getLocalTime(const
   const Point & l2 = _convexHull[_midpointSegmentIndex + 1];
 
   // look up the local timestamp
-  return  l1.y + ((remoteTime - l1.x) * (l2.y - l1.y) / (l2.x - l1.x) ); 
+  // the product does not fit into integer time types
+  return  l1.y + static_cast<T>( static_cast<long double>(remoteTime - l1.x) * (l2.y - l1.y) / (l2.x - l1.x) ); 
 }
 
 template<typename T>
@@ -126,7 +127,8 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   Point v1 = l2 - l1;
   Point v2 = p - l1;
       
-  T determinant = v1.x * v2.y - v1.y * v2.x;
+  // the products do not fit into integer time types
+  long double determinant = static_cast<long double>(v1.x) * v2.y - static_cast<long double>(v1.y) * v2.x;
 
   return determinant >= 0.0;
 }
-- 
2.43.0


From 110b1a54b8dc93c2d9f328af2e27811da1e2abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 073/132] fix: matrices without columns can be loaded into
 types with dynamic columns

---
 .../sm_eigen/include/sm_eigen/serialization.hpp             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
index 22b3283..da0c1f5 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From 2c9c06f998eb2597b7e691e3d19665bf88ee004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 074/132] fix: matrix archives with negative dimensions are
 refused

---
 Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
index da0c1f5..d898795 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
@@ -111,6 +111,7 @@ namespace boost { namespace serialization {
       ar >> BOOST_SERIALIZATION_NVP(cols);
       SM_ASSERT_EQ(sm::eigen::SerializationException,cols,B,"Unexpected number of columns found for fixed-sized type");
       
+      SM_ASSERT_GE(sm::eigen::SerializationException,rows,0,"Negative number of rows found in the archive");
       M.resize(rows,Eigen::NoChange);
       if(rows > 0 && cols > 0)
 	{
@@ -141,6 +142,7 @@ namespace boost { namespace serialization {
       ar >> BOOST_SERIALIZATION_NVP(cols);
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
+      SM_ASSERT_GE(sm::eigen::SerializationException,cols,0,"Negative number of columns found in the archive");
       M.resize(Eigen::NoChange,cols);
       if(rows > 0 && cols > 0)
 	{
@@ -170,6 +172,8 @@ namespace boost { namespace serialization {
       ar >> BOOST_SERIALIZATION_NVP(rows);
       ar >> BOOST_SERIALIZATION_NVP(cols);    
       
+      SM_ASSERT_GE(sm::eigen::SerializationException,rows,0,"Negative number of rows found in the archive");
+      SM_ASSERT_GE(sm::eigen::SerializationException,cols,0,"Negative number of columns found in the archive");
       M.resize(rows,cols);
       if(rows > 0 && cols > 0)
 	{
-- 
2.43.0


From 7ccda1d5e05477f9b9a266e1e02af25dde4579ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 075/132] fix: loading a cv::Mat does not write into the buffer
 the matrix shared before

---
 Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index 00ac0ac..4c3fed9 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -133,7 +133,8 @@ namespace boost
       ar & make_nvp("rows",rows);
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
-      mat.create(rows, cols, type);
+      // never write into a buffer shared with, or a part of, another matrix
+      mat = cv::Mat(rows, cols, type);
       ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
     }
  
-- 
2.43.0


From f3e30a97d5c5e0d7956adecc34eb611093937eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 076/132] fix: image masks saved before the scale was added can
 be loaded

---
 .../aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
index ba70fa7..918569d 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
@@ -57,7 +57,7 @@ class ImageMask {
                  (unsigned int) CLASS_SERIALIZATION_VERSION,
                  "Unsupported serialization version");
 
-    if (CLASS_SERIALIZATION_VERSION < 1) {
+    if (version < 1) {
       ar >> BOOST_SERIALIZATION_NVP(_mask);
       _scale = 1.0;
     } else {
-- 
2.43.0


From 90d85b0d54e09f7b5db88caac09ce0c03d20d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 077/132] fix: portable binary archives treat little-endian
 machines as little-endian

---
 Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp | 4 ++--
 Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index 3a3d0b1..b30e4e9 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -39,12 +39,12 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
         );
 
     char * cptr = reinterpret_cast<char *>(& l);
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
     #endif
     this->primitive_base_t::load_binary(cptr, size);
 
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         if(m_flags & endian_little)
     #else
         if(m_flags & endian_big)
diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
index 717dff3..8541392 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
@@ -49,7 +49,7 @@ portable_binary_oarchive::save_impl(
     else
         ll = l;
     char * cptr = reinterpret_cast<char *>(& ll);
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
         if(m_flags & endian_little)
             reverse_bytes(size, cptr);
-- 
2.43.0


From 94b4d8db2ca25270cc0585ed886dd7d95c527542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 078/132] fix: portable binary archives refuse the integer size
 -128

---
 Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index b30e4e9..f9e9432 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -33,7 +33,7 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
     if(negative)
         size = -size;
 
-    if(size > maxsize)
+    if(size < 0 || size > maxsize)
         boost::serialization::throw_exception(
             portable_binary_iarchive_exception()
         );
-- 
2.43.0


From 66fc9842660b35e4df50c062b4a45ec53fdb7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 079/132] fix: portable binary archives store the smallest
 64-bit integer

---
 Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp | 2 +-
 Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index f9e9432..2f4d7e7 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -52,7 +52,7 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
             reverse_bytes(size, cptr);
 
     if(negative)
-        l = -l;
+        l = static_cast<boost::intmax_t>(-static_cast<boost::uintmax_t>(l));
 }
 
 void
diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
index 8541392..ef63715 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
@@ -28,10 +28,11 @@ portable_binary_oarchive::save_impl(
         return;
     }
 
-    boost::intmax_t ll;
+    // unsigned, as the magnitude of the smallest integer is not representable
+    boost::uintmax_t ll;
     bool negative = (l < 0);
     if(negative)
-        ll = -l;
+        ll = -static_cast<boost::uintmax_t>(l);
     else
         ll = l;
 
@@ -45,7 +46,7 @@ portable_binary_oarchive::save_impl(
     );
 
     if(negative)
-        ll = -l;
+        ll = -static_cast<boost::uintmax_t>(l);
     else
         ll = l;
     char * cptr = reinterpret_cast<char *>(& ll);
-- 
2.43.0


From f4f252e01fc7e3a634ef48c18349b231ea74a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 080/132] fix: ptimeToTimeval returns its result

---
 Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp b/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
index 3831f58..2e30952 100644
--- a/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
+++ b/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -13,10 +13,8 @@ namespace sm {
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
         timeval tv;
         tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        tv.tv_usec = duration.total_microseconds() - tv.tv_sec * 1000000LL;
+        return tv;
     }
 
     
-- 
2.43.0


From f91d6c5cc69dd796e69e0f918a18b29cb6198e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 081/132] fix: the trace id of keypoints is serialized

---
 aslam_cv/aslam_cameras/include/aslam_cameras/Keypoint.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/Keypoint.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/Keypoint.hpp
index 5038dc2..431d317 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/Keypoint.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/Keypoint.hpp
@@ -174,7 +174,7 @@ class Keypoint : public KeypointBase {
   ///////////////////////////////////////////////////
 
   enum {
-    CLASS_SERIALIZATION_VERSION = 1
+    CLASS_SERIALIZATION_VERSION = 2
   };BOOST_SERIALIZATION_SPLIT_MEMBER();
 
   template<class Archive>
@@ -192,6 +192,9 @@ class Keypoint : public KeypointBase {
     if (version > 0) {
       ar >> BOOST_SERIALIZATION_NVP(_octave);
     }
+    if (version > 1) {
+      ar >> BOOST_SERIALIZATION_NVP(_traceId);
+    }
   }
 
   template<class Archive>
@@ -203,6 +206,7 @@ class Keypoint : public KeypointBase {
     ar << BOOST_SERIALIZATION_NVP(_descriptor);
     ar << BOOST_SERIALIZATION_NVP(_backProjection);
     ar << BOOST_SERIALIZATION_NVP(_octave);
+    ar << BOOST_SERIALIZATION_NVP(_traceId);
   }
 
   /// \brief Support for unit testing. Is this keypoint binary equal to the other?
-- 
2.43.0


From 87d1b1630d6c3a6e8592ff0ee46396734fbe61ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 082/132] fix: image masks of different scale are not binary
 equal

---
 aslam_cv/aslam_cameras/src/ImageMask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/ImageMask.cpp b/aslam_cv/aslam_cameras/src/ImageMask.cpp
index 96fa0b4..b314467 100644
--- a/aslam_cv/aslam_cameras/src/ImageMask.cpp
+++ b/aslam_cv/aslam_cameras/src/ImageMask.cpp
@@ -58,7 +58,7 @@ double ImageMask::getScale() const {
 }
 
 bool ImageMask::isBinaryEqual(const ImageMask & rhs) const {
-  return sm::opencv::isBinaryEqual(_mask, rhs._mask);
+  return sm::opencv::isBinaryEqual(_mask, rhs._mask) && _scale == rhs._scale;
 }
 
 void ImageMask::setMaskFromMatrix(const Eigen::MatrixXi & mask) {
-- 
2.43.0


From a0e3b9e4a9336f6b9f815bae0e2ef37b5be8e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 083/132] fix: saving a one-row part of an image stores only
 that part

---
 Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index 4c3fed9..c6816f7 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
     }
  
     template<class Archive>
-- 
2.43.0


From a695f4a1cabe7ad6d8c92bedd53fd7ea7b871823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 084/132] fix: the data of every target point can be accessed,
 and of no other

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2fbb2ce..2e36d3e 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -36,7 +36,7 @@ Eigen::Vector3d GridCalibrationTargetBase::gridPoint(size_t r, size_t c) const {
 }
 
 double * GridCalibrationTargetBase::getPointDataPointer(size_t i) {
-  SM_ASSERT_LT(Exception, size()-1, i, "Grid has less points than the requested idx!")
+  SM_ASSERT_LT(Exception, i, size(), "Grid has less points than the requested idx!")
   return &_points(i, 0);
 }
 
-- 
2.43.0


From e0378fb35c06b76357f77d978cea987a957ac029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 085/132] fix: keypoint assignment and swap include the octave
 and the trace id

---
 .../include/aslam_cameras/implementation/Keypoint.hpp           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
index b4ae5ad..d6d23ec 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
@@ -287,6 +287,8 @@ void Keypoint<D>::swap(Keypoint & rhs) {
     std::swap(_landmark, rhs._landmark);
     _descriptor.swap(rhs._descriptor);
     std::swap(_backProjection, rhs._backProjection);
+    std::swap(_octave, rhs._octave);
+    std::swap(_traceId, rhs._traceId);
   }
 }
 
-- 
2.43.0


From 6c8505c1b3124b14bcba975d8a3f8e7356e42504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 086/132] fix: grid coordinates of a point are row and column
 like in the inverse mapping

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2e36d3e..9a79a0a 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -21,7 +21,7 @@ Eigen::Vector3d GridCalibrationTargetBase::point(size_t i) const {
 
 /// \brief get the grid coordinates for a point
 std::pair<size_t, size_t> GridCalibrationTargetBase::pointToGridCoordinates(size_t i) const {
-  return std::pair<size_t, size_t>(i % cols(), (int) i / cols());
+  return std::pair<size_t, size_t>(i / cols(), i % cols());
 }
 
 /// \brief get the point index from the grid coordinates
-- 
2.43.0


From 291ea75bf21e57e87610157f0c917b44a55f99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 087/132] fix: empty images of one type are binary equal
 however they were made

---
 Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index c6816f7..48964e4 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -16,8 +16,7 @@ namespace sm {
 	  bool isEqual = SM_CHECKSAME(m1.rows, m2.rows) &&
 	      SM_CHECKSAME(m1.cols, m2.cols) &&
 	      SM_CHECKSAME(m1.depth(), m2.depth()) &&
-	      SM_CHECKSAME(m1.type(), m2.type()) &&
-	      SM_CHECKSAME(m1.elemSize(), m2.elemSize());
+	      SM_CHECKSAME(m1.type(), m2.type());
 		
 	  if(isEqual)
 		{
-- 
2.43.0


From 24192b990199b9e0211432b0cb499bf79732388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 088/132] fix: clearing an entry of a matrix archive also
 clears a string

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index a9e8508..5f718d3 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 0f9ba9e98b9dd91481d0051897e375ab8c2e8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 089/132] fix: the size of a matrix archive counts its matrices

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 5f718d3..4c673f0 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -175,7 +175,7 @@ namespace sm
   }
   size_t MatrixArchive::sizeMatrices() const
   {
-    return m_strings.size();
+    return m_values.size();
   }
 
   MatrixArchive::matrix_map_t::const_iterator MatrixArchive::begin() const
-- 
2.43.0


From 6557abcc51a5558733222deaf645feab48dec381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 090/132] fix: a name in a matrix archive refers to one entry,
 and created matrices have a valid name

---
 .../include/sm_matrix_archive/MatrixArchive.hpp              | 1 +
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
index 5aec5ba..879e5a0 100644
--- a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
+++ b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 4c673f0..174e997 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -73,6 +74,8 @@ namespace sm
       }
     }
 
+    validateName(matrixName, SM_SOURCE_FILE_POS);
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     m_values[matrixName].resize(rows, cols);
     return val;
@@ -424,9 +427,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From 1c45596910e158aedac131cd107f69ba5be86815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 091/132] fix: appending a matrix archive to a file writes its
 entries

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 174e997..62fae1c 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -441,10 +441,15 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 1ca5bddfa05f3f6a5d142c425997fad4a1b5cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 092/132] fix: saving a matrix archive fails if the file could
 not be written completely

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 62fae1c..8f5955c 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -369,6 +369,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
-- 
2.43.0


From 5127b49e966721011b906255eda09969dd8707a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 093/132] fix: truncated blocks and impossible sizes in a
 matrix archive are refused

---
 .../sm_matrix_archive/src/MatrixArchive.cpp   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 8f5955c..b0334cd 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -1,5 +1,6 @@
 #include <fstream>
 #include <cstdio>
+#include <limits>
 #include <boost/algorithm/string/trim.hpp>
 #include <sm_matrix_archive/MatrixArchive.hpp>
 
@@ -235,6 +236,19 @@ namespace sm
     SM_THROW(MatrixArchiveException, "Not Implemented");
   }
   
+  namespace {
+    // Throws if fin is not good or has less than numBytes left.
+    void assertAvailable(std::istream & fin, boost::uint64_t numBytes)
+    {
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Unexpected end of the file");
+      const std::istream::pos_type here = fin.tellg();
+      fin.seekg(0, std::ios::end);
+      const std::istream::pos_type end = fin.tellg();
+      fin.seekg(here);
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good() && numBytes <= static_cast<boost::uint64_t>(end - here), "Unexpected end of the file");
+    }
+  }
+
   void MatrixArchive::readMatrix(std::istream & fin, Eigen::MatrixXd & matrix) const
   {
     // 4 byte rows
@@ -245,9 +259,12 @@ namespace sm
     fin.read(reinterpret_cast<char *>(&cols),4);
     
     // data
+    const boost::uint64_t numElements = static_cast<boost::uint64_t>(rows) * cols;
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good() && numElements <= std::numeric_limits<std::streamsize>::max() / sizeof(double), "The matrix block is truncated or has an invalid size");
+    std::streamsize dataSize = numElements * sizeof(double);
+    assertAvailable(fin, dataSize);
 
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
   }
@@ -276,6 +293,7 @@ namespace sm
     fin.read(reinterpret_cast<char *>(&stringSize),4);
 
     // data
+    assertAvailable(fin, stringSize);
     stringValue.resize(stringSize);
     fin.read(&stringValue[0], stringSize);
   }
@@ -312,6 +330,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Unexpected end of the file");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 54ec1dda5107464bbc9986af90ef55488bb2f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 094/132] fix: doesKeyExist of a property tree finds existing
 keys and does not throw for missing ones

---
 .../sm_property_tree/src/BoostPropertyTreeImplementation.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index be7c99f..b23e019 100755
--- a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -86,7 +86,7 @@ namespace sm {
 
   bool BoostPropertyTreeImplementation::doesKeyExist(const std::string & key) const
   {
-    boost::optional<std::string> val = _ptree.get<std::string>(boost::property_tree::ptree::path_type(key.c_str(),'/'));
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
     
     return (bool)val;
   }
-- 
2.43.0


From de9a1472976fa1ff9e13bd76f4a587713543204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 095/132] fix: Optimizer2Options initialises doSchurComplement

---
 .../include/aslam_backend/backend/Optimizer2Options.hpp          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/Optimizer2Options.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/Optimizer2Options.hpp
index df12c8b..a55b9e0 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/Optimizer2Options.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/Optimizer2Options.hpp
@@ -11,6 +11,7 @@ namespace aslam {
         convergenceDeltaJ(1e-3),
         convergenceDeltaX(1e-3),
         maxIterations(20),
+        doSchurComplement(false),
         verbose(false),
         linearSolverMaximumFails(0),
         nThreads(4)
-- 
2.43.0


From 218607f1f6b04624bb2aefbf6e4553702313e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 096/132] fix: reading a constant property tree with a default
 value does not change it

---
 Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
index b1d4f88..805758f 100755
--- a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
@@ -59,7 +59,7 @@ namespace sm {
   double PropertyTree::getDouble(const std::string & key, double defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-      return _imp->getDouble(buildQualifiedKeyName(key), defaultValue);
+      return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getDouble(buildQualifiedKeyName(key), defaultValue);
   }
 
   double PropertyTree::getDouble(const std::string & key, double defaultValue)
@@ -77,7 +77,7 @@ namespace sm {
   int PropertyTree::getInt(const std::string & key, int defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getInt(buildQualifiedKeyName(key),defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getInt(buildQualifiedKeyName(key),defaultValue);
   }
 
   int PropertyTree::getInt(const std::string & key, int defaultValue)
@@ -95,7 +95,7 @@ namespace sm {
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getBool(buildQualifiedKeyName(key), defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getBool(buildQualifiedKeyName(key), defaultValue);
   }
 
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) 
@@ -114,7 +114,7 @@ namespace sm {
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getString(buildQualifiedKeyName(key), defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getString(buildQualifiedKeyName(key), defaultValue);
   }
 
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) 
-- 
2.43.0


From 7a40af7e469e81262b95966dc3a202e6bb32bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 097/132] fix: stopping a job queue cannot miss a worker that
 is about to wait

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index 4efc256..f8884fd 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -30,14 +30,18 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        if(work_)
+        {
+            work_->join_all();
+        }
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From f4a9d1e40b42c572be3e73d141e6b415cd5daabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 098/132] fix: the destructor of a job queue waits for workers
 that are still starting

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index f8884fd..5dc2576 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,7 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        join(); // all threads must exit, also those that have not entered exec_loop() yet
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
-- 
2.43.0


From 83b7f4a2d8c1bbad739dcd07dad8644aedc4ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 099/132] fix: enabling a named stream cannot deadlock with the
 first use of a log statement

---
 .../sm_logging/src/LoggingGlobals.cpp           | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 70307ab..9c0fbef 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -105,17 +105,22 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            // Not with the mutex locked: new log locations lock the two mutexes in the other order.
             notifyLoggerLevelsChanged();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
+            bool erased;
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                erased = _namedStreamsEnabled.erase(name) > 0;
+            }
+            if(erased)
             {
-                _namedStreamsEnabled.erase(it);
                 notifyLoggerLevelsChanged();
             }
         }
-- 
2.43.0


From fde27b26e225e2baf5ff313cb1d47685f9b74ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 100/132] fix: log statements, levels and the logger can be
 used by several threads without data races

---
 .../sm_logging/logging/LogLocation.hpp        | 11 +++++---
 .../sm_logging/logging/LoggingGlobals.hpp     |  9 ++++---
 .../include/sm_logging/logging/console.hpp    |  4 +--
 .../sm_logging/src/LoggingGlobals.cpp         | 27 +++++++++----------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/include/sm_logging/logging/LogLocation.hpp b/Schweizer-Messer/sm_logging/include/sm_logging/logging/LogLocation.hpp
index 6ebb9f3..0d27109 100644
--- a/Schweizer-Messer/sm_logging/include/sm_logging/logging/LogLocation.hpp
+++ b/Schweizer-Messer/sm_logging/include/sm_logging/logging/LogLocation.hpp
@@ -1,6 +1,10 @@
 #ifndef SM_LOGGING_LOG_LOCATION_HPP
 #define SM_LOGGING_LOG_LOCATION_HPP
 
+#include <atomic>
+#include <string>
+#include <sm_logging/logging/Levels.hpp>
+
 namespace sm {
     namespace logging {
         struct LogLocation
@@ -8,9 +12,10 @@ namespace sm {
             LogLocation() : _initialized(false), _loggerEnabled(false),
                             _level(::sm::logging::levels::Count) {}
 
-            bool _initialized;
-            bool _loggerEnabled;
-            ::sm::logging::Level _level;
+            // Read by log statements without a lock.
+            std::atomic<bool> _initialized;
+            std::atomic<bool> _loggerEnabled;
+            std::atomic< ::sm::logging::Level> _level;
             std::string _streamName;
         };
 
diff --git a/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp b/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp
index 2f66ba9..1307d10 100644
--- a/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp
+++ b/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp
@@ -5,6 +5,8 @@
 #include <boost/thread/mutex.hpp>
 
 #include <stdarg.h>
+#include <atomic>
+#include <thread>
 #include <vector>
 #include <set>
 
@@ -87,11 +89,12 @@ namespace sm {
             void print(const char * streamName,  Level level, 
                        vectorstream & ss, const char* file, int line, const char* function);
 
-            Level _level;
+            std::atomic<Level> _level;
             
+            // Other threads may be printing: use getLogger() and setLogger().
             boost::shared_ptr<Logger> _logger;
 
-            bool _shutting_down;
+            std::atomic<bool> _shutting_down;
 
             boost::mutex _init_mutex;
 
@@ -104,7 +107,7 @@ namespace sm {
             
             std::vector<char> _globalCharBuffer;
             boost::mutex _print_mutex;
-            boost::thread::id _printing_thread_id;
+            std::atomic<std::thread::id> _printing_thread_id;
 
 
         };
diff --git a/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp b/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
index fb992a7..6585163 100644
--- a/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
+++ b/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
@@ -197,7 +197,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 9c0fbef..3f6bd64 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -172,7 +172,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -180,7 +180,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            _printing_thread_id = std::this_thread::get_id();
 
             va_list args;
             va_start(args, fmt);
@@ -189,9 +189,10 @@ namespace sm {
 
             va_end(args);
 
+            const boost::shared_ptr<Logger> logger = getLogger();
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -199,7 +200,7 @@ namespace sm {
             }
                     
 
-            _printing_thread_id = boost::thread::id();
+            _printing_thread_id = std::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -208,7 +209,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -221,32 +222,30 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            _printing_thread_id = std::this_thread::get_id();
+            const boost::shared_ptr<Logger> logger = getLogger();
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
                     
-            _printing_thread_id = boost::thread::id();
+            _printing_thread_id = std::thread::id();
         }
 
 
         sm::logging::levels::Level LoggingGlobals::getLevel()
         {
-            // \todo is this thread safe?
             return _level;
         }
 
         void LoggingGlobals::setLevel( sm::logging::levels::Level level )
         {
-            // \todo is this thread safe?
-            if(level != _level)
+            if(_level.exchange(level) != level)
             {
-                _level = level;
                 notifyLoggerLevelsChanged();
             }
         }
@@ -255,12 +254,12 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                boost::atomic_store(&_logger, logger);
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
-            return _logger;
+            return boost::atomic_load(&_logger);
         }
 
         sm::logging::levels::Level getLevel()
-- 
2.43.0


From 1bc03aa30aee59694afa8476ff9557995c8e28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 101/132] fix: log once and throttled log statements keep their
 promise when several threads reach them

---
 .../include/sm_logging/logging/console.hpp    | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp b/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
index 6585163..7bbce85 100644
--- a/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
+++ b/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
@@ -32,6 +32,7 @@
 #ifndef SMCONSOLE_SMCONSOLE_H
 #define SMCONSOLE_SMCONSOLE_H
 
+#include <atomic>
 #include <cstdio>
 #include <sstream>
 
@@ -139,10 +140,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
     } while(0)
@@ -157,10 +157,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
     } while(0)
@@ -176,11 +175,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
+        double last = last_hit;                                         \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last + rate <= now) && last_hit.compare_exchange_strong(last, now)) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
     } while(0)
@@ -196,11 +195,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
+        double last = last_hit;                                         \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last + rate <= now) && last_hit.compare_exchange_strong(last, now)) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
     } while(0)
-- 
2.43.0


From c51be12308bca2ea66b91af265348ea2f7159d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 102/132] fix: Formatter::init replaces the previous format
 instead of appending to it

---
 Schweizer-Messer/sm_logging/src/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Schweizer-Messer/sm_logging/src/Formatter.cpp b/Schweizer-Messer/sm_logging/src/Formatter.cpp
index a1a6d0d..26b5494 100644
--- a/Schweizer-Messer/sm_logging/src/Formatter.cpp
+++ b/Schweizer-Messer/sm_logging/src/Formatter.cpp
@@ -47,6 +47,7 @@ namespace sm {
             void Formatter::init(const char* fmt)
                 {
                     format_ = fmt;
+                    tokens_.clear();
 
                     boost::regex e("\\$\\{([a-z|A-Z]+)\\}");
                     boost::match_results<std::string::const_iterator> results;
-- 
2.43.0


From 87dc9e00df82bee8662ec5fd723f06bb5c449547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 103/132] fix: weight a covariance reprojection error without
 spline by its keypoint

The assignment was commented out, so the error was weighted by an
uninitialised matrix.
---
 .../implementation/CovarianceReprojectionError.hpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
index c900641..af43c96 100644
--- a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
+++ b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
@@ -27,8 +27,8 @@ namespace aslam {
       SM_ASSERT_TRUE(Exception, _frame->numKeypoints() > _keypointIndex, "Keypoint index must be in bounds of frame.");
 
       // if a spline is given, estimate the covariance in each iteration
-      //if(!spline)
-      //    parent_t::_invR = _frame->keypoint(_keypointIndex).invR();
+      if(!spline)
+          parent_t::setInvR(_frame->keypoint(_keypointIndex).invR());
       JacobianContainer::set_t dvs;
       point.getDesignVariables(dvs);	// point dv's
       camera.getDesignVariables(dvs);	// camera dv's
-- 
2.43.0


From d010803f9fc2fec822f011c12f3181ef20b9f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 104/132] fix: express the rolling shutter point velocity in
 the camera frame

covarianceMap differentiates T_w_c * p, which is a velocity in the world
frame, but multiplied it with the projection Jacobian, which takes
directions in the camera frame.
---
 .../implementation/CovarianceReprojectionError.hpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
index af43c96..be617b9 100644
--- a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
+++ b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
@@ -68,7 +68,7 @@ namespace aslam {
 
     	//std::cout << "TPboxminus:" << std::endl << TPboxminus << std::endl;
 
-    	Eigen::MatrixXd J = outJp * TPboxminus * JT * Phi_dot_c * lineDelay; //outJp * J_t;
+    	Eigen::MatrixXd J = outJp * T.inverse() * TPboxminus * JT * Phi_dot_c * lineDelay; //outJp * J_t;
     	//std::cout << "J: " << std::endl << J << std::endl;
 
     	Eigen::MatrixXd A = Eigen::MatrixXd::Identity(2,2);
-- 
2.43.0


From 1a024209873612dd7391875447f0ba38fadaba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 105/132] fix: pair every grid row with the other rows when
 initializing a pinhole camera

The circles are fitted per row, but the inner loop ran to the number of
columns: it read past the end for wide targets and skipped pairs for tall
ones.
---
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 8ebd31b..74c04eb 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -754,7 +754,7 @@ bool PinholeProjection<DISTORTION_T>::initializeIntrinsics(const std::vector<Gri
 
     for (size_t j=0; j<target.rows(); ++j)
     {
-      for (size_t k=j+1; k<target.cols(); ++k)
+      for (size_t k=j+1; k<target.rows(); ++k)
       {
         // find distance between pair of vanishing points which
         // correspond to intersection points of 2 circles
-- 
2.43.0


From 6e8f7765ed0afa11542df5c0ba09604bbb5195fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 106/132] fix: read the rows of an image at their stride when
 detecting tags

---
 aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
index d49cea6..763ee2d 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
@@ -41,11 +41,10 @@ namespace AprilTags {
     int width = image.cols;
     int height = image.rows;
     AprilTags::FloatImage fimOrig(width, height);
-    int i = 0;
     for (int y=0; y<height; y++) {
+      const unsigned char* row = image.ptr<unsigned char>(y);
       for (int x=0; x<width; x++) {
-        fimOrig.set(x, y, image.data[i]/255.);
-        i++;
+        fimOrig.set(x, y, row[x]/255.);
       }
     }
     std::pair<int,int> opticalCenter(width/2, height/2);
-- 
2.43.0


From d5de7d22c3972e963f6f713cab14b17f38428b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 107/132] fix: forget the corners observed in an earlier image
 when detecting an aprilgrid

---
 .../aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
index daf77c5..bec6491 100644
--- a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
+++ b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
@@ -275,7 +275,7 @@ bool GridCalibrationTargetAprilgrid::computeObservation(
   ///   ^      0-------1  2-------3
   ///   |-->x
 
-  outCornerObserved.resize(size(), false);
+  outCornerObserved.assign(size(), false);
   outImagePoints.resize(size(), 2);
 
   for (unsigned int i = 0; i < detections.size(); i++) {
-- 
2.43.0


From 40743dd23b17e07fdc276ea8670095cb32bed370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 108/132] fix: refuse lists that are not permutations before
 permuting a container

---
 .../algorithms/permute.tpp                          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
index e3110c3..f43edd9 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
@@ -33,11 +33,20 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
-      for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+      std::vector<bool> seen(container.size(), false);
+      for (size_t i = 0; i < permutation.size(); ++i) {
+        if (permutation[i] < static_cast<I>(0) ||
+            permutation[i] >= static_cast<I>(container.size()))
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (seen[permutation[i]])
+          throw OutOfBoundException<I>(permutation[i],
+            "duplicate permutation vector index",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        seen[permutation[i]] = true;
+      }
+      for (I i = 0; i < static_cast<I>(container.size()); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From 49d1b761198ffe44d9eccdd1c3762fd4e621b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 109/132] fix: forget saved design variables when clearing an
 incremental problem

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index e5e6748..7071a20 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -270,6 +270,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From da4fea995edd22cee7d6a353bb33d149b2de3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 110/132] fix: leave an incremental problem unchanged when it
 refuses a batch

---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 7071a20..97a6a3f 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -188,8 +188,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // refuse the problem before anything is changed
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -201,21 +217,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From 26a51e4f293a1bb6e6b7c8a422289ed9fc8ed3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 111/132] fix: Grid refuses negative indices

---
 .../aslam_incremental_calibration/data-structures/Grid.tpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
index 519f318..7af6f60 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
@@ -226,7 +226,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From 586a71c0204c5c09d0ea8cfee628c60b351c0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 112/132] fix: Grid::getIndex stays within the last cell for
 points just below the maximum

---
 .../aslam_incremental_calibration/data-structures/Grid.tpp   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
index 7af6f60..cfef4fc 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
@@ -16,6 +16,8 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.       *
  ******************************************************************************/
 
+#include <algorithm>
+
 #include "aslam_incremental_calibration/exceptions/OutOfBoundException.h"
 #include "aslam_incremental_calibration/exceptions/BadArgumentException.h"
 
@@ -191,7 +193,8 @@ namespace aslam {
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
         else
-          idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          idx(i) = std::min(static_cast<int>((point(i) - mMinimum(i)) /
+            mResolution(i)), mNumCells(i) - 1);
       return idx;
     }
 
-- 
2.43.0


From b2fd3117046f5a48639cc98667747e68b93b289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 113/132] fix: Grid::getCoordinates of integer grids with
 negative coordinates lies in the cell

---
 .../aslam_incremental_calibration/data-structures/Grid.tpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
index cfef4fc..3c5c4d1 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
@@ -217,7 +217,8 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        point[i] = mMinimum(i) + static_cast<T>((idx(i) + 0.5) *
+          mResolution(i));
       return point;
     }
 
-- 
2.43.0


From 3501530e2839eb4c18286188ae2d01d5d557045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 114/132] fix: mean and median of the uniform distribution are
 the middle of its support

---
 .../statistics/UniformDistribution1v.tpp                      | 4 ++--
 .../statistics/UniformDistributionMv.tpp                      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp
index 4d17e61..e394d9c 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp
@@ -149,13 +149,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * (mMinSupport + mMaxSupport);
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * (mMinSupport + mMaxSupport);
     }
 
     template <typename X>
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
index 120bc73..bf798df 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
@@ -154,7 +154,7 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport + mMaxSupport).template cast<double>();
     }
 
     template <typename X, int M>
@@ -167,7 +167,7 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport + mMaxSupport).template cast<double>();
     }
 
     template <typename X, int M>
-- 
2.43.0


From 3f856a06b6d4ba94686fabbc92b73dd1aea07837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 115/132] fix: covariance of the multivariate uniform
 distribution is that of each axis

---
 .../statistics/UniformDistributionMv.tpp      | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
index bf798df..be0ee9b 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
@@ -204,12 +204,10 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> sides =
+        (maxSupport - minSupport).template cast<double>();
+      return Eigen::Matrix<double, M, M>(
+        (sides.array().square() / 12.0).matrix().asDiagonal());
     }
 
     template <typename X, int M>
@@ -218,12 +216,10 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> sides =
+        (maxSupport - minSupport).template cast<double>();
+      return Eigen::Matrix<double, M, M>((((sides.array() + 1.0).square() -
+        1.0) / 12.0).matrix().asDiagonal());
     }
 
   }
-- 
2.43.0


From 1f8959bb0595883207a4e14dcd4b6199ef18464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 116/132] fix: NormalDistribution refuses singular covariances
 and keeps its state when refusing

---
 .../statistics/NormalDistributionMv.tpp                      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp
index f88c9a2..c427c78 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp
@@ -114,8 +114,8 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success)
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -124,6 +124,7 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
+      mTransformation = transformation;
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-- 
2.43.0


From b10e851b506a01885c6cba8f63978baf4e364507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 117/132] fix: inverse of a transformation that is itself an
 inverse or comes from a matrix

---
 .../geometry/Transformation2d.tpp                 | 14 ++++++++++----
 .../geometry/Transformation3d.tpp                 | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp
index 0968958..d59a6d8 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp
@@ -149,10 +149,16 @@ namespace aslam {
 
     template <typename T>
     const Transformation<T, 2>& Transformation<T, 2>::inverse() {
-      mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
-      mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      const Eigen::Matrix<double, 2, 2> rotation =
+        mTransformationMatrix.template topLeftCorner<2, 2>().transpose();
+      const Eigen::Matrix<double, 2, 1> translation = -rotation *
+        mTransformationMatrix.template topRightCorner<2, 1>();
+      mTransformationMatrix.template topLeftCorner<2, 2>() = rotation;
+      mTransformationMatrix.template topRightCorner<2, 1>() = translation;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<2, 2>() = rotation;
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() = translation;
       return *this;
     }
 
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp
index 8729080..ada0384 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp
@@ -153,11 +153,16 @@ namespace aslam {
 
     template <typename T>
     const Transformation<T, 3>& Transformation<T, 3>::inverse() {
-      mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 3) = -mTranslationMatrix(0, 3);
-      mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
-      mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      const Eigen::Matrix<double, 3, 3> rotation =
+        mTransformationMatrix.template topLeftCorner<3, 3>().transpose();
+      const Eigen::Matrix<double, 3, 1> translation = -rotation *
+        mTransformationMatrix.template topRightCorner<3, 1>();
+      mTransformationMatrix.template topLeftCorner<3, 3>() = rotation;
+      mTransformationMatrix.template topRightCorner<3, 1>() = translation;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<3, 3>() = rotation;
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() = translation;
       return *this;
     }
 
-- 
2.43.0


From a5bd9c533893f173d31338087bed1023af8320a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 118/132] fix: Kullback-Leibler divergence between gamma
 distributions

---
 .../statistics/GammaDistribution.tpp                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp
index 4638e33..1c92bf2 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp
@@ -197,7 +197,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From 6d24bcd1f8255bafc44b1cf7174db0eb03ab2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 119/132] fix: images scaled by the null undistorter have the
 resolution of its ideal geometry

---
 .../include/aslam_imgproc/implementation/NullUndistorter.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp
index a3f0142..3c35c5c 100644
--- a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp
+++ b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp
@@ -79,7 +79,10 @@ template<typename CAMERA_T>
 void NullUndistorter<CAMERA_T>::undistortImage(const cv::Mat & inImage,
                                                cv::Mat & outImage) const {
   if (_scale != 1.0) {
-    cv::resize(inImage, outImage, cv::Size(), _scale, _scale, _interpolation);
+    // the resolution is rounded down as in the ideal geometry
+    cv::resize(inImage, outImage,
+               cv::Size(inImage.cols * _scale, inImage.rows * _scale), 0, 0,
+               _interpolation);
   } else if (_makeCopy) {
     outImage = inImage.clone();
   } else {
-- 
2.43.0


From cd98d42e4f611506ce7588db00d776aecfe16829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 120/132] fix: the null undistorter reports the geometry before
 scaling as its distorted geometry

---
 .../aslam_imgproc/include/aslam_imgproc/NullUndistorter.hpp  | 1 +
 .../include/aslam_imgproc/implementation/NullUndistorter.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_imgproc/include/aslam_imgproc/NullUndistorter.hpp b/aslam_cv/aslam_imgproc/include/aslam_imgproc/NullUndistorter.hpp
index b2315f8..15c6e76 100644
--- a/aslam_cv/aslam_imgproc/include/aslam_imgproc/NullUndistorter.hpp
+++ b/aslam_cv/aslam_imgproc/include/aslam_imgproc/NullUndistorter.hpp
@@ -83,6 +83,7 @@ class NullUndistorter : public UndistorterBase {
       boost::shared_ptr<distorted_geometry_t> distortedGeometry);
 
   boost::shared_ptr<ideal_geometry_t> _idealGeometry;
+  boost::shared_ptr<distorted_geometry_t> _distortedGeometry;
   int _interpolation;
   double _scale;
   bool _makeCopy;
diff --git a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp
index 3c35c5c..de29d77 100644
--- a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp
+++ b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/NullUndistorter.hpp
@@ -3,6 +3,7 @@ namespace aslam {
 template<typename CAMERA_T>
 NullUndistorter<CAMERA_T>::NullUndistorter() {
   _idealGeometry.reset();
+  _distortedGeometry.reset();
 }
 
 template<typename CAMERA_T>
@@ -99,12 +100,14 @@ boost::shared_ptr<typename NullUndistorter<CAMERA_T>::ideal_geometry_t> NullUndi
 template<typename CAMERA_T>
 boost::shared_ptr<typename NullUndistorter<CAMERA_T>::ideal_geometry_t> NullUndistorter<
     CAMERA_T>::distortedGeometry() const {
-  return _idealGeometry;
+  return _distortedGeometry;
 }
 
 template<typename CAMERA_T>
 void NullUndistorter<CAMERA_T>::setIdealGeometry(
     boost::shared_ptr<distorted_geometry_t> distortedGeometry) {
+  _distortedGeometry = distortedGeometry;
+
   // set new idealGeometry
   _idealGeometry = boost::shared_ptr < ideal_geometry_t
       > (new ideal_geometry_t(distortedGeometry->projection(),
-- 
2.43.0


From 6a8e60505b3635c8b098c3c76126b2d2449dfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 121/132] fix: calculateOverlappingFOV writes the masks it
 computes

---
 .../aslam_imgproc/implementation/calculateOverlappingFov.hpp   | 3 +++
 aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp         | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp
index 7d7d794..87e76d5 100644
--- a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp
+++ b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp
@@ -19,6 +19,7 @@ void calculateOverlappingFOV(boost::shared_ptr<CAMERA_1_T> camera1,
 
   // build outMask1
   outOverlappingRatio1 = 0;
+  outMask1.setMask(outMask1CV);
 }
 
 template<typename CAMERA_1_T, typename CAMERA_2_T>
@@ -79,6 +80,7 @@ void calculateOverlappingFOV(boost::shared_ptr<CAMERA_1_T> camera1,
     }  // for
   }  // for
   outOverlappingRatio1 = outOverlappingRatio1 / (width1 * height1);
+  outMask1.setMask(outMask1CV);
 
   // build outMask2
   outOverlappingRatio2 = 0;
@@ -112,6 +114,7 @@ void calculateOverlappingFOV(boost::shared_ptr<CAMERA_1_T> camera1,
     }  // for
   }  // for
   outOverlappingRatio2 = outOverlappingRatio2 / (width2 * height2);
+  outMask2.setMask(outMask2CV);
 }
 
 }  // namespace aslam
diff --git a/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp b/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp
index ff8bd7a..dc40964 100644
--- a/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp
+++ b/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp
@@ -59,6 +59,7 @@ void calculateOverlappingFOV(const cameras::CameraGeometryBase & camera1,
     }  // for
   }  // for
   outOverlappingRatio1 = outOverlappingRatio1 / (width1 * height1);
+  outMask1.setMask(outMask1CV);
 
   // build outMask2
   outOverlappingRatio2 = 0;
@@ -94,6 +95,7 @@ void calculateOverlappingFOV(const cameras::CameraGeometryBase & camera1,
     }  // for
   }  // for
   outOverlappingRatio2 = outOverlappingRatio2 / (width2 * height2);
+  outMask2.setMask(outMask2CV);
 }
 
 }  // namespace aslam
-- 
2.43.0


From aaf4b12402efa886b73baaa97ed11cafe033b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 122/132] fix: misaligned and byte-swapped numpy arrays were
 converted to wrong values

---
 .../include/sm_numpy_eigen/NumpyEigenConverter.hpp       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
index c566d0e..4d16849 100755
--- a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
+++ b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
@@ -265,6 +265,15 @@ struct NumpyEigenConverter
 
     matrix_t & M = *Mp;
 
+    // The copy routines dereference plain pointers: an array that is misaligned or
+    // stored in the other byte order has to be brought into native form first.
+    boost::python::handle<> behaved;
+    if(!PyArray_ISBEHAVED_RO(reinterpret_cast<PyArrayObject *>(obj_ptr)))
+      {
+	behaved = boost::python::handle<>(PyArray_FROM_OF(obj_ptr, NPY_ARRAY_ALIGNED | NPY_ARRAY_NOTSWAPPED));
+	obj_ptr = behaved.get();
+      }
+
     int nd = PyArray_NDIM(obj_ptr);
     if(nd == 1)
       {
-- 
2.43.0


From 5bba41a2e793545f6897e0a677fe55faf676833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 123/132] fix: an array of another size hid the remaining
 overloads of a Python function

---
 .../sm_numpy_eigen/NumpyEigenConverter.hpp    | 57 ++++++-------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
index 4d16849..05b96dd 100755
--- a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
+++ b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
@@ -131,49 +131,28 @@ struct NumpyEigenConverter
     return valid;
   }
       
-  static void checkMatrixSizes(PyObject * obj_ptr)
+  static bool checkMatrixSizes(PyObject * obj_ptr)
   {
     int rows = PyArray_DIM(obj_ptr, 0);
     int cols = PyArray_DIM(obj_ptr, 1);
 
-    bool rowsValid = isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime);
-    bool colsValid = isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime);
-    if(!rowsValid || !colsValid)
-    {
-	THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			 << ". Mismatched sizes.");
-      }
+    return isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime) &&
+      isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime);
   }
 
-  static void checkRowVectorSizes(PyObject * obj_ptr, int cols)
+  static bool checkRowVectorSizes(PyObject * obj_ptr, int cols)
   {
-    if(!isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime))
-      {
-	THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			 << ". Mismatched sizes.");
-      }
+    return isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime);
   }
 
-  static void checkColumnVectorSizes(PyObject * obj_ptr, int rows)
+  static bool checkColumnVectorSizes(PyObject * obj_ptr, int rows)
   {
     // Check if the type can accomidate one column.
-    if(ColsAtCompileTime == Eigen::Dynamic || ColsAtCompileTime == 1)
-      {
-	if(!isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime))
-	  {
-	    THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			     << ". Mismatched sizes.");
-	  }
-      }
-    else
-      {
-	THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			 << ". Mismatched sizes.");
-      }
-
+    return (ColsAtCompileTime == Eigen::Dynamic || ColsAtCompileTime == 1) &&
+      isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime);
   }
 
-  static void checkVectorSizes(PyObject * obj_ptr)
+  static bool checkVectorSizes(PyObject * obj_ptr)
   {
 	int size = PyArray_DIM(obj_ptr, 0);
 
@@ -181,11 +160,11 @@ struct NumpyEigenConverter
     // Otherwise, assume it is a column.
     if(RowsAtCompileTime == 1)
       {
-	checkRowVectorSizes(obj_ptr, size);
+	return checkRowVectorSizes(obj_ptr, size);
       }
     else
       {
-	checkColumnVectorSizes(obj_ptr, size);
+	return checkColumnVectorSizes(obj_ptr, size);
       }
   }
 
@@ -223,17 +202,15 @@ struct NumpyEigenConverter
     
     if(nd != 1 && nd != 2)
       {
-	THROW_TYPE_ERROR("Conversion is only valid for arrays with 1 or 2 dimensions. Argument has " << nd << " dimensions");
+	// Conversion is only valid for arrays with 1 or 2 dimensions.
+	return 0;
       }
 
-    if(nd == 1)
-      {
-	checkVectorSizes(obj_ptr);
-      }
-    else 
+    // Mismatched sizes must not raise here: boost::python may still find another
+    // overload that takes this array.
+    if(nd == 1 ? !checkVectorSizes(obj_ptr) : !checkMatrixSizes(obj_ptr))
       {
-	// Two-dimensional matrix type.
-	checkMatrixSizes(obj_ptr);
+	return 0;
       }
 
 
-- 
2.43.0


From 3cf8c5afaf13d5ad6e18b01ffa005a3144f0d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 124/132] fix: products of uncertain transformations lost their
 uncertainty in Python

---
 .../sm_python/src/exportTransformation.cpp             | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_python/src/exportTransformation.cpp b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
index d264799..5365073 100755
--- a/Schweizer-Messer/sm_python/src/exportTransformation.cpp
+++ b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
@@ -47,10 +47,12 @@ void exportTransformation()
       // the list in reverse order looking for a match. If the
       // Eigen export is first, the others are disabled.
       //.def(self * Eigen::Vector4d())
-    .def(self * UncertainTransformation())
+      // The same order matters for a class and its base: the last definition is
+      // tried first, so the uncertain types have to follow the plain ones.
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
+    .def(self * UncertainTransformation())
     .def(self * HomogeneousPoint())
+    .def(self * UncertainHomogeneousPoint())
       .def(self * Eigen::Vector3d())
       //.def(self * Eigen::Vector4d())
       .def("checkTransformationIsValid", &Transformation::checkTransformationIsValid)
@@ -72,10 +74,10 @@ void exportTransformation()
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
       .def("load", &loadobj<UncertainTransformation>)
+    .def(self * Transformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
     .def(self * HomogeneousPoint())
-    .def(self * Transformation())
+    .def(self * UncertainHomogeneousPoint())
     //.def(self * Eigen::Vector3d())
     //.def(self * Eigen::Vector4d())
     .def("inverse",&UncertainTransformation::inverse)
-- 
2.43.0


From 9ff9cc84da0c9e897565c692bbd49a91488ab89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 125/132] fix: the inverse of an uncertain transformation lost
 its uncertainty in Python

---
 Schweizer-Messer/sm_python/src/exportTransformation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Schweizer-Messer/sm_python/src/exportTransformation.cpp b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
index 5365073..0355021 100755
--- a/Schweizer-Messer/sm_python/src/exportTransformation.cpp
+++ b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
@@ -89,7 +89,6 @@ void exportTransformation()
     .def("t", &Transformation::t, return_value_policy<copy_const_reference>())
     .def("q", &Transformation::q, return_value_policy<copy_const_reference>())
     .def("T3x4", &Transformation::T3x4)
-    .def("inverse", &Transformation::inverse)
     .def("setIdentity", &Transformation::setIdentity)
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
-- 
2.43.0


From 5f9aefe0dda4adb40b6def42559a68e06041f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 126/132] fix: a pinhole camera without distortion had no
 geometry

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index c38559d..e6f0736 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -64,7 +64,7 @@ class AslamCamera(object):
                                             principalPoint[0], principalPoint[1], 
                                             resolution[0], resolution[1])
                 
-                self.camera = cv.PinholeCameraGeometry(proj)
+                self.geometry = cv.PinholeCameraGeometry(proj)
                 
                 self.frameType = cv.PinholeFrame
                 self.keypointType = cv.Keypoint2
-- 
2.43.0


From cf0964b18363d584cffd9cde22b7230103b38ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 127/132] fix: an unsupported pinhole distortion model raised
 an AttributeError

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index e6f0736..0ee099a 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -70,7 +70,7 @@ class AslamCamera(object):
                 self.keypointType = cv.Keypoint2
                 self.reprojectionErrorType = cvb.PinholeReprojectionErrorSimple
             else:
-                self.raiseError("pinhole camera model does not support distortion model '{}'".format(dist_model))
+                raise RuntimeError("pinhole camera model does not support distortion model '{}'".format(dist_model))
                 
         elif camera_model == 'omni':
             xi_omni = intrinsics[0]
-- 
2.43.0


From c0e0d28176c3ffdaf2d2d7384d009bff9aad9c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 128/132] fix: the error of a failed write named another file

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 0ee099a..93e9913 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -221,7 +221,7 @@ class ParametersBase(object):
             with open(filename, 'w') as outfile:
                 outfile.write( yaml.dump(self.data) )
         except:
-            self.raiseError( "Could not write configuration to {0}".format(self.yamlFile) )
+            self.raiseError( "Could not write configuration to {0}".format(filename) )
 
     def getYamlDict(self):
         return self.data
-- 
2.43.0


From a69b9c7ba1a9857ed444a4260c9fde322b33c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 129/132] fix: a configuration file that is not a mapping was
 accepted

---
 .../kalibr/python/kalibr_common/ConfigReader.py                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 93e9913..df8b397 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -209,6 +209,9 @@ class ParametersBase(object):
                 f.close()
         except:
             self.raiseError( "Could not read configuration from {0}".format(self.yamlFile) )
+
+        if not isinstance(data, dict):
+            self.raiseError( "Configuration in {0} is not a mapping".format(self.yamlFile) )
     
         return data
     
-- 
2.43.0


From f5ac4df9224517c7c88046d3f18dd5b8f80c9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 130/132] fix: the details of a circle grid were not printed

---
 .../kalibr/python/kalibr_common/ConfigReader.py             | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index df8b397..b159239 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -649,6 +649,12 @@ class CalibrationTargetParameters(ParametersBase):
             print("    Cols: {0}".format(targetParams['tagCols']), file=dest)
             print("    Size: {0} [m]".format(targetParams['tagSize']), file=dest)
             print("    Spacing {0} [m]".format( targetParams['tagSize']*targetParams['tagSpacing'] ), file=dest)
+        elif targetType == 'circlegrid':
+            print("  Circles: ", file=dest)
+            print("    Rows: {0}".format(targetParams['targetRows']), file=dest)
+            print("    Cols: {0}".format(targetParams['targetCols']), file=dest)
+            print("    Spacing: {0} [m]".format(targetParams['spacingMeters']), file=dest)
+            print("    Asymmetric: {0}".format(targetParams['asymmetricGrid']), file=dest)
 
 
         
-- 
2.43.0


From 1db70dc681df0b84c89815c57d8012015527c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 131/132] fix: an invalid calibration target raised a NameError

---
 .../kalibr/python/kalibr_common/ConfigReader.py               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index b159239..6037f6d 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -551,6 +551,7 @@ class CalibrationTargetParameters(ParametersBase):
     def getTargetParams(self):
         #read target specidic data
         targetType = self.getTargetType()
+        errList = []
         
         if targetType == 'checkerboard':
             try:
@@ -624,6 +625,9 @@ class CalibrationTargetParameters(ParametersBase):
                             'tagSpacing': tagSpacing,
                             'targetType': targetType}
             
+        if errList:
+            self.raiseError("Calibration target configuration in {0}: {1}".format(self.yamlFile, ", ".join(errList)) )
+
         return targetParams
         
     ###################################################
-- 
2.43.0


From 4ff9adbe6c7de4415e4a501dd0ad6cbb00cf7132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 132/132] fix: the headings of a camera chain went to the
 standard output

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 6037f6d..3a15b27 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -764,7 +764,7 @@ class CameraChainParameters(ParametersBase):
     
     def printDetails(self, dest=sys.stdout):
         for camNr in range(0, self.numCameras()):
-            print("Camera chain - cam{0}:".format(camNr))
+            print("Camera chain - cam{0}:".format(camNr), file=dest)
             camConfig = self.getCameraParameters(camNr)
             camConfig.printDetails(dest)
             
-- 
2.43.0

