From f258751297bc64de54859d942c07efb0930b9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:12 +0000
Subject: [PATCH 01/75] fix: planar metric used the covariant metric as
 contravariant one

---
 src/gsMaterialMatrixBaseDim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 8ca1bfc..9e9e82c 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1154,7 +1154,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Get metric information
     Acov_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
-    Acon_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
+    Acon_def = m_data.mine().m_Acon_def_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_def.setZero();
@@ -1283,7 +1283,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Get metric information
     Acov_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
-    Acon_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
+    Acon_ori = m_data.mine().m_Acon_ori_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_ori.setZero();
-- 
2.43.0


From d2eb42557be037446f10905bc983ae16981048fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:12 +0000
Subject: [PATCH 02/75] fix: principal stretches treated every state with unit
 trace strain as undeformed

---
 src/gsMaterialMatrixBaseDim.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 9e9e82c..482142d 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1347,7 +1347,11 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
     gsMatrix<T> eigVectors(3,3);
     gsMatrix<T> eigValues(3,1);
-    if (math::abs(((B.block(0,0,2,2).diagonal()).array()-1).sum()) < 10*std::numeric_limits<T>::epsilon())
+    gsMatrix<T> Id(3,3); // undeformed state in the xy-plane
+    Id<<1,0,0,
+        0,1,0,
+        0,0,0;
+    if ((B-Id).array().abs().maxCoeff() < 10*std::numeric_limits<T>::epsilon())
     {
         eigValues<<0,1,1; // eigenvalues when B = [1 0 0; 0 1 0; 0 0 0]
         eigVectors<<0,0,1,
-- 
2.43.0


From a60b4aef9926a397af209d85e0762a46a381f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 03/75] fix: hasUndeformed reported the presence of the
 deformed geometry

---
 src/gsMaterialMatrixBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index cef3f66..78bce9b 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -795,7 +795,7 @@ public:
     const function_ptr getDeformed()  const { return m_defpatches; }
 
     virtual bool hasUndeformed() const
-    { return m_defpatches!=nullptr; }
+    { return m_patches!=nullptr; }
     virtual bool hasDeformed() const { return m_defpatches!=nullptr; }
 
     virtual bool initialized() const
-- 
2.43.0


From 1ce9e7a475cb6920825f7a2dabf98ecf6ca4f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 04/75] fix: contravariant mid-surface basis of shells was set
 to the covariant one

---
 src/gsMaterialMatrixBaseDim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 482142d..633a35a 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1125,7 +1125,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Assign members
     m_data.mine().m_acov_def = acov_def;
-    m_data.mine().m_acon_def = acov_def;
+    m_data.mine().m_acon_def = acon_def;
     m_data.mine().m_gcov_def = gcov_def;
     m_data.mine().m_gcon_def = gcon_def;
 
@@ -1256,7 +1256,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Assign members
     m_data.mine().m_acov_ori = acov_ori;
-    m_data.mine().m_acon_ori = acov_ori;
+    m_data.mine().m_acon_ori = acon_ori;
     m_data.mine().m_gcov_ori = gcov_ori;
     m_data.mine().m_gcon_ori = gcon_ori;
 
-- 
2.43.0


From 70ea616dbc67fda3c0d838c1321566faba51700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 05/75] fix: basis transformations wrote out of bounds for
 several through-thickness points

---
 src/gsMaterialMatrixBaseDim.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 633a35a..091dab6 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -67,7 +67,7 @@ void gsMaterialMatrixBaseDim<dim,T>::thickness_into(const index_t patch, const g
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> covbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -89,7 +89,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch,
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> conbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -113,7 +113,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_cov2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, covbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
@@ -136,7 +136,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_con2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, conbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
-- 
2.43.0


From d28a4c3520865d461232deef7be7a63dcaa98713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 06/75] fix: spectral-to-contravariant transformation used the
 covariant basis

---
 src/gsMaterialMatrixBaseDim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 091dab6..91a275c 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -100,7 +100,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch,
             colIdx = j*u.cols()+k;
             _getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             sbasis = tmp.reshapeCol(colIdx,3,3);
-            conbasis = m_data.mine().m_gcov_ori;
+            conbasis = m_data.mine().m_gcon_ori;
             result.col(colIdx) = this->_transformation(conbasis,sbasis).reshape(9,1);
         }
     }
-- 
2.43.0


From 007f5a514a5c15bde6c3731dd93db53dfd1994ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 07/75] fix: Cauchy stress of compressible materials was always
 zero

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 488a24c..8827584 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1065,7 +1065,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             C33 = C33s(0,colIdx);
             detF = math::sqrt(m_data.mine().m_J0_sq*C33);
-            Smat.col(colIdx) /= detF;
+            result.col(colIdx) = Smat.col(colIdx) / detF;
         }
     }
     return result;
-- 
2.43.0


From 3d0fc146df435d139a373e9b7201a27550ebf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 08/75] fix: principal stretch of compressible materials used
 the thickness stretch of another height

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 8827584..cdfb41f 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -591,7 +591,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstretch_impl(const
             colIdx = j*u.cols()+k;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
 
-            C33 = C33s(0,k);
+            C33 = C33s(0,colIdx);
 
             // Compute c
             c.setZero();
-- 
2.43.0


From 1769d71dd7acb2afa9d6675557dbb6032bc8ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 09/75] fix: mid-plane stretches of compressible materials read
 out of bounds for several points

---
 src/gsMaterialMatrixNonlinear.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index cdfb41f..9f11b6b 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -228,8 +228,8 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_pstretch_into_impl(const i
     result.resize(3, u.cols());
     std::pair<gsVector<T>,gsMatrix<T>> res;
 
-    gsMatrix<T> zmat(1,1);
-    zmat<<0.0;
+    gsMatrix<T> zmat(1,u.cols());
+    zmat.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,zmat);
     T C33;
     gsMatrix<T,3,3> c;
@@ -276,8 +276,8 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_pstretchDir_into_impl(cons
     result.resize(9, u.cols());
     std::pair<gsVector<T>,gsMatrix<T>> res;
 
-    gsMatrix<T> zmat(1,1);
-    zmat<<0.0;
+    gsMatrix<T> zmat(1,u.cols());
+    zmat.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,zmat);
     T C33;
     gsMatrix<T,3,3> c;
-- 
2.43.0


From 227c4638364b9b4949fd96f0521660ed60f3018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 10/75] fix: derivative of the material tensor was taken at
 half the shear component

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 9f11b6b..405fea2 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -385,7 +385,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::dCijkl_impl(const index_t p
 
     Cvoight(0,0) = m_data.mine().m_Gcov_def(0,0);
     Cvoight(1,0) = m_data.mine().m_Gcov_def(1,1);
-    Cvoight(2,0) = m_data.mine().m_Gcov_def(0,1);
+    Cvoight(2,0) = 2*m_data.mine().m_Gcov_def(0,1);
 
     Cfunc.deriv_into(Cvoight,result);
     return result;
-- 
2.43.0


From b32205dfe4a45b5bad34358a33bed7411498afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 11/75] fix: derivative of the material tensor used overwritten
 point data for several points

---
 src/gsMaterialMatrixNonlinear.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 405fea2..45343a2 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -345,21 +345,20 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_dmatrix(
 {
     // return gsMatrix<T>::Zero(27,u.cols()*z.rows());
 
-    this->_computePoints(patch,u);
-
     gsMatrix<T> result(27,u.cols()*z.rows());
     result.setZero();
     index_t colIdx;
     for (index_t k=0; k!=u.cols(); k++)
     {
-        // Evaluate material properties on the quadrature point
-        for (index_t v=0; v!=m_data.mine().m_parmat.rows(); v++)
-            m_data.mine().m_parvals.at(v) = m_data.mine().m_parmat(v,k);
-
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j*u.cols()+k;
-            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
+            // Computed per point, since dCijkl can overwrite the point data
+            this->_computePoints(patch,u.col(k));
+            // Evaluate material properties on the quadrature point
+            for (index_t v=0; v!=m_data.mine().m_parmat.rows(); v++)
+                m_data.mine().m_parvals.at(v) = m_data.mine().m_parmat(v,0);
+            this->_getMetric(0, z(j, k) * m_data.mine().m_Tmat(0, 0)); // on point i, on height z(0,j)
             result.col(colIdx) = dCijkl(patch,u.col(k),z(j,k));
             // gsAsMatrix<T,Dynamic,Dynamic> dCdC = result.reshapeCol(k,3,9);
             // dCdC.row(2) *= 2;
-- 
2.43.0


From 197b51ebed8b0ac7ae671868798397267845bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 12/75] fix: principal stresses and strains of all points used
 the basis of the last point

---
 src/gsMaterialMatrixBaseDim.hpp   | 1 +
 src/gsMaterialMatrixLinear.hpp    | 3 +++
 src/gsMaterialMatrixNonlinear.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 91a275c..fb4b884 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -259,6 +259,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_pstrain(const index_t patch,
             E(1,1) = Emat(1,colIdx);
             E(0,1) = E(1,0) = 0.5*Emat(2,colIdx);
             E(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStrain(E);
             result.col(j * u.cols() + k) = res.first;
         }
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 6908828..17c2c80 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -382,6 +382,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstress(const index_t patch, c
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.first;
         }
@@ -415,6 +416,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstressDir(const index_t patch
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.second.reshape(9,1);
         }
@@ -448,6 +450,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.first;
         }
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 45343a2..367bcaa 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -635,6 +635,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstress(
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(colIdx) = res.first;
         }
@@ -665,6 +666,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(colIdx) = res.second.reshape(9,1);
         }
@@ -695,6 +697,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.first;
         }
-- 
2.43.0


From 01c3104b23ac63fe7a0bff192e852b174a0b252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 13/75] fix: principal stresses and strains failed when the
 zero eigenvalue had round-off

---
 src/gsMaterialMatrixBaseDim.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index fb4b884..c79bd89 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1403,14 +1403,9 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
 
     eigSolver.compute(B);
 
-    index_t zeroIdx = -1;
-    T tol = 1e-14;
-    T max = eigSolver.eigenvalues().array().abs().maxCoeff();
-    max = (max==0) ? 1 : max;
-    for (index_t k=0; k!=3; k++)
-        zeroIdx = std::abs(eigSolver.eigenvalues()[k] ) / max < tol ? k : zeroIdx;
-
-    GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
+    // The out-of-plane eigenvalue is zero, up to round-off
+    index_t zeroIdx;
+    eigSolver.eigenvalues().array().abs().minCoeff(&zeroIdx);
 
     index_t count = 0;
 
@@ -1447,14 +1442,9 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStrain(
 
     eigSolver.compute(B);
 
-    index_t zeroIdx = -1;
-    T tol = 1e-14;
-    T max = eigSolver.eigenvalues().array().abs().maxCoeff();
-    max = (max==0) ? 1 : max;
-    for (index_t k=0; k!=3; k++)
-        zeroIdx = std::abs(eigSolver.eigenvalues()[k] ) / max < tol ? k : zeroIdx;
-
-    GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
+    // The out-of-plane eigenvalue is zero, up to round-off
+    index_t zeroIdx;
+    eigSolver.eigenvalues().array().abs().minCoeff(&zeroIdx);
 
     index_t count = 0;
     pstrainvec.col(2) = m_data.mine().m_gcon_ori.col(2);
-- 
2.43.0


From 076292b945bbbe583a47f437bed9b7dc41992eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 14/75] fix: principal stress directions could not be evaluated

---
 src/gsMaterialMatrixBaseDim.hpp   | 3 ++-
 src/gsMaterialMatrixLinear.hpp    | 1 +
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index c79bd89..416b976 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1391,7 +1391,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     gsMatrix<T> pstressvec;
     std::pair<gsVector<T>,gsMatrix<T>> result;
     pstresses.resize(2,1);    pstresses.setZero();
-    pstressvec.resize(3,2);   pstressvec.setZero();
+    pstressvec.resize(3,3);   pstressvec.setZero();
 
     typename gsEigen::SelfAdjointEigenSolver< typename gsMatrix<T>::Base >  eigSolver;
 
@@ -1408,6 +1408,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     eigSolver.eigenvalues().array().abs().minCoeff(&zeroIdx);
 
     index_t count = 0;
+    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 17c2c80..a06e207 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -620,6 +620,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::_E(const T /*z*/, enum MaterialOutput
     else if (   out == MaterialOutput::Generic          ||
                 out == MaterialOutput::Strain           ||
                 out == MaterialOutput::Stress           ||
+                out == MaterialOutput::PStressDir       ||
                 out == MaterialOutput::PStress             ) // To be used with multiplyLinZ_into or integrateZ_into
         strain = 0.5*(m_data.mine().m_Gcov_def.block(0,0,2,2) - m_data.mine().m_Gcov_ori.block(0,0,2,2));
     else
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 367bcaa..02d1d1b 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -647,7 +647,7 @@ template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enu
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressDir(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z, enum MaterialOutput out) const
 {
     gsMatrix<T> Smat = eval3D_stress(patch,u,z,out);
-    gsMatrix<T> result(2, u.cols() * z.rows());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     result.setZero();
     gsMatrix<T,3,3> S;
     index_t colIdx;
-- 
2.43.0


From 03f8cb86a178f5a8f891dd657513c545ee01112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 15/75] fix: principal Cauchy stresses were computed on the
 undeformed basis

---
 src/gsMaterialMatrixBaseDim.h     |  2 ++
 src/gsMaterialMatrixBaseDim.hpp   | 10 ++++++++--
 src/gsMaterialMatrixLinear.hpp    |  2 +-
 src/gsMaterialMatrixNonlinear.hpp |  2 +-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index 7bedc88..a0b7254 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -243,6 +243,8 @@ public:
 
     /// Computes the principal stress given stress tensor S, into a pair
     std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S ) const;
+    /// Computes the principal stresses of a stress tensor S given on the covariant basis gcov
+    std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov ) const;
 
     /// Computes the stretch given deformation tensor C, into class members m_stretches and m_stretchDirs
     void _computeStretch(const gsMatrix<T> & C, const gsMatrix<T> & gcon_ori ) const;
diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 416b976..80f230a 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1386,6 +1386,12 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
 template <short_t dim, class T>
 std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S) const
+{
+    return _evalPStress(S,m_data.mine().m_gcov_ori);
+}
+
+template <short_t dim, class T>
+std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov) const
 {
     gsVector<T> pstresses;
     gsMatrix<T> pstressvec;
@@ -1399,7 +1405,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     B.setZero();
     for (index_t k = 0; k != 2; k++)
         for (index_t l = 0; l != 2; l++)
-            B += S(k,l) * m_data.mine().m_gcov_ori.col(k) * m_data.mine().m_gcov_ori.col(l).transpose();
+            B += S(k,l) * gcov.col(k) * gcov.col(l).transpose();
 
     eigSolver.compute(B);
 
@@ -1408,7 +1414,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     eigSolver.eigenvalues().array().abs().minCoeff(&zeroIdx);
 
     index_t count = 0;
-    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
+    pstressvec.col(2) = gcov.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index a06e207..5057eca 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -451,7 +451,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def);
             result.col(j * u.cols() + k) = res.first;
         }
     }
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 02d1d1b..4ecae00 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -698,7 +698,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def);
             result.col(j * u.cols() + k) = res.first;
         }
     }
-- 
2.43.0


From 93ee9e6f04cde95f4bdbe5e9221a27796bfd786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 16/75] fix: material evaluator replaced the undeformed
 geometry by the deformed one

---
 src/gsMaterialMatrixEval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 5976767..cf61c64 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -149,7 +149,7 @@ m_z(z)
 template <class T, enum MaterialOutput out>
 gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
                                                         gsMaterialMatrixBase<T> * materialMatrix,
-                                                        const gsFunctionSet<T> * /*undeformed*/,
+                                                        const gsFunctionSet<T> * undeformed,
                                                         const gsFunctionSet<T> * deformed,
                                                         const gsMatrix<T> z
                                                    )
@@ -158,7 +158,7 @@ m_pIndex(patch),
 m_materialMat(materialMatrix),
 m_z(z)
 {
-    m_materialMat->setUndeformed(deformed);
+    m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
 
     if (m_z.cols()==0 || m_z.rows()==0)
-- 
2.43.0


From 4b8802deba4834a15d18fc0a899e9005122bb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 17/75] fix: material evaluator rejected the documented empty
 set of heights

---
 src/gsMaterialMatrixEval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index cf61c64..02eeea9 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -141,7 +141,7 @@ m_z(z)
         m_z.resize(1,1);
         m_z.setZero();
     }
-    GISMO_ASSERT(z.cols()==1,"Z coordinates should be provided row-wise in one column");
+    GISMO_ASSERT(m_z.cols()==1,"Z coordinates should be provided row-wise in one column");
 
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
@@ -166,7 +166,7 @@ m_z(z)
         m_z.resize(1,1);
         m_z.setZero();
     }
-    GISMO_ASSERT(z.cols()==1,"Z coordinates should be provided row-wise in one column");
+    GISMO_ASSERT(m_z.cols()==1,"Z coordinates should be provided row-wise in one column");
 
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
-- 
2.43.0


From c9ee4417083dcdd1d688b2d9f12cf28ad1eaa018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 18/75] fix: integrated material with given undeformed geometry
 crashed for several patches

---
 src/gsMaterialMatrixIntegrate.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 7cc5797..d85252d 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -87,10 +87,8 @@ m_materialMatrices(deformed->nPieces()),
 m_deformed(deformed)
 {
     for (index_t p = 0; p!=deformed->nPieces(); ++p)
-    {
         m_materialMatrices.set(p,materialMatrix);
-        this->_makePieces(undeformed,deformed);
-    }
+    this->_makePieces(undeformed,deformed);
 }
 
 template <class T, enum MaterialOutput out>
-- 
2.43.0


From 968047ca54b015626ec9e3da0f2906c1fc5b3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 19/75] fix: material tensor of the linear material wrote out
 of bounds

---
 src/gsMaterialMatrixLinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 5057eca..8854f7f 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -582,7 +582,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::S(const gsMatrix<T> & strain) const
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixLinear<dim,T>::C(const gsMatrix<T> &) const
 {
-    gsMatrix<T> result(2,2);
+    gsMatrix<T> result(3,3);
     result(0,0)                 = _Cijkl(0,0,0,0); // C1111
     result(1,1)                 = _Cijkl(1,1,1,1); // C2222
     result(2,2)                 = _Cijkl(0,1,0,1); // C1212
-- 
2.43.0


From 6521c9b92fcd2282138988ad27fe25c5c78f3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 20/75] fix: setting a new material parameter by pointer wrote
 out of bounds

---
 src/gsMaterialMatrixBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index 78bce9b..7558e7e 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -699,6 +699,8 @@ public:
      */
     virtual void setParameter(const index_t i, const function_ptr &par)
     {
+        if ((index_t)m_pars.size() < i+1)
+            m_pars.resize(i+1);
         m_pars[i] = par;
     }
 
-- 
2.43.0


From d5bd80dcfb563625af36d1755573b253bae76eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:35 +0000
Subject: [PATCH 21/75] fix: default-constructed hyperelastic material had no
 options

---
 src/gsMaterialMatrixNonlinear.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.h b/src/gsMaterialMatrixNonlinear.h
index 41d3238..11b7dc4 100644
--- a/src/gsMaterialMatrixNonlinear.h
+++ b/src/gsMaterialMatrixNonlinear.h
@@ -121,7 +121,7 @@ protected:
 
 public:
     /// Destructor
-    gsMaterialMatrixNonlinear() { }
+    gsMaterialMatrixNonlinear() { _initialize(); }
 
     /// See \ref gsMaterialMatrixBase for details
     inline enum MatIntegration isMatIntegrated() const override {return MatIntegration::NotIntegrated; }
-- 
2.43.0


From 9ccae8504e7ed4312c924b75fb231bae2205b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:20 +0000
Subject: [PATCH 22/75] fix: constructing a material without geometry
 dereferenced a null geometry

---
 src/gsMaterialMatrixBaseDim.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index a0b7254..302e64a 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -58,7 +58,7 @@ public:
     :
     Base(mp,nullptr,nullptr,nullptr)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
@@ -68,8 +68,8 @@ public:
     :
     Base(mp,mp_def,nullptr,nullptr)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
-        GISMO_ASSERT(mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp_def==nullptr || mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
@@ -80,7 +80,7 @@ public:
     :
     Base(mp,nullptr,thickness,Density)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
@@ -92,8 +92,8 @@ public:
     :
     Base(mp,mp_def,thickness,Density)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
-        GISMO_ASSERT(mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp_def==nullptr || mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
-- 
2.43.0


From bd7ef8f331d6ca52442011fad8959604af4c9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:28 +0000
Subject: [PATCH 23/75] fix: principal stress and strain directions were mixed
 with the normal for zero in-plane eigenvalues

---
 src/gsMaterialMatrixBaseDim.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 80f230a..df3862a 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1407,18 +1407,18 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
         for (index_t l = 0; l != 2; l++)
             B += S(k,l) * gcov.col(k) * gcov.col(l).transpose();
 
+    // The normal is an eigenvector with eigenvalue zero. Separate it from the in-plane
+    // ones (which may be zero as well) by making its eigenvalue the largest
+    gsMatrix<T> normal = gcov.col(2).normalized();
+    T shift = B.norm() > 0 ? T(2*B.norm()) : T(1);
+    B += shift * normal * normal.transpose();
     eigSolver.compute(B);
 
-    // The out-of-plane eigenvalue is zero, up to round-off
-    index_t zeroIdx;
-    eigSolver.eigenvalues().array().abs().minCoeff(&zeroIdx);
-
     index_t count = 0;
     pstressvec.col(2) = gcov.col(2);
 
-    for (index_t k=0; k!=3; k++)
+    for (index_t k=0; k!=2; k++)
     {
-        if (k==zeroIdx) continue;
         pstressvec.col(count) = eigSolver.eigenvectors().col(k);
         pstresses(count,0) = eigSolver.eigenvalues()(k,0);
         count++;
@@ -1447,19 +1447,19 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStrain(
         for (index_t l = 0; l != 2; l++)
             B += S(k,l) * m_data.mine().m_gcon_ori.col(k) * m_data.mine().m_gcon_ori.col(l).transpose();
 
+    // The normal is an eigenvector with eigenvalue zero. Separate it from the in-plane
+    // ones (which may be zero as well) by making its eigenvalue the largest
+    gsMatrix<T> normal = m_data.mine().m_gcon_ori.col(2).normalized();
+    T shift = B.norm() > 0 ? T(2*B.norm()) : T(1);
+    B += shift * normal * normal.transpose();
     eigSolver.compute(B);
 
-    // The out-of-plane eigenvalue is zero, up to round-off
-    index_t zeroIdx;
-    eigSolver.eigenvalues().array().abs().minCoeff(&zeroIdx);
-
     index_t count = 0;
     pstrainvec.col(2) = m_data.mine().m_gcon_ori.col(2);
     pstrains(2,0) = S(2,2);
 
-    for (index_t k=0; k!=3; k++)
+    for (index_t k=0; k!=2; k++)
     {
-        if (k==zeroIdx) continue;
         pstrainvec.col(count) = eigSolver.eigenvectors().col(k);
         pstrains(count,0) = eigSolver.eigenvalues()(k,0);
         count++;
-- 
2.43.0


From 97ca564c9f84cb061e1fa3fca19d3033ba9c8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 24/75] fix: wrinkled stiffness of the tension-field material
 had a wrong sign in the direction derivative

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index a87fe4f..1143d07 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -865,7 +865,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // dF/dE
     // gsMatrix<T> dfdE = ( n2_vec.transpose() - tmp * n1_vec.transpose() ) * C;
-    gsMatrix<T> dfdE = n2_vec.transpose() * C - dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
+    gsMatrix<T> dfdE = n2_vec.transpose() * C + dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
     dfdE.transposeInPlace();
 
     // dF/dT
-- 
2.43.0


From 7bd47f2c703b0c7178070133589f8b26ccbfa10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 25/75] fix: wrinkled stiffness of the nonlinear tension-field
 material was transposed

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 1143d07..0e8a5f7 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -939,7 +939,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // d(gamma*n1)dE
     gsMatrix<T> dgamman1dE = ( n1_vec * dgammadE + dgammadT * n1_vec * dTdE + 2*gamma * n2_vec * dTdE );
-    result += dgamman1dE.transpose() * C;
+    result += C * dgamman1dE;
     result += gamma * dCN1;
     return result;
 }
-- 
2.43.0


From a1d45577746aa173b6bf03076982f9c1c16415df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 26/75] fix: Cauchy stress of wrinkled tension-field states
 used the square root of the volume ratio

---
 src/gsMaterialMatrixTFT.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 0e8a5f7..3fd1d54 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -208,7 +208,6 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
     index_t colIdx;
     T theta;
 
-    this->_computePoints(patch,u);
     for (index_t k=0; k!=u.cols(); k++)
     {
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
@@ -226,15 +225,14 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
             }
             else if (TF(0,colIdx) == 0) // wrinkled
             {
-                this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
                 gsMatrix<T> C = m_materialMat->eval3D_matrix(patch,u.col(k),z(j,k),MaterialOutput::MatrixA);
                 gsMatrix<T> N = m_materialMat->eval3D_stress(patch,u.col(k),z(j,k),MaterialOutput::VectorN);;
                 gsMatrix<T> E = m_materialMat->eval3D_strain(patch,u.col(k),z(j,k));
                 gsMatrix<T> thetas = eval_theta(C,N,E);
                 theta = thetas(0,0);
                 gsMatrix<T> S = this->_compute_S(theta,C.reshape(3,3),N);
-                T detF = math::sqrt(m_data.mine().m_J0_sq)*1.0;
-                result.col(colIdx) = S / math::sqrt(detF);
+                gsMatrix<T> detF = m_materialMat->eval3D_detF(patch,u.col(k),z.block(j,k,1,1),MaterialOutput::Generic);
+                result.col(colIdx) = S / detF(0,0);
             }
             else
                 GISMO_ERROR("Tension field data not understood: "<<TF(0,colIdx));
-- 
2.43.0


From ce60fe19785b8222f2033fb944d0256583faabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 27/75] fix: wrinkling direction and strain wrote out of bounds
 for several through-thickness points

---
 src/gsMaterialMatrixTFT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 3fd1d54..48ffb30 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -301,7 +301,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_tensionfield(const index_t
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
@@ -333,7 +333,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch,
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_gamma(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
-- 
2.43.0


From 7b040fcc0a5d11997b7c5d31dfd2808f4a38e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:05 +0000
Subject: [PATCH 28/75] fix: wrinkling direction was not found when a search
 point was exactly a root

---
 src/gsMaterialMatrixTFT.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 48ffb30..1e270cd 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -528,6 +528,11 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval_theta(const gsMatrix<T> & Cs
                 thetas[i] = theta;
             }
 
+            // Points that are exactly a root are not contained in any of the intervals
+            for (index_t i=0; i!=f_vec.size(); i++)
+                if (f_vec(i) == 0)
+                    thetas.push_back(theta_vec(i));
+
             if ((f_vec(0)*f_vec(f_vec.size()-1) <= 0))
                 thetas.push_back(0.0);
 
-- 
2.43.0


From 27358cdeeca39ed08eb682cbdded6148518c4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 29/75] fix: laminate stiffness without deformed geometry
 dereferenced a null pointer

---
 src/gsMaterialMatrixComposite.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index fb5c0cf..861c868 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -133,7 +133,7 @@ void gsMaterialMatrixComposite<dim,T>::_computePoints(const index_t patch, const
 {
     this->_computeMetricUndeformed(patch,u);
 
-    if (Base::m_defpatches->nPieces()!=0)
+    if (Base::m_defpatches!=nullptr && Base::m_defpatches->nPieces()!=0)
         this->_computeMetricDeformed(patch,u);
 }
 
@@ -229,7 +229,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_matrix(const index_t patch,
     for (index_t k = 0; k != u.cols(); ++k)
     {
         Cmat.setZero();
-        this->_getMetric(k,0.0); // on point i, with height 0.0
+        this->_getMetricUndeformed(k,0.0); // on point i, with height 0.0
 
         // Compute total thickness (sum of entries)
         t_tot = 0;
-- 
2.43.0


From 71130a8fedf5cccca294389d44d3085b3fdabc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 30/75] fix: Cartesian-to-covariant stress transformation of
 laminates was wrong on skewed parametrisations

---
 src/gsMaterialMatrixComposite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 861c868..a603017 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -357,7 +357,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_cart2cov(const gsVector<T> & a1,
     Tmat.setZero();
     // Covariant to local cartesian
     Tmat(0,0) = (e1.dot(a1))*(a1.dot(e1));
-    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e2));
+    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e1));
     Tmat(0,2) = 2*(e1.dot(a1))*(a2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(a1))*(a1.dot(e2));
-- 
2.43.0


From d7b07b41d657b15895f08dd7d7a1fe101da8d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 31/75] fix: strain transformation of laminates mixed tensor
 and engineering shear on skewed parametrisations

---
 src/gsMaterialMatrixComposite.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index a603017..0b7dd1e 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -377,17 +377,17 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_con2cart(const gsVector<T> & ac1,
 {
     gsMatrix<T,3,3> Tmat;
     Tmat.setZero();
-    // Contravariant to local cartesian
+    // Contravariant to local cartesian (strains in Voigt notation, i.e. with doubled shear components)
     Tmat(0,0) = (e1.dot(ac1))*(ac1.dot(e1));
-    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e2));
-    Tmat(0,2) = 2*(e1.dot(ac1))*(ac2.dot(e1));
+    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e1));
+    Tmat(0,2) = (e1.dot(ac1))*(ac2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(ac1))*(ac1.dot(e2));
     Tmat(1,1) = (e2.dot(ac2))*(ac2.dot(e2));
-    Tmat(1,2) = 2*(e2.dot(ac1))*(ac2.dot(e2));
+    Tmat(1,2) = (e2.dot(ac1))*(ac2.dot(e2));
     // Row 2
-    Tmat(2,0) = (e1.dot(ac1))*(ac1.dot(e2));
-    Tmat(2,1) = (e1.dot(ac2))*(ac2.dot(e2));
+    Tmat(2,0) = 2*(e1.dot(ac1))*(ac1.dot(e2));
+    Tmat(2,1) = 2*(e1.dot(ac2))*(ac2.dot(e2));
     Tmat(2,2) = (e1.dot(ac1))*(ac2.dot(e2)) + (e1.dot(ac2))*(ac1.dot(e2));
     return Tmat;
 }
-- 
2.43.0


From 948ccec35c5bda62eca349491e611e3f0be6bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 32/75] fix: forces and moments of laminates missed the
 membrane-bending coupling

---
 src/gsMaterialMatrixComposite.hpp | 40 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 0b7dd1e..1596d3a 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -293,35 +293,35 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_vector(const index_t patch,
 
     this->_computePoints(patch,u);
     gsMatrix<T> result(3, u.cols());
-    enum MaterialOutput _out;
+    enum MaterialOutput outE, outK;
     if      (out==MaterialOutput::VectorN)
-        _out=MaterialOutput::MatrixA;
+    {
+        outE=MaterialOutput::MatrixA;
+        outK=MaterialOutput::MatrixB;
+    }
     else if (out==MaterialOutput::VectorM)
-        _out=MaterialOutput::MatrixD;
+    {
+        outE=MaterialOutput::MatrixC;
+        outK=MaterialOutput::MatrixD;
+    }
     else
-        GISMO_ERROR("Output unknown");
+        GISMO_ERROR("Output type is not VectorN or VectorM!");
 
-    gsMatrix<T> Cmat = this->eval3D_matrix(patch,u,z,_out);
-    gsMatrix<T> Eij(2,2);
+    gsMatrix<T> CmatE = this->eval3D_matrix(patch,u,z,outE);
+    gsMatrix<T> CmatK = this->eval3D_matrix(patch,u,z,outK);
+    gsMatrix<T> Eij(2,2), Kij(2,2);
+    gsVector<T,3> E, K;
 
     for (index_t k = 0; k != u.cols(); ++k)
     {
         this->_getMetric(k,0.0); // on point i, with height 0.0
 
-        if      (out == MaterialOutput::VectorN) // To be used with multiplyZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
-        else if (out == MaterialOutput::VectorM) // To be used with multiplyZ_into
-            Eij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else if (out == MaterialOutput::Generic) // To be used with multiplyLinZ_into or integrateZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori) + z*(m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else
-            GISMO_ERROR("Output type is not VectorN, VectorM or Generic!");
-
-        Eij(0,1) += Eij(1,0);
-        std::swap(Eij(1,0), Eij(1,1));
-        Eij.resize(4,1);
-        Eij.conservativeResize(3,1);
-        result.col(k) = Cmat.reshapeCol(k,3,3) * Eij;
+        Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
+        Kij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
+
+        E << Eij(0,0), Eij(1,1), Eij(0,1) + Eij(1,0);
+        K << Kij(0,0), Kij(1,1), Kij(0,1) + Kij(1,0);
+        result.col(k) = CmatE.reshapeCol(k,3,3) * E + CmatK.reshapeCol(k,3,3) * K;
     }
     return result;
 }
-- 
2.43.0


From 3089eb8b517592c2f63b3adb26d8801d0b5c0635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 33/75] fix: ply thicknesses of laminates were written into a
 result of unset size

---
 src/gsMaterialMatrixComposite.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 1596d3a..928fe18 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -178,13 +178,13 @@ void gsMaterialMatrixComposite<dim,T>::thickness_into(const index_t patch, const
     std::vector<gsMatrix<T>> Tcontainer(m_nLayers);
     for (size_t k=0; k!= m_Rs.size(); k++)
     {
-        Tcontainer[k] = m_Ts[k]->eval(map.values[0]);
+        Tcontainer[k] = m_Ts[k]->piece(patch).eval(map.values[0]);
         GISMO_ASSERT(Tcontainer[k].rows()==1,"Thickness has the wrong size, must be scalar");
     }
 
+    result.resize(m_nLayers, u.cols());
     for (index_t i = 0; i != m_nLayers; ++i) // layers
-        for (index_t k = 0; k != u.cols(); ++k) // points
-            result.row(i) = Tcontainer[i].row(0);
+        result.row(i) = Tcontainer[i].row(0);
 }
 
 template <short_t dim, class T >
-- 
2.43.0


From 087ad03ac4bbf4bd922d4ca448a2f92410d8f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:22 +0000
Subject: [PATCH 34/75] fix: assembling a residual failed when no matrix was
 assembled before

---
 src/gsThinShellAssembler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 937fc81..8ae54b7 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1998,6 +1998,8 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     geometryMap m_def   = m_assembler.getMap(deformed);
 
     // Initialize vector
+    if (m_assembler.fiberMatrix().cols()!=m_assembler.numDofs()) // no matrix of the current size available
+        m_assembler.initMatrix();
     m_assembler.initVector(1);
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
@@ -2075,6 +2077,8 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     geometryMap m_def   = m_assembler.getMap(deformed);
 
     // Initialize vector
+    if (m_assembler.fiberMatrix().cols()!=m_assembler.numDofs()) // no matrix of the current size available
+        m_assembler.initMatrix();
     m_assembler.initVector(1);
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
-- 
2.43.0


From 3925b7460ade699ba2373e5e7c13f89f8d3eeb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:22 +0000
Subject: [PATCH 35/75] fix: elastic foundation pushed away from the undeformed
 shell in the nonlinear residual

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8ae54b7..5efd34a 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -549,7 +549,7 @@ gsThinShellAssembler<d, T, bending>::_assembleFoundation_impl(const gsFunction<T
 
     // Assemble vector
     m_assembler.assemble(
-                  m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
+                  -m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // - [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
                 );
 }
 
-- 
2.43.0


From c6d556a39d114f5f2f1a8b3856c59c6b55a7c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:27 +0000
Subject: [PATCH 36/75] fix: evaluators sharing a material evaluated on the
 geometry of the last constructed one

---
 src/gsMaterialMatrixEval.h        | 1 +
 src/gsMaterialMatrixEval.hpp      | 9 +++++++++
 src/gsMaterialMatrixIntegrate.h   | 1 +
 src/gsMaterialMatrixIntegrate.hpp | 9 +++++++++
 4 files changed, 20 insertions(+)

diff --git a/src/gsMaterialMatrixEval.h b/src/gsMaterialMatrixEval.h
index ec31301..030dfe3 100644
--- a/src/gsMaterialMatrixEval.h
+++ b/src/gsMaterialMatrixEval.h
@@ -355,6 +355,7 @@ private:
 protected:
     index_t m_pIndex;
     gsMaterialMatrixBase<T> * m_materialMat;
+    typename gsMaterialMatrixBase<T>::function_ptr m_undeformed, m_deformed;
     gsMatrix<T> m_z;
 };
 
diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 02eeea9..6b7d439 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -135,6 +135,8 @@ m_materialMat(materialMatrix),
 m_z(z)
 {
     m_materialMat->setDeformed(deformed);
+    m_undeformed = m_materialMat->getUndeformed();
+    m_deformed   = m_materialMat->getDeformed();
 
     if (m_z.cols()==0 || m_z.rows()==0)
     {
@@ -160,6 +162,8 @@ m_z(z)
 {
     m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
+    m_undeformed = m_materialMat->getUndeformed();
+    m_deformed   = m_materialMat->getDeformed();
 
     if (m_z.cols()==0 || m_z.rows()==0)
     {
@@ -176,6 +180,11 @@ void gsMaterialMatrixEvalSingle<T,out>::eval_into(const gsMatrix<T>& u, gsMatrix
 {
 /// Non-parallel evaluation
 // #pragma omp critical (gsMaterialMatrixEvalSingle_eval_into)
+    // The material can be shared with evaluators on other geometries
+    if (m_undeformed!=nullptr && m_materialMat->getUndeformed()!=m_undeformed)
+        m_materialMat->setUndeformed(m_undeformed);
+    if (m_deformed!=nullptr && m_materialMat->getDeformed()!=m_deformed)
+        m_materialMat->setDeformed(m_deformed);
     this->eval_into_impl<out>(u,result);
 }
 
diff --git a/src/gsMaterialMatrixIntegrate.h b/src/gsMaterialMatrixIntegrate.h
index d4ba83a..88f3c75 100644
--- a/src/gsMaterialMatrixIntegrate.h
+++ b/src/gsMaterialMatrixIntegrate.h
@@ -382,6 +382,7 @@ private:
 protected:
     index_t m_pIndex;
     gsMaterialMatrixBase<T> * m_materialMat;
+    typename gsMaterialMatrixBase<T>::function_ptr m_undeformed, m_deformed;
     gsMatrix<T> m_z;
 };
 
diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index d85252d..179a0f8 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -135,6 +135,8 @@ m_pIndex(patch),
 m_materialMat(materialMatrix)
 {
     m_materialMat->setDeformed(deformed);
+    m_undeformed = m_materialMat->getUndeformed();
+    m_deformed   = m_materialMat->getDeformed();
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
 
@@ -151,6 +153,8 @@ m_materialMat(materialMatrix)
 {
     m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
+    m_undeformed = m_materialMat->getUndeformed();
+    m_deformed   = m_materialMat->getDeformed();
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
 
@@ -159,6 +163,11 @@ void gsMaterialMatrixIntegrateSingle<T,out>::eval_into(const gsMatrix<T>& u, gsM
 {
 /// Non-parallel evaluation
 // #pragma omp critical (gsMaterialMatrixIntegrateSingle_eval_into)
+    // The material can be shared with evaluators on other geometries
+    if (m_undeformed!=nullptr && m_materialMat->getUndeformed()!=m_undeformed)
+        m_materialMat->setUndeformed(m_undeformed);
+    if (m_deformed!=nullptr && m_materialMat->getDeformed()!=m_deformed)
+        m_materialMat->setDeformed(m_deformed);
     this->eval_into_impl<out>(u,result);
 }
 
-- 
2.43.0


From 98e382c508cd7c71914629c02a5775a1668f724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 37/75] fix: weak displacement supports pushed away from the
 prescribed displacement

---
 src/gsThinShellAssembler.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 5efd34a..f44b2b3 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -600,7 +600,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * m_space.tr()) * meas(m_ori)
+         (alpha_d * m_space * m_space.tr()) * meas(m_ori)
     );
 
     // for weak clamped
@@ -642,7 +642,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * g_N         ) * meas(m_ori)
+         (alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 
     // for weak clamped
@@ -676,7 +676,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * m_space.tr()) * meas(m_ori)
+         (alpha_d * m_space * m_space.tr()) * meas(m_ori)
     );
 }
 
@@ -695,7 +695,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        (m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+        -(m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
     );
 }
 
@@ -742,7 +742,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -alpha_d * m_space * m_space.tr() * meas(m_ori)
+         alpha_d * m_space * m_space.tr() * meas(m_ori)
     );
 
     // for weak clamped
@@ -792,7 +792,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        alpha_d * (m_space * du - m_space * (g_N) ) * meas(m_ori)
+        -alpha_d * (m_space * du - m_space * (g_N) ) * meas(m_ori)
     );
 
     // for weak clamped
@@ -831,7 +831,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -alpha_d * m_space * m_space.tr() * meas(m_ori)
+         alpha_d * m_space * m_space.tr() * meas(m_ori)
     );
 }
 
@@ -862,7 +862,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        alpha_d * (m_space * (m_def - m_ori) - m_space * (g_N) ) * meas(m_ori)
+        -alpha_d * (m_space * (m_def - m_ori) - m_space * (g_N) ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From 9b327f4f981c657bd126b474e1a2c022186a3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 38/75] fix: linear weak displacement supports of planar
 problems scaled matrix and load differently

---
 src/gsThinShellAssembler.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index f44b2b3..e834e23 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -685,17 +685,29 @@ template <short_t _d, bool _matrix>
 typename std::enable_if<!(_d==3) && !_matrix, void>::type
 gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
 {
+    gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
 
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     auto g_N = m_assembler.getBdrFunction(m_ori);
 
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
+    auto mmA = m_assembler.getCoeff(m_mmA);
+
+    auto cart2cov = cartcov(m_ori);
+    auto con2cartI = cartcon(m_ori).inv();
+
+    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+
+    element el = m_assembler.getElement();
+    auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
+
     // Weak BCs
     m_assembler.assembleBdr
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+         (alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From 14156dd032e34f3962f6157a9ffb3dcc05e4652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 39/75] fix: weakly clamped edges had a residual that did not
 belong to their stiffness

---
 src/gsThinShellAssembler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e834e23..4a4b48b 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -763,7 +763,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            alpha_r * dnN * ( var2deriv2(m_space,m_space,m_def,unv(m_ori).tr()) )
+            alpha_r * dnN * ( var2(m_space,m_space,m_def,unv(m_ori).tr()) )
             +
             alpha_r * ( ( var1(m_space,m_def) * unv(m_ori) ) * ( var1(m_space,m_def) * unv(m_ori) ).tr() )
         ) * meas(m_ori)
@@ -797,7 +797,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto alpha_r = m_alpha_r_bc * reshape(mmDcart,9,1).max().val() / el.area(m_ori);
 
     auto du  = m_def - m_ori;
-    auto dnN = ( usn(m_def).tr()*nv(m_ori) - usn(m_ori).tr()*nv(m_ori) ).val();
+    auto dnN = ( usn(m_def).tr()*unv(m_ori) - usn(m_ori).tr()*unv(m_ori) ).val();
 
     // Weak BCs
     m_assembler.assembleBdr
@@ -813,7 +813,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            - alpha_r * dnN * ( var1(m_space,m_def) * usn(m_ori) )
+            - alpha_r * dnN * ( var1(m_space,m_def) * unv(m_ori) )
         ) * meas(m_ori)
     );
 }
-- 
2.43.0


From 5604fb89ce49b90b98ca9ae60d666876522d0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 40/75] fix: weak interface coupling of planar problems was
 mis-scaled and had a residual of wrong sign

---
 src/gsThinShellAssembler.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 4a4b48b..dce63f3 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1003,13 +1003,13 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
 
     // C^0 coupling
     m_assembler.assembleIfc(m_weakC0,
-                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori)
                     ,
-                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori)
                      );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
@@ -1304,9 +1304,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
 
     // C^0 coupling
      m_assembler.assembleIfc(m_weakC0,
-                      alpha_d * m_space.left() * du * meas(m_ori)
+                     -alpha_d * m_space.left() * du * meas(m_ori)
                      ,
-                     -alpha_d * m_space.right()* du * meas(m_ori)
+                      alpha_d * m_space.right()* du * meas(m_ori)
                       );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From 9e77dc1feafc691dc5b5c84ae74866c424b6c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:18 +0000
Subject: [PATCH 41/75] fix: stiffness of the in-plane normal coupling of
 patches mixed the two sides

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index dce63f3..3ed9f3b 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1131,17 +1131,17 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     m_assembler.assembleIfc(m_weakC1,
                      alpha_r * dnN_lr * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
                     + // Symmetry
-                     alpha_r * dnN_rl * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
+                     alpha_r * dnN_rl * var2(m_space.left(),m_space.left(),m_def.left(),unv(m_def.right()).tr()) * meas(m_ori) // left left
                     ,
                      alpha_r * dnN_lr * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     + // Symmetry
-                     alpha_r * dnN_rl * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_rl * ( var1(m_space.left() ,m_def.left() ) * ovar1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     ,
-                     alpha_r * dnN_lr * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_lr * ( var1(m_space.right(),m_def.right()) * ovar1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     + // Symmetry
                      alpha_r * dnN_rl * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     ,
-                     alpha_r * dnN_lr * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
+                     alpha_r * dnN_lr * var2(m_space.right(),m_space.right(),m_def.right(),unv(m_def.left()).tr()) * meas(m_ori) // right right
                     + // Symmetry
                      alpha_r * dnN_rl * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
                      );
-- 
2.43.0


From 7722b7d814238647c7e3d98a576432f45a8cc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 42/75] fix: penalty of weak supports and couplings depended on
 the skewness of the parametrisation

---
 src/gsThinShellAssembler.hpp | 82 +++++++++++++++---------------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 3ed9f3b..91bc06d 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -585,11 +585,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -628,10 +627,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -663,10 +661,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -694,10 +691,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -735,11 +731,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -786,11 +781,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -830,10 +824,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -861,10 +854,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -904,11 +896,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -992,10 +983,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1048,11 +1038,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1182,11 +1171,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1253,10 +1241,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1291,10 +1278,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori);
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
-- 
2.43.0


From 76d3b674a134e14722f6ad89d5a2bbfdda38b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:12 +0000
Subject: [PATCH 43/75] fix: second variation of the outer normal used a
 normalised Jacobian

---
 src/gsThinShellUtils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index eec8b42..7e4985c 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1042,11 +1042,10 @@ public:
         eC.resize(1,3);
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cJac.colwise().normalize();
 
         onormal = _G.data().outNormal(k);
         onormal.normalize();
-        tmp = cJac.transpose() * onormal;
+        tmp = cJac.colwise().normalized().transpose() * onormal;
         tmp.colwise().normalize(); //normalize the inner product for fair comparison
 
         Scalar tol = 1e-8;
-- 
2.43.0


From f61dfd92cffd282eae526b7774eaaca95ecea7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 44/75] fix: copied and moved assemblers used the
 discretisation space of their source

---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index c48014a..b2d63db 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -668,7 +668,7 @@ protected:
     // const gsFunctionSet<T> * m_defpatches;
     const gsFunctionSet<T> * m_itpatches;
     mutable gsMultiBasis<T> m_basis;
-    const gsFunctionSet<T> *  m_spaceBasis;
+    const gsFunctionSet<T> *  m_spaceBasis = nullptr;
     gsBoundaryConditions<T> m_bcs;
 
     mutable gsMatrix<T> m_ddofs;
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 91bc06d..a5c2cbd 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -77,7 +77,7 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
                                         :
                                         m_patches(patches),
                                         m_basis(basis),
-                                        m_spaceBasis(&basis),
+                                        m_spaceBasis(&m_basis),
                                         m_bcs(bconditions),
                                         m_forceFun(&surface_force)
 {
@@ -101,12 +101,11 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     if (this!=&other)
     {
         m_mapper=other.m_mapper;
-        m_assembler=other.m_assembler;
         m_evaluator=other.m_evaluator;
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
-        m_spaceBasis=other.m_spaceBasis;
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
         m_mass=other.m_mass;
@@ -137,10 +136,15 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_weakC1=other.m_weakC1;
         m_unassigned=other.m_unassigned;
 
+        m_status=other.m_status;
+
         // To do: make copy constructor for the gsExprAssembler
-        m_assembler.setIntegrationElements(m_basis);
-        GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-        m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+        // The copy needs its own space, hence it gets a new assembler (and has to be assembled anew)
+        if (m_spaceBasis!=nullptr)
+        {
+            m_assembler = gsExprAssembler<>();
+            this->_initialize();
+        }
     }
     return *this;
 }
@@ -154,7 +158,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_patches=give(other.m_patches);
     m_itpatches=give(other.m_itpatches);
     m_basis=give(other.m_basis);
-    m_spaceBasis=give(other.m_spaceBasis);
+    m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
     m_bcs=give(other.m_bcs);
     m_ddofs=give(other.m_ddofs);
     m_mass=give(other.m_mass);
@@ -184,10 +188,15 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_strongC1=give(other.m_strongC1);
     m_weakC1=give(other.m_weakC1);
     m_unassigned=give(other.m_unassigned);
+    m_status=other.m_status;
     // To do: make copy constructor for the gsExprAssembler
-    m_assembler.setIntegrationElements(m_basis);
-    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+    if (m_spaceBasis!=nullptr)
+    {
+        m_assembler.setIntegrationElements(m_basis);
+        GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+        m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+        m_assembler.getSpace(*m_spaceBasis, d, 0); // the space refers to the basis of this assembler
+    }
     return *this;
 }
 
-- 
2.43.0


From 99a3c8546f4178407b02a71c7aa326e6bc3fd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 45/75] fix: pressure and foundation were lost when geometry,
 basis or continuity was changed

---
 src/gsThinShellAssembler.h   | 6 ++++--
 src/gsThinShellAssembler.hpp | 5 -----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index b2d63db..0e8915e 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -690,8 +690,10 @@ protected:
 
     mutable gsOptionList m_options;
 
-    mutable bool m_foundInd;
-    mutable bool m_pressInd;
+    // foundation is off by default
+    mutable bool m_foundInd = false;
+    // pressure is off by default
+    mutable bool m_pressInd = false;
 
     mutable index_t m_continuity;
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index a5c2cbd..8c49194 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -272,11 +272,6 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     m_ddofs = m_space.fixedPart();
     m_mapper = m_space.mapper();
 
-    // foundation is off by default
-    m_foundInd = false;
-    // pressure is off by default
-    m_pressInd = false;
-
     GISMO_ASSERT(m_forceFun->targetDim()==d,"Force must have " << d<<" dimensions but has "<<m_forceFun->targetDim());
 
     // test interfaces on in-plane and out-of-plane connection and put them in respective containers
-- 
2.43.0


From f53a1eccded5745ed8b73ea574474c8ee55f0983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 46/75] fix: right-hand side with point loads stayed in place
 after the loads were removed or others were added

---
 src/gsThinShellAssembler.h   |  5 +----
 src/gsThinShellAssembler.hpp | 19 ++++---------------
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 0e8915e..a8f8715 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -398,8 +398,7 @@ public:
     const gsSparseMatrix<T> & matrix()      const   {return m_assembler.matrix();}
     gsSparseMatrix<T> & massMatrix() {return m_mass;}
 
-    const gsMatrix<T>       & rhs()         const {return m_rhs.size()==0 ? m_assembler.rhs() : m_rhs;}
-    // const gsMatrix<T>       & rhs()     const {return m_assembler.rhs();}
+    const gsMatrix<T>       & rhs()         const {return m_assembler.rhs();}
 
     //--------------------- INTERFACE HANDLING -----------------------------//
     void addStrongC0(const gsBoxTopology::ifContainer & interfaces);
@@ -686,8 +685,6 @@ protected:
 
     mutable gsMatrix<T> m_solvector;
 
-    gsMatrix<T> m_rhs;
-
     mutable gsOptionList m_options;
 
     // foundation is off by default
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8c49194..43bd375 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -117,7 +117,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_pLoads=other.m_pLoads;
         m_pMass=other.m_pMass;
         m_solvector=other.m_solvector;
-        m_rhs=other.m_rhs;
         m_options=other.m_options;
         m_foundInd=other.m_foundInd;
         m_pressInd=other.m_pressInd;
@@ -170,7 +169,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_pLoads=give(other.m_pLoads);
     m_pMass=give(other.m_pMass);
     m_solvector=give(other.m_solvector);
-    m_rhs=give(other.m_rhs);
     m_options=give(other.m_options);
     m_foundInd=give(other.m_foundInd);
     m_pressInd=give(other.m_pressInd);
@@ -1331,6 +1329,9 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
     space       m_space = m_assembler.trialSpace(0);
     m_mapper = m_space.mapper();
 
+    // The loads are added to the assembled right-hand side
+    gsMatrix<T> & rhs = const_cast<gsMatrix<T> &>(m_assembler.rhs());
+
     for (size_t i = 0; i< m_pLoads.numLoads(); ++i )
     {
         GISMO_ASSERT(m_pLoads[i].value.size()==d,"Point load has wrong dimension "<<m_pLoads[i].value.size()<<" instead of "<<d<<"\n");
@@ -1379,7 +1380,7 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
                     if (m_mapper.is_free_index(globalActs(k,0)))
-                        m_rhs(globalActs(k,0), 0) += bVals(k,0) * m_pLoads[i].value[j];
+                        rhs(globalActs(k,0), 0) += bVals(k,0) * m_pLoads[i].value[j];
                 }
             }
         }
@@ -1613,10 +1614,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -1689,10 +1687,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2051,10 +2046,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2121,10 +2113,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
 
         m_status = ThinShellAssemblerStatus::Success;
     }
-- 
2.43.0


From 961ebd970f4753bcb2971f9f751fb472e0093b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 47/75] fix: linear assembly after a homogenised assembly
 dropped the prescribed displacements

---
 src/gsThinShellAssembler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 43bd375..3ac0102 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1553,6 +1553,9 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(defpatches);
 
+    // Impose the prescribed displacements (another assembly may have homogenized them)
+    this->_assembleDirichlet();
+
     // Initialize stystem
     m_assembler.initSystem();
     m_assembler.initVector(1);
@@ -1641,6 +1644,9 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(defpatches);
 
+    // Impose the prescribed displacements (another assembly may have homogenized them)
+    this->_assembleDirichlet();
+
     // Initialize stystem
     m_assembler.initSystem();
 
-- 
2.43.0


From 07e081a8797b2843b795245b8241a9f1176cd996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:11 +0000
Subject: [PATCH 48/75] fix: options changed through options() were ignored by
 the nonlinear and mass assembly

---
 src/gsThinShellAssembler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 3ac0102..b36ae13 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1438,6 +1438,8 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const bool lumped)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1498,6 +1500,8 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundation()
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1716,6 +1720,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T> & deformed)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1796,6 +1802,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<!(_d==3 && _bending), ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T> & deformed)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1868,6 +1876,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T> & deformed, const gsFunctionSet<T> & previous, gsMatrix<T> & update)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1993,6 +2003,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T> & deformed, const bool homogenize)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -2069,6 +2081,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<!(_d==3 && _bending), ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T> & deformed, const bool homogenize)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
-- 
2.43.0


From e94bd74cc3e015964cd14579a6e721762a8ec281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:11 +0000
Subject: [PATCH 49/75] fix: mass assembly did not set the status

---
 src/gsThinShellAssembler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index b36ae13..8f96213 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1469,6 +1469,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
 
         m_mass = m_assembler.matrix();
+        m_status = ThinShellAssemblerStatus::Success;
 
 /*        // assemble system
         if (!lumped)
-- 
2.43.0


From 61116983a9cd1124360f62ea59feff0399cb85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:38 +0000
Subject: [PATCH 50/75] fix: lumped mass matrix could not be assembled

---
 src/gsThinShellAssembler.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8f96213..20120bd 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1464,11 +1464,21 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     {
         // assemble system
         if (!lumped)
+        {
             m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
+            m_mass = m_assembler.matrix();
+        }
         else
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-
-        m_mass = m_assembler.matrix();
+        {
+            // The basis is a partition of unity, hence the row sums are the integrals of the basis functions
+            gsConstantFunction<T> onesFun(gsVector<T>::Ones(d),2);
+            auto ones = m_assembler.getCoeff(onesFun);
+            m_assembler.assemble(mm0.val()*m_space*ones*meas(m_ori));
+            m_mass.resize(m_assembler.numDofs(),m_assembler.numDofs());
+            for (index_t i=0; i!=m_mass.rows(); i++)
+                m_mass.insert(i,i) = m_assembler.rhs()(i,0);
+            m_mass.makeCompressed();
+        }
         m_status = ThinShellAssemblerStatus::Success;
 
 /*        // assemble system
-- 
2.43.0


From 55beaf2095cf14dcfb03571862ffcd58e98fe01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 51/75] fix: mass and postprocessing evaluated materials on the
 undeformed geometry stored by another assembler

---
 src/gsThinShellAssembler.hpp | 10 +++++-----
 src/gsThinShellFunctions.hpp | 34 +++++++++++++++++-----------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 20120bd..9a58f5e 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1449,7 +1449,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     // Initialize stystem
     m_assembler.initSystem();
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches,&m_patches);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     space       m_space = m_assembler.trialSpace(0);
@@ -2574,8 +2574,8 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
     auto S1  = m_assembler.getCoeff(m_S1);
     auto u   = m_def - m_ori;
@@ -2778,7 +2778,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStretches(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
@@ -2808,7 +2808,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStresses(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index bcaae2f..c0381a0 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -37,47 +37,47 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     // Initialize stystem
     // m_assembler.initSystem(false);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_patches,m_defpatches);
     variable N0 = ev.getVariable(m_N0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_patches,m_defpatches);
     variable N1 = ev.getVariable(m_N1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_patches,m_defpatches);
     variable Nc0 = ev.getVariable(m_Nc0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_patches,m_defpatches);
     variable Nc1 = ev.getVariable(m_Nc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_patches,m_defpatches,z);
     variable S0 = ev.getVariable(m_S0);
-    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_patches,m_defpatches,z);
     variable S1 = ev.getVariable(m_S1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc0 = ev.getVariable(m_Sc0);
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc1 = ev.getVariable(m_Sc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp = ev.getVariable(m_Sp);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_patches,m_defpatches,z);
     variable pstressdir = ev.getVariable(m_pstressdir);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp0 = ev.getVariable(m_Sp0);
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp1 = ev.getVariable(m_Sp1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep1 = ev.getVariable(m_Ep1);
 
-    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambda = ev.getVariable(m_lambda);
-    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
     gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-- 
2.43.0


From 8908e772c2390c901e2d7b5d46f76bd5d45dc904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 52/75] fix: goal functionals and error estimates evaluated
 materials on the undeformed geometry stored by another assembler

---
 src/gsThinShellAssemblerDWR.hpp | 182 ++++++++++++++++----------------
 1 file changed, 91 insertions(+), 91 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 0ad5d93..b6fc918 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -224,40 +224,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -681,40 +681,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1146,40 +1146,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1833,8 +1833,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -1942,7 +1942,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2146,8 +2146,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -2254,7 +2254,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2416,26 +2416,26 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     // gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
@@ -2671,18 +2671,18 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA    = exprAssembler.getCoeff(mmAf);
     auto mmB    = exprAssembler.getCoeff(mmBf);
     auto mmC    = exprAssembler.getCoeff(mmCf);
     auto mmD    = exprAssembler.getCoeff(mmDf);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
     auto rho  = exprAssembler.getCoeff(rhof);
@@ -2763,18 +2763,18 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
@@ -2790,7 +2790,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -2987,18 +2987,18 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
@@ -3014,7 +3014,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -3211,24 +3211,24 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     // Material tensors
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0 = exprAssembler.getCoeff(P0f);
 
     // // Helper matrix for flexural components
@@ -3540,7 +3540,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches); // note: is this right?
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches); // note: is this right?
     auto rho = exprAssembler.getCoeff(rhof);
 
     auto usol = exprAssembler.getCoeff(primal);
@@ -3569,26 +3569,26 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&defpatches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&defpatches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
-- 
2.43.0


From 4c03844ed4407087624fd5eeca695e457a91cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 53/75] fix: stresses of planar problems could not be evaluated

---
 src/gsThinShellFunctions.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index c0381a0..65e2fb1 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -90,7 +90,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     auto Ttilde_def = cartcov(m_def);
     // auto Tmat   = cartcov(m_def);
     auto E_m    = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()* jac(m_ori)) ) * reshape(m_m12,3,3) * That.tr();
-    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
 
     auto N_m    = N0.tr() * Ttilde.tr();
     auto N_f    = N1.tr() * Ttilde.tr();
@@ -189,9 +188,13 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
                 result.col(k) = ev.eval(E_m.tr(),u.col(k),m_patchID);
             break;
         case stress_type::flexural_strain :
+        {
+            // The surface normal is defined on surfaces in 3D only
+            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(E_f.tr(),u.col(k),m_patchID);
             break;
+        }
         case stress_type::principal_membrane_strain:
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(Ep0,u.col(k),m_patchID);
-- 
2.43.0


From 65f8a4560740319dc64c782e4879945b695a41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:57 +0000
Subject: [PATCH 54/75] fix: full solution vector of multi-patch shells had
 overwritten and uninitialised entries

---
 src/gsThinShellAssembler.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 9a58f5e..730480a 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2713,13 +2713,21 @@ gsMultiPatch<T> gsThinShellAssembler<d, T, bending>::constructDisplacement(const
 template<short_t d, class T, bool bending>
 gsMatrix<T> gsThinShellAssembler<d, T, bending>::fullSolutionVector(const gsMatrix<T> & vector) const
 {
-    gsMatrix<T> solVector = vector;
     space m_space = m_assembler.trialSpace(0);
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
-    solution m_solution = m_assembler.getSolution(m_space, solVector);
-    gsMatrix<T> result;
-    m_solution.extractFull(result);
-    return result.col(0);
+    const gsDofMapper & mapper = m_space.mapper();
+
+    // All coefficients (also the eliminated ones), component by component and patch by patch
+    gsMatrix<T> result(mapper.mapSize(),1);
+    index_t row = 0;
+    for (index_t c = 0; c!=m_space.dim(); c++)
+        for (size_t p = 0; p!=mapper.numPatches(); p++)
+            for (size_t i = 0; i!=mapper.patchSize(p,c); i++)
+            {
+                const index_t ii = mapper.index(i,p,c);
+                result(row++,0) = mapper.is_free_index(ii) ? vector.at(ii) : m_space.fixedPart().at(mapper.global_to_bindex(ii));
+            }
+    return result;
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From 85703d09c08319412b10170ef5e4e68ee0e7d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:52 +0000
Subject: [PATCH 55/75] fix: point masses were ignored in the mass matrix

---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 59 +++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index a8f8715..327403a 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -526,7 +526,7 @@ protected:
     void _assembleDirichlet();
 
     void _applyLoads();
-    void _applyMass();
+    void _applyMass(const bool lumped = false);
 
     void _ifcTest(const T tol = 1e-2);
     bool _isInPlane(const boundaryInterface & ifc, const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 730480a..50dc7ef 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1388,7 +1388,7 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
 }
 
 template<short_t d, class T, bool bending>
-void gsThinShellAssembler<d, T, bending>::_applyMass()
+void gsThinShellAssembler<d, T, bending>::_applyMass(const bool lumped)
 {
     gsMatrix<T>        bVals;
     gsMatrix<index_t> acts,globalActs;
@@ -1402,21 +1402,27 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
     {
         GISMO_ASSERT(m_pMass[i].value.size()==1,"Mass should be one-dimensional");
 
-        // Compute actives and values of basis functions on point load location.
+        // Compute actives and values of basis functions on the location of the point mass.
+        gsMatrix<T> massPoint;
         if ( m_pMass[i].parametric )   // in parametric space
+            massPoint = m_pMass[i].point;
+        else                            // in physical space
+            m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,massPoint);
+
+        if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
         {
-            m_basis.front().basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            mbasis->active_into(m_pMass[i].patch,massPoint, acts );
+            mbasis->eval_into  (m_pMass[i].patch,massPoint, bVals );
         }
-        else                            // in physical space
+        else if (const gsMultiBasis<T> * mbasis = dynamic_cast<const gsMultiBasis<T> * >(m_spaceBasis))
         {
-            gsMatrix<T> forcePoint;
-            m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.front().basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            mbasis->basis(m_pMass[i].patch).active_into( massPoint, acts);
+            mbasis->basis(m_pMass[i].patch).eval_into  ( massPoint, bVals);
         }
+        else
+            GISMO_ERROR("Basis type not understood");
 
-        // Add the point load values in the right entries in the global RHS
+        // Add the point masses in the right entries of the mass matrix
         for (size_t j = 0; j< d; ++j)
         {
             if (m_pMass[i].value[0] != 0.0)
@@ -1424,15 +1430,19 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
                 m_mapper.localToGlobal(acts, m_pMass[i].patch, globalActs,j);
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
-                    for (index_t l=0; l < globalActs.rows(); ++l)
-                    {
-                        if (m_mapper.is_free_index(globalActs(k,0)) && m_mapper.is_free_index(globalActs(l,0)))
-                            m_mass(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
-                    }
+                    if (!m_mapper.is_free_index(globalActs(k,0)))
+                        continue;
+                    if (lumped) // row sum
+                        m_mass.coeffRef(globalActs(k,0), globalActs(k,0)) += bVals(k,0) * m_pMass[i].value[0];
+                    else
+                        for (index_t l=0; l < globalActs.rows(); ++l)
+                            if (m_mapper.is_free_index(globalActs(l,0)))
+                                m_mass.coeffRef(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
                 }
             }
         }
     }
+    m_mass.makeCompressed();
 }
 
 template<short_t d, class T, bool bending>
@@ -1479,25 +1489,10 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
                 m_mass.insert(i,i) = m_assembler.rhs()(i,0);
             m_mass.makeCompressed();
         }
+        if ( m_pMass.numLoads() != 0 )
+            this->_applyMass(lumped);
         m_status = ThinShellAssemblerStatus::Success;
 
-/*        // assemble system
-        if (!lumped)
-        {
-            m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
-            m_mass = m_assembler.matrix();
-            this->_applyMass();
-        }
-        else
-        {
-            // To do: add point masses in lumped case
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-            m_rhs = m_assembler.rhs();
-        }
-        m_mass = m_assembler.matrix();
-
-        this->_applyMass();
-        m_status = ThinShellAssemblerStatus::Success;*/
     }
     catch (...)
     {
-- 
2.43.0


From 7aa59f11bafcdfd64cb98e8db97eb7d11e90b1e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 56/75] fix: principal stress fields of every patch were
 evaluated on the first patch

---
 src/gsThinShellFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 65e2fb1..9731611 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -209,7 +209,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
             break;
         case stress_type::principal_stress :
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Sp,u.col(k));
+                result.col(k) = ev.eval(Sp,u.col(k),m_patchID);
             break;
         case stress_type::principal_stress_membrane :
             for (index_t k = 0; k != u.cols(); ++k)
@@ -243,21 +243,21 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::principal_stress_dir1 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(0);
             }
             break;
         case stress_type::principal_stress_dir2 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(1);
             }
             break;
         case stress_type::principal_stress_dir3 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(2);
             }
             break;
-- 
2.43.0


From a18571d40c61032dcd80f1d426c39c00d048010a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 57/75] fix: flexural strain field was wrong on non-orthogonal
 parametrisations

The engineering factor of the shear component has to be applied after the
transformation to the local Cartesian basis.
---
 src/gsThinShellFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 9731611..fd192a9 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -190,7 +190,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::flexural_strain :
         {
             // The surface normal is defined on surfaces in 3D only
-            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
+            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr() * reshape(m_m2,3,3);
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(E_f.tr(),u.col(k),m_patchID);
             break;
-- 
2.43.0


From 82b94a764fe353f6cccf703a86ad42401be695b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 58/75] fix: principal flexural strain field returned the
 membrane strain

---
 src/gsThinShellFunctions.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index fd192a9..f8909d3 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -69,8 +69,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
 
     gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
-    variable Ep1 = ev.getVariable(m_Ep1);
 
     gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
@@ -200,9 +198,19 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
                 result.col(k) = ev.eval(Ep0,u.col(k),m_patchID);
             break;
         case stress_type::principal_flexural_strain :
+        {
+            // Eigenvalues of the bending strain in the local Cartesian basis; no contribution in the normal direction
+            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
+            gsMatrix<T> Ef(2,2);
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Ep1,u.col(k),m_patchID);
+            {
+                tmp = ev.eval(E_f.tr(),u.col(k),m_patchID);
+                Ef<<tmp(0,0),tmp(2,0),tmp(2,0),tmp(1,0);
+                gsEigen::SelfAdjointEigenSolver< typename gsMatrix<T>::Base > eigSolver(Ef);
+                result.col(k).head(2) = eigSolver.eigenvalues();
+            }
             break;
+        }
         case stress_type::principal_stretch :
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(lambda,u.col(k),m_patchID);
-- 
2.43.0


From b8bf69cdf9f410be57500a0ed0dc2e4e1eb44261 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 59/75] fix: displacement field of planar problems could not be
 evaluated

---
 src/gsThinShellFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.h b/src/gsThinShellFunctions.h
index 5589852..69ad7be 100644
--- a/src/gsThinShellFunctions.h
+++ b/src/gsThinShellFunctions.h
@@ -121,7 +121,7 @@ public:
                 return 0;
                 break;
             case stress_type::displacement :
-                return 3;
+                return m_patches->targetDim();
                 break;
 
             case stress_type::membrane :
-- 
2.43.0


From e588737f37a171847f9ca43417b5c65e7105e12b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 60/75] fix: boundary forces ignored the quadrature options of
 the assembler

---
 src/gsThinShellAssembler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 50dc7ef..ca0f554 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2333,6 +2333,8 @@ gsThinShellAssembler<d, T, bending>::boundaryForce_impl(const gsFunctionSet<T> &
 {
     gsExprAssembler<T> assembler;
     assembler.setIntegrationElements(m_basis);
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    assembler.setOptions(m_options.getGroup("ExprAssembler"));
     space u = assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
 
     gsBoundaryConditions<T> bc;
@@ -2407,6 +2409,8 @@ gsThinShellAssembler<d, T, bending>::boundaryForce_impl(const gsFunctionSet<T> &
 {
     gsExprAssembler<T> assembler;
     assembler.setIntegrationElements(m_basis);
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    assembler.setOptions(m_options.getGroup("ExprAssembler"));
     space u = assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
 
     gsBoundaryConditions<T> bc;
-- 
2.43.0


From 46554c3da0088f91dd2e51a4fdc7f049d5a0b637 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 61/75] fix: normal vector error of interfaces compared
 unscaled normals

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index ca0f554..26ef79b 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2625,7 +2625,7 @@ T gsThinShellAssembler<d, T, bending>::interfaceErrorNormal(const gsFunctionSet<
 {
     geometryMap G = m_assembler.getMap(deformed);
     gsExprEvaluator<T> ev(m_assembler);
-    ev.maxInterface( (sn(G.left())-sn(G.right())).norm() , iFaces);
+    ev.maxInterface( (sn(G.left()).normalized()-sn(G.right()).normalized()).norm() , iFaces);
     return ev.value();
 }
 
-- 
2.43.0


From 3d3a78129176d3287ec05d9814a8f12f02fc6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 62/75] fix: boundary dual of the flexural strain goal counted
 the shear twice

---
 src/gsThinShellAssemblerDWR.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index b6fc918..cf0cf7d 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1001,9 +1001,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     {
         if (m_component==9)
         {
-            gsFunctionExpr<T> mult110t("1","0","0","0","1","0","0","0","0",2);
-            auto m110 = exprAssembler.getCoeff(mult2t);
-            auto expr = 2*Ef_der * reshape(m110,3,3) *  Ef.tr() * meas(Gori);
+            auto expr = 2 * Ef_der * Ef.tr() * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
-- 
2.43.0


From 5fdcef9f89556d0d6125b09728c7bda42cb3bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 63/75] fix: dual of a membrane force component used the force
 instead of its variation

---
 src/gsThinShellAssemblerDWR.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index cf0cf7d..dffe796 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -983,7 +983,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
@@ -1457,7 +1457,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         else
         {
             // remove N_der from this scipe
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From ade3883b4d06025ac1009160343dba93482f0d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 64/75] fix: point-wise dual of the principal stress goal had
 mismatching sizes

---
 src/gsThinShellAssemblerDWR.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index dffe796..c838e69 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1333,9 +1333,15 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     }
     else if (m_goalFunction == GoalFunction::PStress)
     {
+        // to convert P0 from a vector of length 2 to 3, this matrix is [[1,0],[0,1],[0,0]]
+        gsMatrix<T> convMat(3,2);
+        convMat.setZero();
+        convMat(0,0) = convMat(1,1) = 1;
+        gsConstantFunction<T> convFun(convMat.reshape(6,1),2);
+        auto conv = exprAssembler.getCoeff(convFun);
         if (m_component==9)
         {
-            auto expr = 2 * Smp_der * P0 * meas(Gori);
+            auto expr = 2 * Smp_der * reshape(conv,3,2) * P0 * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From a35adf0cff1442337284444f9b4a4d0bc649d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 65/75] fix: dual loads ignored the continuity option of the
 assembler

---
 src/gsThinShellAssemblerDWR.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index c838e69..cfae519 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -218,7 +218,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -675,7 +675,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -1138,7 +1138,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
-- 
2.43.0


From d0f420fbfd7515771d481a77ac7c9bdc834fba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 66/75] fix: point-wise stretch goal returned a displacement
 component

---
 src/gsThinShellAssemblerDWR.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index cfae519..c3985f8 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3247,7 +3247,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     auto Cm      = flat( jac(Gdef).tr() * jac(Gdef) ) * reshape(m12,3,3);
 
     // Principal stretch
-    auto lambda  = reshape(Tstretch,3,3).tr() * Cm.tr();
+    auto lambda  = reshape(Tstretch,3,3) * Cm.tr();
 
     // Membrane strain
     auto Em     = 0.5 * ( flat(jac(Gdef).tr()*jac(Gdef)) - flat(jac(Gori).tr()* jac(Gori)) ) ;
@@ -3311,7 +3311,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = lambda.tr() * gismo::expr::uv(m_component,3)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From ecd3c1011ae360e5946b18d7d69deb2dfd73ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 67/75] fix: DWR mass assembly stored the stiffness matrix

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index c3985f8..e6d32f7 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -67,7 +67,7 @@ template <short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleMass(gsThinShellAssemblerBase<T> * assembler, gsSparseMatrix<T> & result, bool lumped)
 {
     ThinShellAssemblerStatus status =  assembler->assembleMass(lumped);
-    result = assembler->matrix();
+    result = assembler->massMatrix();
     GISMO_ENSURE(status==ThinShellAssemblerStatus::Success,"Assembly failed");
     return status;
 }
-- 
2.43.0


From 38af56e19ec770f1ffea83fc2958b36ef847ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 68/75] fix: dual loads kept the old boundary conditions after
 updateBCs

---
 src/gsThinShellAssemblerDWR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index 6e7b4a2..b9eed77 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -109,7 +109,7 @@ public:
     void setPressure(const gsFunction<T> & pressure) { m_assemblerL->setPressure(pressure);  m_assemblerH->setPressure(pressure); }
 
     /// See \ref gsThinShellAssemblerBase for details
-    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
+    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_bcs = bconditions; m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
 
     /// See \ref gsThinShellAssemblerBase for details
     void setBasisL(const gsMultiBasis<T> & basis) { m_assemblerL->setBasis(basis); }
-- 
2.43.0


From 9a66e075977bc5223cdfbaf5ac6d11864a734b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 69/75] fix: second variation of the normal and the signs of
 the buckling estimates

---
 src/gsThinShellAssemblerDWR.hpp | 16 ++++++++--------
 src/gsThinShellUtils.h          | 13 +++----------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index e6d32f7..938ce95 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2484,9 +2484,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsolH) - jac(zsolL) ) ) ;
 
     auto M_L        = S1.tr(); // output is a column
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_L  = -(
-                         deriv2(zsolH, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolH, Gori) )
+                         deriv2(zsolH, sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsolH, Gori) )
                         -deriv2(zsolL, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolL, Gori) )
                        ) * reshape(m2, 3, 3);
 
@@ -2506,9 +2506,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Emd_der2   = flat( jac(usol).tr() * ( jac(zsolH) - jac(zsolL) ) ) * N_NL.tr();
 
     auto M_NL       = S1.tr(); // output is a column
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_NL = -(
-                         deriv2(zsolH, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolH, Gdef) )
+                         deriv2(zsolH, sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsolH, Gdef) )
                         -deriv2(zsolL, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolL, Gdef) )
                        ) * reshape(m2, 3, 3);
 
@@ -3603,10 +3603,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     auto zsol = exprAssembler.getCoeff(other);
 
     auto Em_der_L   = flat(  jac(Gori).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
 
 
     auto N_der_L     = Em_derd_L * reshape(mmA_L,3,3) + Ef_derd_L * reshape(mmB_L,3,3);
@@ -3614,10 +3614,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
 
     auto N_NL       = S0.tr();
     auto Em_der_NL  = flat(  jac(Gdef).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_NL = flat(  jac(Gdef).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_der2    = flat( jac(usol).tr() * ( jac(zsol )               ) ) * N_NL.tr();
 
diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 7e4985c..a29c4a4 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -606,20 +606,14 @@ private:
         n_der.noalias() = (m_v - ( normal*m_v.transpose() ) * normal); // outer-product version
 
         m_uv.noalias() = ( ( uGrads.col(0).template head<3>() ).cross( vGrads.col(1).template head<3>() )
-                         - ( vGrads.col(1).template head<3>() ).cross( uGrads.col(0).template head<3>() ) )
+                         + ( vGrads.col(0).template head<3>() ).cross( uGrads.col(1).template head<3>() ) )
                         / measure;
 
         m_u_der.noalias() = (m_uv - ( normal.dot(m_v) ) * m_u);
         // m_u_der.noalias() = (m_uv - ( normal*m_v.transpose() ) * m_u); // outer-product version TODO
 
         // ---------------  Second variation of the normal
-        tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
-        // tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
-
-        // Evaluate the product
-        tmp = cDer2 * tmp; // E_f_der2, last component
-        tmp.row(2) *= 2.0;
-        res = tmp;
+        res = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
         return res;
     }
 
@@ -1499,7 +1493,6 @@ public:
         typename util::enable_if< util::is_same<U,gsFeVariable<Scalar> >::value, const gsMatrix<Scalar> & >::type
         eval_impl(const U & u, const index_t k)  const
         {
-            GISMO_UNUSED(k); //should this use k??
             /*
                 Here, we compute the hessian of the geometry map.
                 The hessian of the geometry map c has the form: hess(c)
@@ -1510,7 +1503,7 @@ public:
                 The geometry map has components c=[c1,c2,c3]
             */
             // evaluate the geometry map of U
-            tmp = u.data().values[2];
+            tmp = u.data().values[2].col(k);
             res.resize(rows(),cols());
             for (index_t comp = 0; comp != u.source().targetDim(); comp++)
                 res.col(comp) = tmp.block(comp*rows(),0,rows(),1); //star,length
-- 
2.43.0


From e1999c1ce4f5961e837ea3957ac47771a96e79cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 70/75] fix: element-wise point loads were counted on every
 patch and repeatedly

---
 src/gsThinShellAssemblerDWR.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 938ce95..5846f9f 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3701,7 +3701,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                 for (; domIt<domItEnd; ++domIt )
 #               endif
                 {
-                    bool test = !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
+                    bool test = (index_t)patchInd == (index_t)m_pLoads[i].patch &&
+                                !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
                                     (domIt.upperCorner() - forcePoint).array() >= 0)   ).array() == 0).any();
                     if (test)
                         elements_private.push_back(c);
@@ -3711,9 +3712,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                                     c++;
                     #endif
                 }
-#pragma omp critical
-                elements.insert(elements.end(), elements_private.begin(), elements_private.end());
             }
+#pragma omp critical
+            elements.insert(elements.end(), elements_private.begin(), elements_private.end());
         }
 
         // Compute load value on the point
-- 
2.43.0


From da93e3ea07ef7db2773c08424c5ab7a4645d0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 71/75] fix: calls of the DWR helper's computeError without
 filename were ambiguous

---
 src/gsThinShellDWRHelper.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/gsThinShellDWRHelper.h b/src/gsThinShellDWRHelper.h
index 13a3408..3d14830 100644
--- a/src/gsThinShellDWRHelper.h
+++ b/src/gsThinShellDWRHelper.h
@@ -49,13 +49,6 @@ public:
         this->computeError(deformed,primalL);
     }
 
-    void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false)
-    {
-        gsMatrix<T> points;
-        bContainer bnds;
-        this->computeError(deformed,primalL,bnds,points,true,withLoads);
-    }
-
     void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false,
                         std::string filename = std::string(), unsigned np=1000, bool parametric=false, bool mesh=false)
     {
-- 
2.43.0


From b8bb5cb6330f7655eff2e6d1ea4e1bff8d75f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 72/75] fix: copies of a sum of functions referred to the
 original

---
 src/gsFunctionSum.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gsFunctionSum.h b/src/gsFunctionSum.h
index 0f3f292..a0e2512 100644
--- a/src/gsFunctionSum.h
+++ b/src/gsFunctionSum.h
@@ -53,6 +53,17 @@ public:
         _init(m_functions);
     }
 
+    /// The pieces of the copy refer to the copy
+    gsFunctionSum(const gsFunctionSum & other)
+    :
+    gsFunctionSet<T>(other),
+    m_functions(other.m_functions),
+    m_size(other.m_size)
+    {
+        if (m_size!=0)
+            _init(m_functions);
+    }
+
     index_t nPieces() const {return m_functions[0]->nPieces();}
 
     short_t domainDim() const
-- 
2.43.0


From bcd0cab7bc0679a81fb7f50744cd652080464538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:25 +0000
Subject: [PATCH 73/75] fix: report a failed pressure/foundation vector
 assembly

---
 src/gsThinShellAssembler.hpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 26ef79b..6db80aa 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2278,31 +2278,13 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVector(const gsFunctionSet<T> & deformed)
 {
-    try
-    {
-        this->assemblePressureVector(*m_pressFun,deformed);
-        m_status = ThinShellAssemblerStatus::Success;
-    }
-    catch (...)
-    {
-        m_status = ThinShellAssemblerStatus::AssemblyError;
-    }
-    return m_status;
+    return this->assemblePressureVector(*m_pressFun,deformed);
 }
 
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundationVector(const gsFunctionSet<T> & deformed)
 {
-    try
-    {
-        this->assembleFoundationVector(*m_foundFun,deformed);
-        m_status = ThinShellAssemblerStatus::Success;
-    }
-    catch (...)
-    {
-        m_status = ThinShellAssemblerStatus::AssemblyError;
-    }
-    return m_status;
+    return this->assembleFoundationVector(*m_foundFun,deformed);
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From 5321c2ceee3b493d4bcc038a0012b37972a654e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:25 +0000
Subject: [PATCH 74/75] fix: make the root search for the wrinkling angle
 independent of the stress magnitude

The Newton iterations stop at an absolute residual, in units of stress. The
root does not depend on the magnitude of the stress: normalize it.
---
 src/gsMaterialMatrixTFT.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 1e270cd..1736506 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -469,7 +469,9 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval_theta(const gsMatrix<T> & Cs
                     E.resize(3,1);
 
         gsVector<T> theta_interval = _theta_interval(C, N, E);
-        objective<T> obj(C,N);
+        // The root does not depend on the magnitude of N, but the tolerances below do
+        const T Nnorm = N.norm();
+        objective<T> obj(C, Nnorm > 0 ? gsMatrix<T>(N/Nnorm) : N);
 
         gsVector<T> zeros(1); zeros<<0;
         gsVector<T> arg(1); //arg<<theta;
-- 
2.43.0


From fee1be37a67cddd3d3a3005e8c10479818a35a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:25 +0000
Subject: [PATCH 75/75] fix: differentiate the material tensor with respect to
 the normalized metric

The finite differences have an absolute step (1e-5): for small patches the
step exceeds the metric itself, which fails or gives a wrong derivative.
---
 src/gsMaterialMatrixNonlinear.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 4ecae00..cceb6f5 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -31,12 +31,13 @@ template <short_t d, typename T>
 class Cfun : public gsFunction<T>
 {
 public:
-    Cfun(const gsMaterialMatrixBase<T> * materialMat, index_t patch, const gsVector<T> & u, const T & z)
+    Cfun(const gsMaterialMatrixBase<T> * materialMat, index_t patch, const gsVector<T> & u, const T & z, const T & scale = 1)
     :
     m_materialMat(materialMat),
     m_patchID(patch),
     m_points(u),
-    m_z(z)
+    m_z(z),
+    m_scale(scale)
     {
 
     }
@@ -45,7 +46,8 @@ public:
     :
     m_materialMat(materialMat),
     m_patchID(patch),
-    m_points(u)
+    m_points(u),
+    m_scale(1)
     {
         m_z.resize(1,1);
         m_z.setZero();
@@ -57,7 +59,7 @@ public:
         gsMatrix<T> Ctmp;
         for (index_t k=0; k!=C.cols(); k++)
         {
-            Ctmp = C.col(k);
+            Ctmp = m_scale * C.col(k);
             Ctmp(2,0) *= 0.5;
             result.col(k) = m_materialMat->eval3D_matrix_C(Ctmp,m_patchID,m_points,m_z,MaterialOutput::MatrixA);
         }
@@ -78,6 +80,7 @@ private:
     mutable index_t m_patchID;
     mutable gsVector<T> m_points;
     mutable T m_z;
+    T m_scale;
 };
 
 namespace gismo
@@ -379,15 +382,17 @@ inline typename std::enable_if<!(!_comp && _mat==Material::NH), gsMatrix<T>>::ty
 gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::dCijkl_impl(const index_t patch, const gsVector<T> & u, const T z) const
 {
     gsMatrix<T> result;
-    Cfun<dim,T> Cfunc(this,patch,u,z);
     gsMatrix<T> Cvoight(3,1);
 
     Cvoight(0,0) = m_data.mine().m_Gcov_def(0,0);
     Cvoight(1,0) = m_data.mine().m_Gcov_def(1,1);
     Cvoight(2,0) = 2*m_data.mine().m_Gcov_def(0,1);
 
-    Cfunc.deriv_into(Cvoight,result);
-    return result;
+    // deriv_into uses finite differences with an absolute step, hence differentiate with respect to the normalized metric
+    const T scale = Cvoight(0,0) + Cvoight(1,0);
+    Cfun<dim,T> Cfunc(this,patch,u,z,scale);
+    Cfunc.deriv_into(Cvoight/scale,result);
+    return result/scale;
 }
 
 template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enum Implementation imp >
-- 
2.43.0

