From 08ee6a2812ba030105001546e365e2846c20c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 01/63] fix: radial damping in double precision used only one
 of the two products of each pair in (m*a)

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..712e52c 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From 0c5c88fc487f23669c0124895fca30967f8401c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 02/63] fix: V_QCD2 force has the same sign in every kernel,
 towards the minima of its potential

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 712e52c..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From aa32a6e85276ef14e697b5be71e682ba236d7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 03/63] fix: V_QCDC force in double precision takes (y*y, x*y)
 of every site

---
 include/utils/triSimd.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..91b3b1c 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -528,10 +528,12 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 //returns y^2, xy
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
-#if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+#if defined(__AVX512F__)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
+#elif defined(__AVX__)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b00000101), opCode(permute_pd, x, 0b00001111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0011));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From b3cf12a4f28d2b8299a73bbc77717f1636b0ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 04/63] fix: axion propagator refreshes the background before
 every stage

---
 include/propagator/propClass.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..3a017d7 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -530,6 +530,11 @@
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s+=2) {
+
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
@@ -561,9 +566,9 @@
 			/* Last kick */
 			LogMsg (VERB_PARANOID, "Warning: axion propagator not optimized yet for odd propagators, performance might be reduced");
 
-			const double	c0 = c[nStages], maa = axion->AxionMassSq();
+			const double	c0 = c[nStages];
 
-			ppar.massA  = axion->AxionMassSq();
+			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-- 
2.43.0


From 5e1ebd0b9be60b87cb15623eba36b3baace09d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 05/63] fix: propagators update every slice once when a rank
 has fewer than two ghost regions of slices

---
 include/propagator/propClass.h | 73 ++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 3a017d7..0af9883 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -2,6 +2,7 @@
 	#define	_PROPCLASS_
 
 	#include <cmath>
+	#include <algorithm>
 	#include <string>
 	#include <cstring>
 	#include <functional>
@@ -513,6 +514,8 @@
 		ppar.beta  = axion->BckGnd()->ICData().beta;
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* End of the front boundary region, which never overlaps the back one (V, V+BO) in thin slabs */
+		size_t BF = std::min(2*BO, V);
 
 		if (lastStage == PROP_FIRST) {
 			/* Last kick */
@@ -539,10 +542,9 @@
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BF, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-			if (V>BO)
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, BF, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d1;
 			axion->updateR();
@@ -552,10 +554,9 @@
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BF, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-			if (V>BO)
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , BF, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d2;
 			axion->updateR();
@@ -572,10 +573,9 @@
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., 2*BO, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BF, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-			if (V>BO)
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , BF, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 		}
 
@@ -662,6 +662,8 @@
 
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* End of the front boundary region, which never overlaps the back one (V, V+BO) in thin slabs */
+		size_t BF = std::min(2*BO, V);
 
 		auto *cD  = d;
 
@@ -688,10 +690,9 @@
 
 			const double	c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			if (V>BO)
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d1;
 			axion->updateR();
@@ -704,10 +705,9 @@
 			ppar.Rpp    = axion->Rpp();
 			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			if (V>BO)
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d2;
 			axion->updateR();
@@ -725,10 +725,9 @@
 			ppar.Rpp    = axion->Rpp();
 			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			if (V>BO)
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 		}
 
@@ -755,6 +754,8 @@
 
 
 		size_t BO = ppar.Ng*S;
+		/* End of the front boundary region, which never overlaps the back one (V, V+BO) in thin slabs */
+		size_t BF = std::min(2*BO, V);
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
@@ -768,9 +769,9 @@
 
 			const double c0 = c[s], d0 = d[s];
 
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , BF, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 			/*missing update M?*/
@@ -788,9 +789,9 @@
 
 			const double c0 = c[nStages];
 
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , BF, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
@@ -1024,6 +1025,8 @@
 		ppar.beta  = axion->BckGnd()->ICData().beta;
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* End of the front boundary region, which never overlaps the back one (V, V+BO) in thin slabs */
+		size_t BF = std::min(2*BO, V);
 		size_t CO = V-2*ppar.Ng*S;
 
 		LogMsg(VERB_PARANOID,"[propNax] Ng %d",ppar.Ng);
@@ -1038,9 +1041,9 @@
 			ppar.ct     = *axion->zV();
 			ppar.R      = *axion->RV();
 			ppar.massA  = axion->AxionMass();
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
@@ -1050,9 +1053,9 @@
 			ppar.ct     = *axion->zV();
 			ppar.R      = *axion->RV();
 			ppar.massA  = axion->AxionMass();
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d2;
 			axion->updateR();
@@ -1066,9 +1069,9 @@
 			ppar.ct     = *axion->zV();
 			ppar.R      = *axion->RV();
 			ppar.massA  = axion->AxionMass();
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
@@ -1093,6 +1096,8 @@
 
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* End of the front boundary region, which never overlaps the back one (V, V+BO) in thin slabs */
+		size_t BF = std::min(2*BO, V);
 
 		LogMsg(VERB_PARANOID,"[propPax] Ng %d ood2 %e beta %f PC %f %f %f ",ppar.Ng,ppar.ood2a,ppar.beta,ppar.PC[0],ppar.PC[1],ppar.PC[2]);
 
@@ -1122,9 +1127,9 @@
 			ppar.massA  = axion->AxionMass();
 			ppar.sign   = 1;
 			/*updates v(2) with m(1) lap data and NL function */
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 			axion->sendGhosts(FIELD_V, COMM_SDRV);
@@ -1134,9 +1139,9 @@
 			ppar.n      = axion->BckGnd()->DlogMARDlogct(ppar.ct);
 			ppar.massA  = axion->AxionMass();
 			ppar.sign   = -1;
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
@@ -1152,9 +1157,9 @@
 			ppar.n      = axion->BckGnd()->DlogMARDlogct(ppar.ct);
 			ppar.massA  = axion->AxionMass();
 			ppar.sign   = 1;
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , BF, precision, xBlock, yBlock, zBlock);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
-- 
2.43.0


From 74df0ba1936483fed55997170d4d47abb5d4de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 06/63] fix: lowmem saxion propagator moves the field, and
 lowmem saxions build no FFT plan on the field they lack

---
 include/propagator/propClass.h | 18 +++++++++++++++---
 lib/scalar/scalarField.cpp     |  3 ++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 0af9883..f39c00c 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -757,6 +757,16 @@
 		/* End of the front boundary region, which never overlaps the back one (V, V+BO) in thin slabs */
 		size_t BF = std::min(2*BO, V);
 
+		auto *cD  = d;
+
+		if (lastStage == PROP_FIRST) {
+			/* First drift no kick c = 0 */
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d[0], Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
+			*z += dz*d[0];
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
 
@@ -764,28 +774,30 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
-			const double c0 = c[s], d0 = d[s];
+			const double c0 = c[s], d0 = cD[s];
 
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BF, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , BF, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			ppar.lambda = axion->LambdaP();
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..04114d5 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -463,7 +463,8 @@ const std::complex<float> If(0.,1.);
 		AxionFFT::initFFT(prec);
 
 		/* For spectra, reducer, genConf */
-		AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
+		if (m2 != nullptr)	// it works in m2, which lowmem saxions do not have
+			AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
 
 		if (fieldType == FIELD_SAXION) {
 			if (!lowmem) {
-- 
2.43.0


From ab948ceb5c21e6df02885de869a07ddad529a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 07/63] fix: Saskia(ct) gives the shift at ct, not at the
 current time

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 04114d5..ce5162c 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1487,13 +1487,13 @@ double  Scalar::Saskia  (const double ct)
 
 		case    V_QCD1:
 			if 			((pot & V_PQ) & (V_PQ1 | V_PQ3)){
-				double sh = SaxionShift();
+				double sh = SaxionShift(ct);
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ1 %e",sh);
 				return sh;
 			}
 			else if ((pot & V_PQ) == V_PQ2)
 			{
-				double sh = rsvPQ2(AxionMassSq()/bckgnd->LambdaP (*z));
+				double sh = rsvPQ2(AxionMassSq(ct)/bckgnd->LambdaP (ct));
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ2 %e",sh);
 				return sh ;
 			}
-- 
2.43.0


From d132fd5fc0de59561959d8ce529dc70bf64d5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 08/63] fix: block-size tuner ends for lattices with fewer than
 four vector rows

---
 include/utils/tunable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/tunable.h b/include/utils/tunable.h
index 5bef5df..364ffa5 100644
--- a/include/utils/tunable.h
+++ b/include/utils/tunable.h
@@ -94,7 +94,7 @@
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
 				} else {
-					yBlock = 3;
+					yBlock = (ySize > 3) ? 3 : 0;	// 0 only when no divisor lies beyond 3
 					do {
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
-- 
2.43.0


From 9ba444de613a10c103d55542c68b3dbcd55975f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 09/63] fix: non-relativistic kernels skip rows and slices
 outside their range, as the others do

---
 include/propagator/propNaxXeon.h | 4 ++--
 include/propagator/propPaxXeon.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 15093c8..241e6ba 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -138,7 +138,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -347,7 +347,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 
 			X[0] = xC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..988ab18 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -121,7 +121,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -324,7 +324,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
-- 
2.43.0


From de542f6a570a97481544cbd404626e268274ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 10/63] fix: self-interaction phase of the non-relativistic
 fields is finite for frw = 1/2

---
 include/propagator/propNaxXeon.h | 3 ++-
 include/propagator/propPaxXeon.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 241e6ba..0786715 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -69,7 +69,8 @@ inline	void	propagateNaxKernelXeon(const void * __restrict__ m_, void * __restri
 	// 	Kt = ct/(4.0*R*R)*log(1.0+dz*d/ct);
 	// }
 	const double u   = 2*ppar.frw - 1.0;
-	const double KKt = ct*beta*(pow(ct+dz*d,u)-pow(ct,u))/(4.0*R*R*u*pow(ct+dz*d,u));
+	const double KKt = (u != 0.) ? ct*beta*(pow(ct+dz*d,u)-pow(ct,u))/(4.0*R*R*u*pow(ct+dz*d,u)) :
+				       ct*beta*log(1.0+dz*d/ct)/(4.0*R*R);
 
 	if (precision == FIELD_DOUBLE)
 	{
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 988ab18..bf22072 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -45,7 +45,8 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 
 	const double beta = ppar.beta;
 	const double u    = 2.0*ppar.frw - 1.0;
-	const double KKt  = ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
+	const double KKt  = (u != 0.) ? ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u)) :
+				       ppar.sign*ppar.beta*ct*log(1.0+dz/ct)/(8.0*R*R);
 	LogMsg(VERB_PARANOID,"PPX ct  %e dz  %e FRW %f R %e u %f sign %d beta %f",ct,dz,ppar.frw,R,u,ppar.sign,ppar.beta);
 	LogMsg(VERB_PARANOID,"PPX KKt %e ");
 	/* integrate in time assuming powerlaw int d z/ m_A R */
-- 
2.43.0


From 6cbfcb1ce57c852d748d63ba36704db0923e5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 11/63] fix: a configuration keeps its expansion exponent when
 it is read back, unless one is given

---
 include/utils/parse.h      | 2 ++
 lib/io/readWrite.pHdf5.cpp | 3 +++
 lib/utils/parse.cpp        | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/include/utils/parse.h b/include/utils/parse.h
index bcfa1d5..953d43f 100644
--- a/include/utils/parse.h
+++ b/include/utils/parse.h
@@ -67,6 +67,8 @@ extern bool uPrec;
 //extern bool uPot;
 extern bool uZin;
 extern bool uZfn;
+extern bool uMI;
+extern bool uFR;
 extern bool aMod;
 extern bool spectral;
 extern bool fpectral;
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..0647421 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -864,6 +864,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
+			if (!uFR && !uMI)
+				myCosmos->SetFrw(fTmp);
+
 			if (myCosmos->Frw() != fTmp) {
 				LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
 				fTmp = myCosmos->Frw();
diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..b6b4236 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -772,6 +772,8 @@ int	parseArgs (int argc, char *argv[])
 
 			frw = atof(argv[i+1]);
 
+			uFR = true;
+
 			if (frw < 0.)
 			{
 				printf("Warning: Contracting Universe?\n");
-- 
2.43.0


From cc4adaeae013056ab17c5e33f9fa6e50cd24282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 12/63] fix: the radial potential of a saved configuration is
 recognised when it is read back

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 0647421..c8cedee 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1091,9 +1091,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if (!strcmp(vStr, "VPQ 2") || !strcmp(vStr, "VPQ2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if (!strcmp(vStr, "VPQ 3") || !strcmp(vStr, "VPQ3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From 3fa2249b5240dfdf7997c880b32e98d3e79d1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 13/63] fix: a configuration evolved in theta only stays so
 when it is read back

---
 lib/io/readWrite.pHdf5.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index c8cedee..3853962 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -429,8 +429,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
@@ -1136,6 +1137,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "Only Rho"))
 						vqcdType |= V_EVOL_RHO;
+					else if (!strcmp(vStr, "Only Theta"))
+						vqcdType |= V_EVOL_THETA;
 					else if (!strcmp(vStr, "Full"))
 						vqcdType |= V_NONE;
 					else {
-- 
2.43.0


From 2722510b3979b8ccef912bf52428472ef123add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 14/63] fix: attribute strings are read into buffers of their
 size

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 3853962..f9f39c4 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -763,7 +763,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1587,7 +1587,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -5362,7 +5362,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From e8d1dce99b53b2653433efa6bd46b6d6e9e7966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 15/63] fix: continuing a run with one part of the potential
 changed keeps the other parts of the file

---
 lib/utils/parse.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index b6b4236..19c650b 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -71,6 +71,7 @@ bool uLambda  = false;
 bool uMsa     = false;
 bool uI3      = false;
 bool uPot     = false;
+VqcdType uPotSet = V_NONE;	// the parts of the potential type chosen in the command line
 bool uGamma   = false;
 bool uGamExp  = false;
 bool uZth     = false;
@@ -944,6 +945,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--vqcdC"))
 		{
 			uPot = true;
+			uPotSet |= V_QCD;
 			vqcdType = V_QCDC ;
 			PARSE1;
 		}
@@ -951,6 +953,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--vqcdV"))
 		{
 			uPot = true;
+			uPotSet |= V_QCD;
 			vqcdType = V_QCDV ;
 			PARSE1;
 		}
@@ -958,6 +961,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--vqcdL"))
 		{
 			uPot = true;
+			uPotSet |= V_QCD;
 			vqcdType = V_QCDL ;
 			PARSE1;
 		}
@@ -965,6 +969,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--vqcd0"))
 		{
 			uPot = true;
+			uPotSet |= V_QCD;
 			vqcdType = V_QCD0 ;
 			indi3  = 0.0;
 			uI3    = true;
@@ -974,6 +979,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--N2"))
 		{
 			uPot = true;
+			uPotSet |= V_QCD;
 			vqcdType = V_QCD2 ;
 			PARSE1;
 		}
@@ -981,6 +987,7 @@ int	parseArgs (int argc, char *argv[])
     if (!strcmp(argv[i], "--vPQ1"))
 		{
 			uPot = true;
+			uPotSet |= V_PQ;
 			vpqType = V_PQ1 ;
 			PARSE1;
 		}
@@ -988,6 +995,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--vPQ2"))
 		{
 			uPot = true;
+			uPotSet |= V_PQ;
 			vpqType = V_PQ2 ;
 			PARSE1;
 		}
@@ -995,6 +1003,7 @@ int	parseArgs (int argc, char *argv[])
     if (!strcmp(argv[i], "--vPQ3"))
 		{
 			uPot = true;
+			uPotSet |= V_PQ;
 			vpqType = V_PQ3 ;
 			PARSE1;
 		}
@@ -1002,6 +1011,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--onlyrho"))
 		{
 			uPot = true;
+			uPotSet |= V_EVOL;
 			vqcdTypeEvol = V_EVOL_RHO;
 			PARSE1;
 		}
@@ -1009,6 +1019,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--onlytheta"))
 		{
 			uPot = true;
+			uPotSet |= V_EVOL;
 			vqcdTypeEvol = V_EVOL_THETA;
 			PARSE1;
 		}
@@ -1240,6 +1251,7 @@ int	parseArgs (int argc, char *argv[])
 			vqcdTypeDamp = V_DAMP_RHO ;
 
 			uPot  = true;
+			uPotSet |= V_DAMP;
 			uGamma = true;
 
 			if (gammo < 0.)
@@ -1263,6 +1275,7 @@ int	parseArgs (int argc, char *argv[])
 			vqcdTypeDamp = V_DAMP_RHO ;
 
 			uPot  = true;
+			uPotSet |= V_DAMP;
 			uGamExp = true;
 
 			if (dectime < 0.)
@@ -1287,6 +1300,7 @@ int	parseArgs (int argc, char *argv[])
 			vqcdTypeDamp = V_DAMP_ALL ;
 
 			uPot  = true;
+			uPotSet |= V_DAMP;
 			uGamma = true;
 
 			if (gammo < 0.)
@@ -2767,7 +2781,7 @@ Cosmos	createCosmos()
 			myCosmos.SetDecTime(dectime);
 
 		if (uPot)
-			myCosmos.SetQcdPot(vqcdType);
+			myCosmos.SetQcdPot(vqcdType & uPotSet);
 
 		if (uSize)
 			myCosmos.SetPhysSize(sizeL);
-- 
2.43.0


From 3c2585a03d1cbeb69289634d8677bdc6a59ef65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 16/63] fix: writing a field without velocity does not test a
 dataset that was never made

---
 lib/io/readWrite.pHdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index f9f39c4..40fc4f5 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -670,7 +670,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 	commSync();
 
-	if ((mset_id < 0) || (vset_id < 0))
+	if ((mset_id < 0) || ((axion->Field() != FIELD_NAXION) && (vset_id < 0)))
 	{
 		LogError ("Error creating datasets");
 		exit (0);
-- 
2.43.0


From 2cddc3c0c7b1518be6d42b36c60985e27ebdf736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 17/63] fix: low-memory saxion kernel honours phase-only and
 radius-only evolution as the other one does

---
 include/propagator/propXeon.h | 76 +++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index ca7cf02..05b1b5c 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -1118,6 +1118,9 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 		const _MData_ zNVec  = opCode(load_pd, zNAux);
 		const _MData_ zRVec  = opCode(load_pd, zRAux);
 
+		const double __attribute__((aligned(Align))) cjgAux[8] = { 1.,-1., 1.,-1., 1.,-1., 1.,-1. };
+		const _MData_ cjg    = opCode(load_pd, cjgAux);
+
 		const uint z0 = Vo/(Lx*Lx);
 		const uint zF = Vf/(Lx*Lx);
 		const uint zM = (zF-z0+bSizeZ-1)/bSizeZ;
@@ -1228,6 +1231,9 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 									( PQ-part
 										- R''p/R )
 			*/
+			if (VQcd & V_EVOL_THETA)
+				mMx = lap;
+			else
 			switch	(VQcd & V_PQ) {
 				case V_PQ1:
 					mMx = opCode(sub_pd, lap,
@@ -1266,6 +1272,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 				break;
 			}
 			/* mMx = mMx + VQCD part */
+			if ( !(VQcd & V_EVOL_RHO) )
 			switch	(VQcd & V_QCD) {
 				case V_QCD1:
 					mMx = opCode(add_pd, mMx, zQVec);
@@ -1290,6 +1297,37 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 
 			mPy = opCode(load_pd, &v[idxV0]);
 
+			if (VQcd & V_EVOL_THETA)
+			{
+#if	defined(__AVX__)// || defined(__AVX512F__)
+				//0.-(-mi mr)
+				lap = opCode(permute_pd, opCode(mul_pd, mel, cjg), 0b01010101);
+				//1.- (ar ai)*(-mi mr) = (-ar*mi ai*mr)
+				auto vecmv = opCode(mul_pd, mMx, lap);
+				//2.- (-ar*mi ai*mr, -ar*mi ai*mr)
+				auto vecma = opCode(add_pd, opCode(permute_pd, vecmv, 0b01010101), vecmv);
+				//3.- (vr vi)*(-mi mr) = (-vr*mi vi*mr)
+				vecmv = opCode(mul_pd, mPy, lap);
+				//4.- (-vr*mi vi*mr, -vr*mi vi*mr)
+				vecmv = opCode(add_pd, opCode(permute_pd, vecmv, 0b01010101), vecmv);
+#else
+				lap = opCode(mul_pd, mel, cjg);
+				lap = opCode(shuffle_pd, lap, lap, 0b00000001);
+				auto vecmv = opCode(mul_pd, mMx, lap);
+				auto vecma = opCode(add_pd, opCode(shuffle_pd, vecmv, vecmv, 0b00000001), vecmv);
+				vecmv = opCode(mul_pd, mPy, lap);
+				vecmv = opCode(add_pd, opCode(shuffle_pd, vecmv, vecmv, 0b00000001), vecmv);
+#endif
+				//5.- (-ar*mi ai*mr, -ar*mi ai*mr)*(-mi mr)/|m|^2 + R''/R (mr mi)
+				mMx   = opCode(add_pd,
+									opCode(div_pd, opCode(mul_pd, lap, vecma), mPx),
+										opCode(mul_pd, mel, opCode(set1_pd, Rpp)));
+				//6.- (-vr*mi vi*mr, -vr*mi vi*mr)*(-mi mr)/|m|^2 + R/R (mr mi)
+				mPy   = opCode(add_pd,
+									opCode(div_pd, opCode(mul_pd, lap, vecmv), mPx),
+										opCode(mul_pd, mel, opCode(set1_pd, Rp)));
+			}
+
 			switch	(VQcd & V_DAMP) {
 
 				default:
@@ -1445,6 +1483,9 @@ tmp = opCode(sub_pd,
 		const _MData_ zNVec  = opCode(load_ps, zNAux);
 		const _MData_ zRVec  = opCode(load_ps, zRAux);
 
+		const float __attribute__((aligned(Align))) cjgAux[16] = { 1.,-1., 1.,-1., 1.,-1., 1.,-1., 1.,-1., 1.,-1., 1.,-1., 1.,-1. };
+		const _MData_ cjg    = opCode(load_ps, cjgAux);
+
 		const uint z0 = Vo/(Lx*Lx);
 		const uint zF = Vf/(Lx*Lx);
 		const uint zM = (zF-z0+bSizeZ-1)/bSizeZ;
@@ -1562,6 +1603,9 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 									( PQ-part
 										- R''p/R )
 			*/
+			if (VQcd & V_EVOL_THETA)
+				mMx = lap;
+			else
 			switch	(VQcd & V_PQ) {
 				case V_PQ1:
 					mMx = opCode(sub_ps, lap,
@@ -1600,6 +1644,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 				break;
 			}
 			/* mMx = mMx + VQCD part */
+			if ( !(VQcd & V_EVOL_RHO) )
 			switch	(VQcd & V_QCD) {
 				case V_QCD1:
 					mMx = opCode(add_ps, mMx, zQVec);
@@ -1625,6 +1670,37 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 
 			mPy = opCode(load_ps, &v[idxV0]);
 
+			if (VQcd & V_EVOL_THETA)
+			{
+#if	defined(__AVX__)// || defined(__AVX512F__)
+				//0.-(-mi mr)
+				lap = opCode(permute_ps, opCode(mul_ps, mel, cjg), 0b10110001);
+				//1.- (ar ai)*(-mi mr) = (-ar*mi ai*mr)
+				auto vecmv = opCode(mul_ps, mMx, lap);
+				//2.- (-ar*mi ai*mr, -ar*mi ai*mr)
+				auto vecma = opCode(add_ps, opCode(permute_ps, vecmv, 0b10110001), vecmv);
+				//3.- (vr vi)*(-mi mr) = (-vr*mi vi*mr)
+				vecmv = opCode(mul_ps, mPy, lap);
+				//4.- (-vr*mi vi*mr, -vr*mi vi*mr)
+				vecmv = opCode(add_ps, opCode(permute_ps, vecmv, 0b10110001), vecmv);
+#else
+				lap = opCode(mul_ps, mel, cjg);
+				lap = opCode(shuffle_ps, lap, lap, 0b10110001);
+				auto vecmv = opCode(mul_ps, mMx, lap);
+				auto vecma = opCode(add_ps, opCode(shuffle_ps, vecmv, vecmv, 0b10110001), vecmv);
+				vecmv = opCode(mul_ps, mPy, lap);
+				vecmv = opCode(add_ps, opCode(shuffle_ps, vecmv, vecmv, 0b10110001), vecmv);
+#endif
+				//5.- (-ar*mi ai*mr, -ar*mi ai*mr)*(-mi mr)/|m|^2 + R''/R (mr mi)
+				mMx   = opCode(add_ps,
+									opCode(div_ps, opCode(mul_ps, lap, vecma), mPx),
+										opCode(mul_ps, mel, opCode(set1_ps, Rpp)));
+				//6.- (-vr*mi vi*mr, -vr*mi vi*mr)*(-mi mr)/|m|^2 + R/R (mr mi)
+				mPy   = opCode(add_ps,
+									opCode(div_ps, opCode(mul_ps, lap, vecmv), mPx),
+										opCode(mul_ps, mel, opCode(set1_ps, Rp)));
+			}
+
 			switch (VQcd & V_DAMP) {
 
 				default:
-- 
2.43.0


From 73d58e73ec1eba0b45256e594b0e5f2980005df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 18/63] fix: mendTheta shifts the velocity by 2 pi R' when it
 shifts R theta by 2 pi R (was 2 pi for every expansion)

---
 lib/scalar/mendThetaXeon.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 9f229fc..41694d5 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -36,7 +36,7 @@
 
 /* Uses m2 as aux field to store F and B on a line/line basis
 distribution is n-th thread nth 4 lines of m2 */
-inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
+inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
 {
 	size_t countF = 0;
 	size_t countB = 0;
@@ -80,7 +80,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_pd, +zP);
 		const _MData_ mVec  = opCode(set1_pd, -zP);
-		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI);
+		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -433,7 +433,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_ps, +zP);
 		const _MData_ mVec  = opCode(set1_ps, -zP);
-		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI);
+		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -825,7 +825,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 
 template<typename Float, const int step>
-inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t countF = 0;
@@ -905,11 +905,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDf > zP) {
 						mPy -= 2.*zP;
-						vPy -= 2.*M_PI;
+						vPy -= 2.*M_PI*Rp;
 						countF++;
 					} else if (mDf < zP) {
 						mPy += 2.*zP;
-						vPy += 2.*M_PI;
+						vPy += 2.*M_PI*Rp;
 						countF++;
 					}
 
@@ -926,11 +926,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDfB > zP) {
 						melB -= 2.*zP;
-						vPyB -= 2.*M_PI;
+						vPyB -= 2.*M_PI*Rp;
 						countB++;
 					} else if (mDfB < zP) {
 						melB += 2.*zP;
-						vPyB += 2.*M_PI;
+						vPyB += 2.*M_PI*Rp;
 						countB++;
 					}
 
@@ -997,7 +997,7 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 /* TODO iterate until a jumpless line is found */
 
 template<typename Float>
-inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const double Rp, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t count = 0;
@@ -1056,11 +1056,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 				while (abs(mDf) > zP) {
 					if (mDf > zP) {
 						mPz -= 2.*zP;
-						vPz -= 2.*M_PI;
+						vPz -= 2.*M_PI*Rp;
 						count++;
 					} else {
 						mPz += 2.*zP;
-						vPz += 2.*M_PI;
+						vPz += 2.*M_PI*Rp;
 						count++;
 					}
 
@@ -1081,30 +1081,31 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	dStep = Align/sizeof(double);
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
+	const double	Rp    = R*field->BckGnd()->Rp(*field->zV());	// v = d(R theta)/d ct jumps by 2 pi R'
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
 	switch (field->Precision()) {
 		case	FIELD_DOUBLE:
-		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		case	FIELD_SINGLE:
-		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		default:
-- 
2.43.0


From 069f5002e3cd9493d77e72bb002abd231af130cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 19/63] fix: theta2Cmplx uses R'/R of the actual expansion in
 the radial velocity (was 1/R)

---
 lib/scalar/theta2CmplxXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..b48d2e5 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
-- 
2.43.0


From 614665a9f046c650029aec308831790008c61767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 20/63] fix: thetaToPaxion adiabatic term M'/2M^2 with the
 conformal mass, at any R

---
 lib/scalar/theta2PaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalar/theta2PaxionXeon.cpp b/lib/scalar/theta2PaxionXeon.cpp
index e5c7b7b..3cb3369 100644
--- a/lib/scalar/theta2PaxionXeon.cpp
+++ b/lib/scalar/theta2PaxionXeon.cpp
@@ -23,7 +23,7 @@ void	th2PaxionXeon (Scalar *sField)
 
 		Float sqcms1 = (Float) sqrt(0.5*mA*(*sField->RV()));
 		Float sqcms2 = (Float) sqrt(2.0*mA*(*sField->RV()));
-		Float adiab  = (Float) (DmA2ct + 2*frw*mA2*R2/ct)/(4*mA2*mA) ;
+		Float adiab  = (Float) ((DmA2ct + 2*frw*mA2/ct)/(4*mA2*mA*(*sField->RV()))) ;	// M'/2M^2 of the conformal mass M = mA R
 		Float *cfield = static_cast<Float*> (sField->mStart());
 		Float *cveloc = static_cast<Float*> (sField->vCpu());
 		Float *faxion = static_cast<Float*> (sField->m2Cpu());
-- 
2.43.0


From 34e4236e8da3a5b29a9c32caadc2fadcf5b220ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 21/63] fix: scaleField scales the points of the requested
 field only (no overflow of v, real fields not scaled as complex)

---
 lib/scalar/scaleXeon.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..26e450f 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -7,21 +7,26 @@ using namespace std;
 
 void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 {
+	/* real numbers per point */
+	const size_t comps = sField->DataSize()/sField->Precision();
+
 	switch (sField->Precision())
 	{
 		case FIELD_DOUBLE:
 		{
-			complex<double> *field;
-			size_t vol = sField->eSize();
+			double *field;
+			size_t vol = sField->eSize()*comps;
 
 			switch (fIdx)
 			{
 				case FIELD_M:
-				field = static_cast<complex<double>*> (sField->mCpu());
+				field = static_cast<double*> (sField->mCpu());
 				break;
 
 				case FIELD_V:
-				field = static_cast<complex<double>*> (sField->vCpu());
+				field = static_cast<double*> (sField->vCpu());
+				if (sField->Field() != FIELD_PAXION)	// only the Paxion velocity has ghosts
+					vol = sField->Size()*comps;
 				break;
 
 				case FIELD_M2:
@@ -30,7 +35,8 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 					return;
 				}
 
-				field = static_cast<complex<double>*> (sField->m2Cpu());
+				field = static_cast<double*> (sField->m2Cpu());
+				vol = sField->eSize()*2;	// m2 always holds complex numbers
 				break;
 
 				default:
@@ -48,18 +54,20 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 		case FIELD_SINGLE:
 		{
-			complex<float> *field;
+			float *field;
 			float  fac = factor;
-			size_t vol = sField->eSize();
+			size_t vol = sField->eSize()*comps;
 
 			switch (fIdx)
 			{
 				case FIELD_M:
-				field = static_cast<complex<float> *> (sField->mCpu());
+				field = static_cast<float *> (sField->mCpu());
 				break;
 
 				case FIELD_V:
-				field = static_cast<complex<float> *> (sField->vCpu());
+				field = static_cast<float *> (sField->vCpu());
+				if (sField->Field() != FIELD_PAXION)	// only the Paxion velocity has ghosts
+					vol = sField->Size()*comps;
 				break;
 
 				case FIELD_M2:
@@ -68,7 +76,8 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 					return;
 				}
 
-				field = static_cast<complex<float> *> (sField->m2Cpu());
+				field = static_cast<float *> (sField->m2Cpu());
+				vol = sField->eSize()*2;	// m2 always holds complex numbers
 				break;
 
 				default:
-- 
2.43.0


From b298c75e00f26aa2db8508d61cdd36bc0f3652d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 22/63] fix: a low-memory complex field gets its auxiliary
 field when it becomes an angle (mendTheta crashed)

---
 lib/scalar/scalarField.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index ce5162c..fb64f75 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1073,6 +1073,16 @@ void	Scalar::setField (FieldType newType)
 
 			LogMsg(VERB_NORMAL,"[sca] fSize set to %d, shift set to %d ", fSize, shift);
 			LogMsg(VERB_NORMAL,"[sca] Field set to AXION (%)!",fieldType);
+
+			if (m2 == nullptr && device == DEV_CPU) {	// lowmem saxion: theta mode needs the complex m2
+				alignAlloc ((void**) &m2, mAlign, 2*fSize*v3);
+				if (m2 == nullptr) {
+					LogError ("Error: couldn't allocate %lu bytes on host for the m2 field", 2*fSize*v3);
+					exit(1);
+				}
+				memset (m2, 0, 2*fSize*v3);
+				AxionFFT::initPlan (this, FFT_PSPEC_AX, FFT_FWDBCK, "pSpecAx");
+			}
 #ifdef  USE_GPU
 			if (device == DEV_GPU && lowmemgpu)
 			{
-- 
2.43.0


From 5eba30266357efec603c638de059c89d451aa7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 23/63] fix: string length with three strings in one cell
 includes every pair of ends

---
 lib/strings/length.cpp | 60 +++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index aef5713..a04258b 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -233,49 +233,49 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 					 	  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 					 		  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 				    double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			  + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			  + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				  + sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
@@ -601,49 +601,49 @@ StringData	stringlength2	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					 double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					  					 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					  					 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 				  	double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					   						+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					   						+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
-- 
2.43.0


From 1624c9022956fb6962381fdb87b04fa753885b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 24/63] fix: string length and velocity use the next rank's
 first slice instead of skipping or overrunning

---
 lib/strings/length.cpp | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index a04258b..d0e1139 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -88,12 +88,17 @@ void setCross (std::complex<double> m, std::complex<double> mu, std::complex<dou
 // Function that calculates the length of strings
 // -----------------------------------------------------
 
-	/* As it is written, it requires string information from
-	the slice forward in z, but stringData is not ghosted,
-	and so the last slice cannot be computed reliably,
-	the plaquette XY at Z+1 does not exist in the desired rank
-	THIS NEEDS TO BE FIXED
-	The current PATCH simply ignores the problematic plaquettes */
+	/* The cells of the last slice need the strings and the velocity
+	of the slice forward in z, which is the first one of the next rank */
+
+static void	nextSlice	(const void *first, void *next, const size_t bytes)
+{
+	const int nProcs = commSize();
+	const int bck    = (commRank() + nProcs - 1) % nProcs;
+	const int fwd    = (commRank() + 1) % nProcs;
+
+	MPI_Sendrecv (first, bytes, MPI_BYTE, bck, 0, next, bytes, MPI_BYTE, fwd, 0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+}
 
 template<typename Float>
 StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType strmeas)
@@ -141,6 +146,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 	char *strdaa = static_cast<char *>(static_cast<void *>(field->sData()));
 	std::complex<Float> *ma     = static_cast<std::complex<Float>*>(field->mStart());
 
+	std::vector<char> strUp(Lx*Lx);
+	nextSlice (strdaa, strUp.data(), Lx*Lx);
+
 	if(strmeas & STRMEAS_LENGTH) {
 		LogMsg	(VERB_HIGH, "[stringlength] Measure length");
 
@@ -205,9 +213,8 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						pos_y.push_back(iy + 1.);
 						pos_z.push_back(rank*Lz + iz + du[0]);
 					}
-					/* In the case iz = Lz-1 this would segfault */
-					if ( iz < Lz - 1 )
-					if (strdaa[izM] & STRING_XY) {
+					const char strTop = (iz < Lz - 1) ? strdaa[izM] : strUp[ix + yi];
+					if (strTop & STRING_XY) {
 						double du[2];
 						setCross(ma[izM],ma[izxM],ma[iyzM],ma[ixyzM],du);
 						pos_x.push_back(ix + du[0]);
@@ -314,6 +321,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 		std::complex<Float> *va     = static_cast<std::complex<Float>*>(field->vCpu());
 
+		std::vector<std::complex<Float>> vUp(Lx*Lx);
+		nextSlice (va, vUp.data(), Lx*Lx*sizeof(std::complex<Float>));
+
 		#pragma omp parallel for reduction(+:gamma,gamma2,vel,vel2)
 		for (size_t iz=0; iz < Lz; iz++) {
 			size_t zi = Lx*Lx*iz ;
@@ -332,6 +342,10 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 					if((strdaa[idx] & STRING_ONLY) != 0)
 					{
+						const std::complex<Float> *vz = (iz < Lz - 1) ? va + zp : vUp.data();
+						const std::complex<Float> vzP  = vz[ix + yi];
+						const std::complex<Float> vzyP = vz[ix + yp];
+						const std::complex<Float> vzxP = vz[((ix + 1) % Lx) + yi];
 						double g2v2a, g2v2b, g2v2c, g2v2d;
 						std::complex<double> phia = ma[idx]/Rscale;
 						std::complex<double> dphia = (va[idx]-Hc*ma[idx])/(Rscale*Rscale);
@@ -364,8 +378,8 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phic = ma[izM]/Rscale;
 							std::complex<double> phid = ma[iyzM]/Rscale;
 							std::complex<double> dphib = (va[iyM]-Hc*ma[iyM])/(Rscale*Rscale);
-							std::complex<double> dphic = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[iyzM]-Hc*ma[iyzM])/(Rscale*Rscale);
+							std::complex<double> dphic = (vzP-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vzyP-Hc*ma[iyzM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
@@ -383,9 +397,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phib = ma[izM]/Rscale;
 							std::complex<double> phic = ma[ixM]/Rscale;
 							std::complex<double> phid = ma[izxM]/Rscale;
-							std::complex<double> dphib = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphib = (vzP-Hc*ma[izM])/(Rscale*Rscale);
 							std::complex<double> dphic = (va[ixM]-Hc*ma[ixM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[izxM]-Hc*ma[izxM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vzxP-Hc*ma[izxM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
-- 
2.43.0


From fc4a39df162c23cb113875909295d3bdb0250a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 25/63] fix: string and wall map is aligned with the field when
 there are several ghost slices

---
 lib/strings/stringXeon.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..38ebb31 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -1046,5 +1046,9 @@ StringData	stringCpu	(Scalar *field)
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-	return (stringKernelXeon(field->mCpu(), field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
+
+	// The kernel assumes a single ghost slice before the data
+	const void *m = static_cast<const char *>(field->mStart()) - S*field->DataSize();
+
+	return (stringKernelXeon(m, field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
 }
-- 
2.43.0


From 47e7b27fd1539301c1449252928e8759feb9cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 26/63] fix: conformal Hubble rate is R'/R for every expansion
 law (it was zero in radiation domination)

---
 lib/scalar/scalarField.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index fb64f75..b535239 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1210,12 +1210,9 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
-	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
+	// R'/R, equal to frw/z since we have R=z^frw
+	double Rp = bckgnd->Rp(*zV());
+	LogMsg(VERB_PARANOID,"[sca:HC] %.2e",Rp);
 	return Rp ;
 }
 
-- 
2.43.0


From 8e0f9846fb32fa1777cbe8e0bf35b1bc115b87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 27/63] fix: double precision kinetic energy of the complex
 field is not truncated to zero for R > 1

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From de33f10d264f964a0c7e84fd4fd7b7d80f7e77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 28/63] fix: mean and masked radial modulus in double precision
 (missing result, out of bounds read, unreduced sums)

---
 lib/energy/energyXeon.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..8d56bb4 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  +=  tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From 0fa8754a93a791302d6ba8f8fc55ead92cafb1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 29/63] fix: N=2 potential energy uses the phase of the field
 instead of 1/R^2

---
 lib/energy/energyXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 8d56bb4..0e162f2 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -430,7 +430,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 					break;
 					case V_QCD2:
 						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1088,7 +1088,7 @@ if (emask & EN_ENE){
 					break;
 					case V_QCD2:
 						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From 966dcb0c5e4af9ba2c846b0ab2b337a86407c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 30/63] fix: energies without a map do not need (or overwrite)
 the map, so they work in low memory

---
 lib/energy/energy.cpp     | 10 +++++-----
 lib/energy/energyXeon.cpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 5b32730..8fb794e 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -60,7 +60,7 @@ void	Energy::runGpu	()
 	double R       = *field->RV();
 	double Rpp     = field->BckGnd()->Rp(*field->zV())*R;
 
-	const bool map = (mapmask & EN_MAP);
+	const bool map = (mapmask & EN_ONLYMAP);
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -98,7 +98,7 @@ void	Energy::runGpu	()
 
 void	Energy::runCpu	()
 {
-	const bool map = (mapmask & EN_MAP); //Update if mask in theta is required FIX ME
+	const bool map = (mapmask & EN_ONLYMAP); //Update if mask in theta is required FIX ME
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -136,7 +136,7 @@ using namespace profiler;
 
 void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 {
-	if ( (emap & EN_MAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
+	if ( (emap & EN_ONLYMAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
 	{
 		LogError ("Error: Can't compute energy map for saxion with lowmem kernels\n");
 		return;
@@ -209,7 +209,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	prof.stop();
 
 	field->setReduced(false);
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		field->setM2     (M2_ENERGY);
 	}
 
@@ -217,7 +217,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	double flops = (field->Field() == FIELD_SAXION ? (pot & (V_QCD1|V_QCDC) ? 111 : 112) : 25)*field->Size()*1e-9;
 	double bytes = 8.*field->DataSize()*field->Size()*1e-9;
 
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		eDark->appendName(" Map");
 		bytes *= 9./8;
 	}
diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 0e162f2..85b4b9b 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -452,7 +452,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 #else
 				tVp = opCode(shuffle_pd, mod, mCg, 0b00000001);
 #endif
-				if	(emask & EN_MAP) {
+				if	(emask & EN_ONLYMAP) {
 					mdv = opCode(add_pd,
 						opCode(add_pd,
 							opCode(mul_pd, tKp, opCode(mul_pd,hVec,ivZ2)), /* non-conformal kinetic energy */
@@ -1118,7 +1118,7 @@ if (emask & EN_ENE){
 #endif
 
 // Copy energy map to m2
-				if (emask & EN_MAP) {
+				if (emask & EN_ONLYMAP) {
 // Total energy
 					mdv = opCode(add_ps,
 						opCode(add_ps,
@@ -1357,7 +1357,7 @@ void	energyCpu	(Scalar *field, const double delta2, const double LL, const doubl
 	ppar.Vf    = ppar.Vo + field->Size();
 	ppar.Vt    = field->eSize();
 
-	const bool map  = (mapmask & EN_MAP);
+	const bool map  = (mapmask & EN_ONLYMAP);
 	const bool mask = (mapmask & EN_MASK);
 
 	// reset m2 because only the masked points will be plot
-- 
2.43.0


From 6e9509c16b3626b5063366699b5d410a0c00481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 31/63] fix: Paxion energy map is placed by the number of ghost
 slices

---
 lib/energy/energyPaxionXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index e01d4f6..12f1823 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -33,7 +33,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 	const double R     = ppar.R;
 	const double ood2a = ppar.ood2a/R/R;
 	const double beta  = ppar.beta;
-	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
+	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;
 
 	double * __restrict__ eRes = (double * __restrict__) eRes_;
 	double gxC = 0., gyC = 0., gzC = 0., ntC = 0., ptC = 0.;
@@ -95,7 +95,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 					X[2] = tmi/YC;
 					X[1] = tmi - X[2]*YC;
 					X[0] = idx - tmi*XC;
-					X[2]--;	// Removes ghosts
+					X[2] -= Ng;	// Removes ghosts
 				}
 
 				if (X[0] == XC-step)
-- 
2.43.0


From 09c55180f8eca5252b2a9d8628192ec540652435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 32/63] fix: no axion potential energy when there is no QCD
 potential

---
 lib/energy/energy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 8fb794e..dfd6456 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -43,7 +43,7 @@ class	Energy : public Tunable
 };
 
 	Energy::Energy(Scalar *field, const double LL, const double delta, void *eRes, VqcdType pot, const double sh, const EnType emap) : field(field),
-	Vt(field->TotalSize()), delta2(delta*delta), aMass2(field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
+	Vt(field->TotalSize()), delta2(delta*delta), aMass2((pot & V_QCD) == V_QCD0 ? 0. : field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
 	LL(field->LambdaP()), mapmask(emap)
 {
 }
-- 
2.43.0


From df50cec285477ea8fbeed527896536a4c1bea9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 33/63] fix: Paxion gradient energy scales as R^-5 (it was
 divided by R^2 twice)

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 12f1823..2fd83d5 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -31,7 +31,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 {
 
 	const double R     = ppar.R;
-	const double ood2a = ppar.ood2a/R/R;
+	const double ood2a = ppar.ood2a; // includes the powers of R
 	const double beta  = ppar.beta;
 	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;
 
-- 
2.43.0


From 79cd91758c6be789d3607477165ae4f5d57e41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 34/63] fix: the linear axion potential spectrum used the angle
 from the imaginary axis

---
 lib/utils/kgvops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 510f51f..6e68388 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -912,7 +912,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_FLAT:
 								// m2sa[odx]  = Rscale*std::sqrt(2*(1-da[0]/std::sqrt(da[0]*da[0]+da[1]*da[1])));
 								m2sa[odx]  = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = Rscale   * std::atan2(da[0],da[1]);
+								m2sax[odx] = Rscale   * std::atan2(da[1],da[0]);
 							break;
 					case SPMASK_REDO:
 					case SPMASK_BALL:
@@ -921,7 +921,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 										m2sax[odx]= 0 ; }
 								else {
 										m2sa[odx] = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-										m2sax[odx] = Rscale*std::atan2(da[0],da[1]); }
+										m2sax[odx] = Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_GAUS:
 					case SPMASK_DIFF:
@@ -931,12 +931,12 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_VIL: {
 								Float mskk = std::sqrt(da[0]*da[0]+da[1]*da[1])/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_VIL2: {
 								Float mskk = (da[0]*da[0]+da[1]*da[1])/Rscale/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 				} //end mask
 			}
-- 
2.43.0


From 7f9d9a024058191fb279cd66483252818d75162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 35/63] fix: the plain potential spectrum read the slice below
 the one its mask belongs to

---
 lib/spectrum/spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..b9705ea 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1205,8 +1205,8 @@ void	SpecBin::nRun	(nRunType nrt) {
 					#pragma omp parallel for schedule(static)
 					for (size_t iz=0; iz < Lz; iz++) {
 						size_t zo = Ly*(Ly+2)*iz ;
-						size_t zi = Ly*Ly*iz ;
-						size_t zp = Ly*Ly*(iz+1) ;
+						size_t zi = Ly*Ly*(iz+1) ;
+						size_t zp = Ly*Ly*(iz+2) ;
 						for (size_t iy=0; iy < Ly; iy++) {
 							size_t yo = (Ly+2)*iy ;
 							size_t yi = Ly*iy ;
@@ -1225,7 +1225,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
-											if (strdaa[idx] & STRING_MASK){
+											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
 											else{
-- 
2.43.0


From 0d86e038a1e8141f401fddf79de93cf436e8f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 36/63] fix: scaleField covers the padding of the velocity,
 where the tail of its Fourier modes lies

---
 lib/scalar/scaleXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index 26e450f..465ea3c 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -25,8 +25,8 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 				case FIELD_V:
 				field = static_cast<double*> (sField->vCpu());
-				if (sField->Field() != FIELD_PAXION)	// only the Paxion velocity has ghosts
-					vol = sField->Size()*comps;
+				if (sField->Field() != FIELD_PAXION)	// only the Paxion velocity has ghosts, the others the room for a Fourier transform
+					vol = (sField->Size() + 2*sField->Surf())*comps;
 				break;
 
 				case FIELD_M2:
@@ -66,8 +66,8 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 				case FIELD_V:
 				field = static_cast<float *> (sField->vCpu());
-				if (sField->Field() != FIELD_PAXION)	// only the Paxion velocity has ghosts
-					vol = sField->Size()*comps;
+				if (sField->Field() != FIELD_PAXION)	// only the Paxion velocity has ghosts, the others the room for a Fourier transform
+					vol = (sField->Size() + 2*sField->Surf())*comps;
 				break;
 
 				case FIELD_M2:
-- 
2.43.0


From f3e9619ddafdbe50a092fb72410c20ebbce9e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 37/63] fix: the spectral axion step kept no R''/R term, so it
 only held in radiation domination

---
 include/propagator/propClass.h      |  4 ++--
 include/propagator/sPropThetaXeon.h | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index f39c00c..d5f7657 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -619,7 +619,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 			*z += dz*d[s];
 			axion->updateR();
 		}
@@ -637,7 +637,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 583aaae..fd5d00b 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -27,7 +27,7 @@
 #endif
 
 void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
-			     const double aMass2, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
+			     const double aMass2, const double Rpp, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
 
@@ -70,6 +70,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_pd, dzc);
 		const _MData_ dzdVec = opCode(set1_pd, dzd);
 		const _MData_ fMVec  = opCode(set1_pd, fMom);
+		const _MData_ rpVec  = opCode(set1_pd, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -86,11 +87,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 				vel = opCode(load_pd, &v[idxMz]);
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(fmadd_pd, rpVec, mel, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2]))));
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(sub_pd, opCode(add_pd, opCode(mul_pd, rpVec, mel), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2]))), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
 #endif
@@ -147,6 +148,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_ps, dzc);
 		const _MData_ dzdVec = opCode(set1_ps, dzd);
 		const _MData_ fMVec  = opCode(set1_ps, fMom);
+		const _MData_ rpVec  = opCode(set1_ps, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -164,11 +166,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(fmadd_ps, rpVec, mel, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2]))));
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(sub_ps, opCode(add_ps, opCode(mul_ps, rpVec, mel), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2]))), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
 #endif
-- 
2.43.0


From 37e1455ecc0f9185c5e3b598c75afaa7eec05e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 38/63] fix: transforming the field and the velocity together
 skipped the velocity when the field was transformed already

---
 lib/scalar/fourier.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/lib/scalar/fourier.cpp b/lib/scalar/fourier.cpp
index 81bcf56..1fd024a 100644
--- a/lib/scalar/fourier.cpp
+++ b/lib/scalar/fourier.cpp
@@ -40,18 +40,16 @@ void	FTfield::ftField(FieldIndex mvomv)
 	switch(field->Field()){
 		case FIELD_SAXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && !field->MMomSpace())
 				{
-					if (field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CM2M");
 					myPlan.run(FFT_FWD);
 					scaleField	(field, FIELD_M, scale );
 					field->setMMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] complex M transformed into momentum space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && !field->VMomSpace())
 				{
-					if (field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CV2V");
 					myPlan.run(FFT_FWD);
 					scaleField	(field, FIELD_V, scale);
@@ -69,9 +67,8 @@ void	FTfield::ftField(FieldIndex mvomv)
 		} break;
 		case FIELD_AXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && !field->MMomSpace())
 				{
-					if (field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22M");
 					/* we assume the field is ghosted and unpadded
 					and we want its FT at m (unghosted)
@@ -82,9 +79,8 @@ void	FTfield::ftField(FieldIndex mvomv)
 					field->setMMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] real M transformed into momentum space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && !field->VMomSpace())
 				{
-					if (field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22V");
 					/* we assume the field is unghosted unpadded
 					and we want its FT at v (unghosted)
@@ -128,17 +124,15 @@ void	FTfield::iftField(FieldIndex mvomv)
 	switch(field->Field()){
 		case FIELD_SAXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && field->MMomSpace())
 				{
-					if (!field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CM2M");
 					myPlan.run(FFT_BCK);
 					field->setMMomSpace(false);
 					LogMsg  (VERB_HIGH, "[Ftfield] complex M transformed into position space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && field->VMomSpace())
 				{
-					if (!field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CV2V");
 					myPlan.run(FFT_BCK);
 					field->setVMomSpace(false);
@@ -155,9 +149,8 @@ void	FTfield::iftField(FieldIndex mvomv)
 		} break;
 		case FIELD_AXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && field->MMomSpace())
 				{
-					if (!field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22M");
 					/* Here we asume that FT(m) is unghosted in m
 					and we want m ghosted and unpadded in m
@@ -167,9 +160,8 @@ void	FTfield::iftField(FieldIndex mvomv)
 					field->setMMomSpace(false);
 					LogMsg  (VERB_HIGH, "[Ftfield] real M transformed into position space");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && field->VMomSpace())
 				{
-					if (!field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22V");
 					/* Here we asume that FT(m) is unghosted in m
 					and we want v ghosted and unpadded in v
-- 
2.43.0


From 56a58ad8659bbe2b402027c57c346664acd79b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 39/63] fix: the spectral complex step pulled towards the wrong
 extrema of the V_QCD2 potential

---
 include/propagator/sPropXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index 8cfffd7..c6e99d2 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -179,7 +179,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -400,7 +400,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+						mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_ps,
-- 
2.43.0


From ec3b6566645a393084f9092a8e69bf9786c8b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 40/63] fix: the inverse transform marked a folded field in
 position space as unfolded

---
 lib/scalar/fourier.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/scalar/fourier.cpp b/lib/scalar/fourier.cpp
index 1fd024a..4915596 100644
--- a/lib/scalar/fourier.cpp
+++ b/lib/scalar/fourier.cpp
@@ -190,7 +190,6 @@ void	FTfield::iftField(FieldIndex mvomv)
 	}
 
 	LogMsg (VERB_HIGH, "[FTField] Field (inverse) transformed to configuration space");
-	field->setFolded(false);
 
 	return;
 }
-- 
2.43.0


From 1b3d6d8290080ce6fc5c495d152b576d44555c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 41/63] fix: the field histograms started one slice into the
 lattice's ghosts when it has more than one ghost slice

---
 lib/meas/measa.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 83147ef..b81634f 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -847,9 +847,9 @@ writePMapHdf5s (axiona, LAB);
 				LogMsg(VERB_NORMAL, "[Meas %d] bin theta",indexa);
 					// Float shs = shiftz;
 					// complex<Float> shhhs = (shs,0.);
-					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 					// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
-					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 									 [] (complex<Float> x) { return (double) arg(x); });
 					thBin.run();
 					writeBinner(thBin, "/bins", "thetaB");
@@ -862,9 +862,9 @@ writePMapHdf5s (axiona, LAB);
 					// Float z_now = *axiona->zV();
 					// Float shs = shiftz;
 					// complex<Float> shhhs = (shs,0.);
-					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 					// 					[z=z_now,s=shhhs] (complex<Float> x) { return (double) abs(x-s)/z; } );
-					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										[z=R_now] (complex<Float> x) { return (double) abs(x)/z; } );
 					rhoBin.run();
 					writeBinner(rhoBin, "/bins", "rhoB");
@@ -873,7 +873,7 @@ writePMapHdf5s (axiona, LAB);
 					{
 						// LogOut("binL ");
 						LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										 [] (complex<Float> x) { return (double) log10(1.0e-10+pow(arg(x),2)); });
 						logth2Bin.run();
 						writeBinner(logth2Bin, "/bins", "logtheta2B");
@@ -884,7 +884,7 @@ writePMapHdf5s (axiona, LAB);
 		{
 			// LogOut("binthetha ");
 			LogMsg(VERB_NORMAL, "[Meas %d] bin theta ",indexa);
-				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 								 [z=R_now] (Float x) { return (double) (x/z); });
 				thBin.run();
 				writeBinner(thBin, "/bins", "thetaB");
@@ -898,7 +898,7 @@ writePMapHdf5s (axiona, LAB);
 				{
 					// LogOut("bintt2 ");
 					LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 									 [z=R_now] (Float x) -> float { return (double) log10(1.0e-10+pow(x/z,2)); });
 					logth2Bin2.run();
 					writeBinner(logth2Bin2, "/bins", "logtheta2B");
@@ -912,7 +912,7 @@ writePMapHdf5s (axiona, LAB);
 			LogMsg(VERB_NORMAL, "[Meas %d] bin |P|^2",indexa);
 				// Float shs = shiftz;
 				// complex<Float> shhhs = (shs,0.);
-				// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 				// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
 				Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 								 [] (complex<Float> x) { return (double) abs(x);});
@@ -929,7 +929,7 @@ writePMapHdf5s (axiona, LAB);
 		// 	LogMsg(VERB_NORMAL, "[Meas %d] bin |P|^2",indexa);
 		// 		// Float shs = shiftz;
 		// 		// complex<Float> shhhs = (shs,0.);
-		// 		// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+		// 		// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 		// 		// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
 		// 		Binner<3000,Float> thBin1(static_cast<Float*>(axiona->mStart()), axiona->Size(),
 		// 						 [] (Float x) { return (double) x*x;});
-- 
2.43.0


From 354fd6bf119ef06c0f972afab23eab2e2baa78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 42/63] fix: the energy slice is printed by the rank it belongs
 to

---
 lib/io/readWrite.pHdf5.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 40fc4f5..0fdb6d7 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -4046,7 +4046,10 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
 	hsize_t slb  = axion->Surf();
 	hsize_t lSz  = axion->Length();
-	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumbertoprint;
+	/*	The slice belongs to one rank, the one that prints it	*/
+	int slicenumber = slicenumbertoprint % axion->Depth();
+	int prank       = slicenumbertoprint / axion->Depth();
+	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumber;
 	// char eCh[16] = dataname;
 
 	LogMsg (VERB_NORMAL, "[wem] Writing 2D energy map to Hdf5 measurement file");
@@ -4082,13 +4085,6 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		dataType = H5T_NATIVE_FLOAT;
 	}
 
-	int slicenumber = slicenumbertoprint ;
-	if (slicenumbertoprint > axion->Depth())
-	{
-		LogMsg (VERB_NORMAL, "Sliceprintnumberchanged to 0");
-		slicenumber = 0;
-	}
-
 	/*	Create a group for map data if it doesn't exist	*/
 	auto status = H5Lexists (meas_id, "/map", H5P_DEFAULT);
 
@@ -4113,7 +4109,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		exit (1);
 	}
 
-	if (myRank != 0) {
+	if (myRank != prank) {
 		H5Sselect_none(mapSpace);
 	}
 
@@ -4169,7 +4165,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 
 	hsize_t offset = 0;
 
-	if (myRank == 0) {
+	if (myRank == prank) {
 		H5Sselect_hyperslab(eSpace, H5S_SELECT_SET, &offset, NULL, &slb, NULL);
 	} else {
 		H5Sselect_none(eSpace);
-- 
2.43.0


From 528b5eb45b6888a558064d3bae5bdb6f70229d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 43/63] fix: asking for both projections wrote the second over
 the first and ended the run

---
 lib/meas/measa.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index b81634f..7e630ab 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -274,7 +274,11 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 							else {
 								projectField	(axiona, [] (float x) -> float { return x*x ; } );
 							}
-								writePMapHdf5 (axiona);
+								if(info.maty & MAPT_XYPE){
+									char LABP2[] = "/map/P2";
+									writePMapHdf5s (axiona, LABP2);
+								} else
+									writePMapHdf5 (axiona);
 				}
 			}
 
-- 
2.43.0


From 8a953cf3ae3eb5e6f61c30f8cd918dc4836b9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 44/63] fix: the slices of a complex axion field were written
 halved in yz and abandoned in xy by chance

---
 lib/io/readWrite.pHdf5.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 0fdb6d7..b9bd7aa 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -3661,7 +3661,7 @@ void	writeSpectrum (Scalar *axion, void *spectrumK, void *spectrumG, void *spect
 
 void	writeMapHdf5s	(Scalar *axion, int slicenumbertoprint)
 {
-	hid_t	mapSpace, chunk_id, group_id, mSet_id, vSet_id, mSpace, vSpace,  dataType;
+	hid_t	mapSpace, chunk_id, group_id, mSet_id, vSet_id = 0, mSpace, vSpace = 0,  dataType;
 	hsize_t	dataSize = axion->DataSize();
 
 	int myRank = commRank();
@@ -3892,7 +3892,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	Profiler &prof = getProfiler(PROF_HDF5);
 	prof.start();
 
-	if (axion->Field() == FIELD_SAXION) {
+	if ((axion->Field() == FIELD_SAXION) || (axion->Field() == FIELD_NAXION)) {
 		total *= 2;
 		slab *= 2;
 	}
@@ -3907,7 +3907,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	//if (axion->Folded())
 	//{
 		int slicenumber = slicenumbertoprint ;
-		if (slicenumbertoprint > axion->Length())
+		if (slicenumbertoprint >= (int) axion->Length())
 		{
 			LogMsg (VERB_NORMAL, "[wm2] Sliceprintnumberchanged to 0");
 			slicenumber = 0;
-- 
2.43.0


From 103414378f760958230f0735e32fe9cb3b31f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 45/63] fix: reducing an angle field out of place wrote the
 reduced field over the source

---
 lib/reducer/reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 2153335..d0a6500 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -262,7 +262,8 @@ Scalar*	Reducer<Float>::runCpu	()
 				memcpy(mD, fOut, volData);
 			} else {
 				// Copy m to the second axionField
-				memcpy(mIn, fOut, volData);
+				Float *mD      = static_cast<Float*>(outField->mStart());
+				memcpy(mD, fOut, volData);
 			}
 
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
-- 
2.43.0


From 2093f3e3fc87f98978dd78990db15ee3484ec05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 46/63] fix: the reduction of the velocity of a complex field
 applied its filter to untransposed modes

---
 lib/fft/fftCode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..6565ddc 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -216,10 +216,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
@@ -417,10 +417,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
-- 
2.43.0


From c4266cbcb9a4d4694bdd0515030ecb64012d9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 47/63] fix: reading a configuration onto a coarser lattice
 erased it while planning the new transforms

---
 lib/io/readWrite.pHdf5.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index b9bd7aa..bc63b8a 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1551,9 +1551,17 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			AxionFFT::removePlan("SpSx");
 			AxionFFT::removePlan("RdSxV");
 			LogMsg(VERB_NORMAL, "[rc] 3 - insert plans for correct size axion");
+			/*	Planning overwrites the fields it is made for	*/
+			size_t redBytes = (*axion)->Size()*(*axion)->DataSize();
+			std::vector<char> mKeep (static_cast<char *>((*axion)->mStart()), static_cast<char *>((*axion)->mStart()) + redBytes);
+			std::vector<char> vKeep (static_cast<char *>((*axion)->vStart()), static_cast<char *>((*axion)->vStart()) + redBytes);
 			AxionFFT::initPlan (*axion, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
-			AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
-			AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+			if ((*axion)->Field() == FIELD_SAXION) {
+				AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
+				AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+			}
+			memcpy ((*axion)->mStart(), mKeep.data(), redBytes);
+			memcpy ((*axion)->vStart(), vKeep.data(), redBytes);
 			LogMsg(VERB_NORMAL, "[rc] 4 - Reduction complete!");
 			// LogMsg(VERB_NORMAL, "[rc] 8 - Remove auxion");
 			// delete auxion; kkils the FFTs do not use!
-- 
2.43.0


From 0dcac27a5be08323db3df6f87d2f4e27e339a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 48/63] fix: expansion of a configuration was only right for
 the same whole factor in all directions

---
 include/utils/simpleops.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/utils/simpleops.h b/include/utils/simpleops.h
index b5f4507..e151284 100644
--- a/include/utils/simpleops.h
+++ b/include/utils/simpleops.h
@@ -194,6 +194,7 @@
 		Lmax = floor((n+1)*N'/N)
 		*/
 		double r = ((double) nx)/((double) Nx);
+		double rz = ((double) nz)/((double) Nz);
 
 		#pragma omp parallel default(shared)
 		{
@@ -206,12 +207,12 @@
 			double dx, dy, dz;
 			#pragma omp for schedule(static)
 			for (size_t riz = 0; riz < nz; riz++) {
-			 iz0 = (riz*Nz)/nz;
+			 iz0 = (riz*Nz + nz - 1)/nz;
 			 izM = ((riz+1)*Nz)/nz;
 			 if ((riz+1)*Nz % nz ==0) izM--;
 
 			 for (size_t riy = 0; riy < nx; riy++) {
-				iy0 = (riy*Nx)/nx;
+				iy0 = (riy*Nx + nx - 1)/nx;
 				iyM = ((riy+1)*Nx)/nx;
                                 if ((riy+1)*Nx % nx ==0) iyM--;
 				for (size_t rix = 0; rix < nx; rix++) {
@@ -235,14 +236,14 @@
 					// if (riz*Nz % nz) iz0++;
 					//iy0 = (riy*Nx)/nx;
 					// if (riy*Nx % nx) iy0++;
-					ix0 = (rix*Nx)/nx;
+					ix0 = (rix*Nx + nx - 1)/nx;
 					// if (rix*Nx % nx) ix0++;
 					//izM = ((riz+1)*Nz)/nz;
 					//if ((riz+1)*Nz % nz ==0) izM--;
 					//iyM = ((riy+1)*Nx)/nx;
 					//if ((riy+1)*Nx % nx ==0) iyM--;
 					ixM = ((rix+1)*Nx)/nx;
-					if ((rix+1)*Nz % nx ==0) ixM--;
+					if ((rix+1)*Nx % nx ==0) ixM--;
 
 
 					for (size_t iz = iz0; iz <= izM; iz++) {
@@ -252,7 +253,7 @@
 
 								dx = r*ix - ((double) rix);
 								dy = r*iy - ((double) riy);
-								dz = r*iz - ((double) riz);
+								dz = rz*iz - ((double) riz);
 
 
 								s[ix+Nx*(iy+Nx*iz)] =
-- 
2.43.0


From 7fd6b370cfef4c9ce763fabd8e4cd98aaba611d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 49/63] fix: the amplitude of angle configurations was cut to 0
 or 1 whatever --mode0 said

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index f20b8ac..ccb9bd0 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -34,7 +34,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	size_t local_z_start = rank*Lz;
 
 	/* used from ic */
-	double mod0  = ic.mode0 > 0.0;
+	double mod0  = ic.mode0;
 	double kCri  = ic.kcr;
 	/* for string wave */
 	int div = ic.kMax; // number of strings in one dimension
-- 
2.43.0


From c2e1d7c708436cf6f1563c5298bfcdd79b5eeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 50/63] fix: the axiton configuration in double precision was a
 parametric-resonance wave

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index ccb9bd0..c398e7a 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -435,7 +435,7 @@ void	randConf (Scalar *field, IcData ic)
 				randXeon<double,CONF_PARRES> (ma, field, ic);
 				break;
 			case CONF_AXITON:
-				randXeon<double,CONF_PARRES> (ma, field, ic);
+				randXeon<double,CONF_AXITON> (ma, field, ic);
 				break;
 			case CONF_STRWAVE:
 				randXeon<double,CONF_STRWAVE> (ma, field, ic);
-- 
2.43.0


From 8ccb54769b11d73b16291010d01a59102e64bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 51/63] fix: initial configurations assumed a cubic lattice
 along z

---
 lib/gen/randXeon.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index c398e7a..2a8c465 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -29,7 +29,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	const size_t V  = field->Size();
 	const double L  = field->BckGnd()->PhysSize();
 	int rank = commRank();
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -162,7 +162,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float theta = ((Float) ((x-Lx/2)*(x-Lx/2)+(y-Lx/2)*(y-Lx/2)+z*z));
 						theta = exp(-theta*kCri2)*mod0;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
@@ -179,7 +179,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -197,7 +197,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -250,7 +250,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						x = ix;
 						if(1){
 						//CENTERED AT GRID, z=0
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float aL = ((Float) Lx)*((Float) strR);	//RADIUS
 						rho2 = (z)*(z)+(y-Lx/2)*(y-Lx/2);
 						Float rho = sqrt((Float) rho2)	;
-- 
2.43.0


From e835b0e886c367297729bf2acad306d5c34d279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 52/63] fix: the straight strings of the string-wave
 configuration multiplied an empty field

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index 2a8c465..07773bf 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -376,7 +376,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 				}
 				std::complex<Float> eee = std::complex<Float>(cos(theta), sin(theta));
 				for (size_t iz =0; iz<Lz; iz++){
-					m[idx+iz*Sf] *= eee;
+					m[idx+iz*Sf] = eee;
 				}
 			}
 		}
-- 
2.43.0


From 5c2bcc25e8229cecf0c1a0d2c7e8947200fb7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 53/63] fix: the mean radius of a configuration started from an
 unset sum and was divided by the size of one rank with ghosts

---
 lib/gen/genConf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a0123d..25a766c 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1638,7 +1638,7 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 	/* Computes the average value of rho for normalisation purposes */
 	LogMsg(VERB_NORMAL,"[GEN] any mean %d ",ftipo);
 	void* meandro ;
-	double mean, Mean;
+	double mean = 0.0, Mean = 0.0;
 
 	switch(ftipo){
 		case FIELD_M:
@@ -1674,8 +1674,8 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 		}
 
 	MPI_Allreduce(&mean, &Mean, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
-	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->eSize()));
-	return Mean/((double) axionField->eSize());
+	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->TotalSize()));
+	return Mean/((double) axionField->TotalSize());
 } //end rhomean
 
 
-- 
2.43.0


From 38420718cfdbce7f338a59e9327171957fba7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 54/63] fix: the cole configuration drew its modes through a
 null pointer, and its velocity noise with another spectrum

---
 lib/gen/genConf.cpp | 1 +
 lib/gen/momConf.cpp | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 25a766c..ba4b13e 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -885,6 +885,7 @@ void	ConfGenerator::confcole(Cosmos *myCosmos, Scalar *axionField)
 		mopa.kCrt = axionField->BckGnd()->PhysSize()/(6.283185307179586*(*axionField->zV())*ic.kcr);
 		mopa.mocoty = MOM_COLE;
 		mopa.cmplx = true;
+		mopa.mp = axionField->m2Cpu();
 	momConf(axionField, mopa);
 	myPlan.run(FFT_BCK);
 
diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 14f0003..0548274 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -435,6 +435,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<double, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<double, MOM_KCOLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<double, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
@@ -484,6 +487,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<float, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<float, MOM_KCOLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<float, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
-- 
2.43.0


From 424adfa8fc31f1c96fffa8f55fb1ba6f42ba6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 55/63] fix: threads overwrote each other's angle velocities
 when waves were put on a string network

---
 lib/gen/genConf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index ba4b13e..bc8ecaf 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1097,7 +1097,7 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<float> *co_v = static_cast<complex<float>*>(axionField->vCpu());
 				float *f_m  = static_cast<float*>(axionField->m2Cpu());
 				float *f_v  = static_cast<float*>(axionField->vCpu());
-				#pragma omp parallel for default(shared) schedule(static)
+				/* in place: entry idx of f_v lies below entry idx of co_v, so from the end and one by one */
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
 					float theta  = f_m[idx]/R;
@@ -1114,11 +1114,11 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<double> *co_v = static_cast<complex<double>*>(axionField->vCpu());
 				double *f_m  = static_cast<double*>(axionField->m2Cpu());
 				double *f_v  = static_cast<double*>(axionField->vCpu());
-				#pragma omp parallel for default(shared) schedule(static)
+				/* in place: entry idx of f_v lies below entry idx of co_v, so from the end and one by one */
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
-					float theta  = f_m[idx]/R;
-					float thetap = f_v[idx]/R-theta*Rp;
+					double theta  = f_m[idx]/R;
+					double thetap = f_v[idx]/R-theta*Rp;
 					co_m[idx] = co_m[idx]*exp(complex<double>(0.0,theta))*R;
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
-- 
2.43.0


From 3c6998791119585f107ef3fdbabee725491ada19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 56/63] fix: restore the damping of the run after the
 pre-evolution

prepropa2 set the damping to what it already was, so a run with --preprop and
--pregam went on with the damping of its pre-evolution.
---
 lib/gen/prepropa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/gen/prepropa.cpp b/lib/gen/prepropa.cpp
index 9e00995..d887e0e 100644
--- a/lib/gen/prepropa.cpp
+++ b/lib/gen/prepropa.cpp
@@ -216,8 +216,8 @@ void	prepropa2  (Scalar *axiona)
 		}
 
 		if (axiona->BckGnd()->ICData().pregammo > 0.0){
-			axiona->BckGnd()->SetGamma( axiona->BckGnd()->Gamma());
-			LogMsg(VERB_NORMAL,"[prep] ReSet damping to gam = %f (was %f)",axiona->BckGnd()->Gamma(),gamma_aux);
+			axiona->BckGnd()->SetGamma(gamma_aux);
+			LogMsg(VERB_NORMAL,"[prep] ReSet damping to gam = %f (was %f)",gamma_aux,axiona->BckGnd()->ICData().pregammo);
 		}
 
 }
-- 
2.43.0


From d363c36bd0742379b64f088cc290bdcb0f5698dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 57/63] fix: align the vectors mendTheta stores on the stack

Aligned vector stores went to arrays of ordinary alignment, which ends in a
segmentation fault wherever the compiler keeps them on the stack as declared
(seen without optimisation).
---
 lib/scalar/mendThetaXeon.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 41694d5..df5a549 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -197,9 +197,9 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						}
 #else
 						long mask = 0;
-						long msk[step];
+						long msk[step] __attribute__((aligned(Align)));
 						long maskB = 0;
-						long mskB[step];
+						long mskB[step] __attribute__((aligned(Align)));
 	#ifdef	__AVX__
 						mDp = opCode(cmp_pd, mDf, pVec, _CMP_GE_OQ);
 						mDm = opCode(cmp_pd, mDf, mVec, _CMP_LT_OQ);
@@ -332,7 +332,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						1 if F = B (will mend)
 						0 if F!= B (will not mend) */
 						long mask = 0;
-						long msk[step];
+						long msk[step] __attribute__((aligned(Align)));
 #ifdef	__AVX512F__
 						auto pMask = opCode(cmp_pd_mask, mPx, mBMx, _CMP_EQ_OQ);
 						// auto mMask = opCode(cmp_pd_mask, mPx, mBMx, _CMP_NEQ_OQ);
@@ -359,7 +359,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						/* store if necessary */
 						if (mask >0){
 							// double mm[step], mvB[step];
-							double vv[step], mvF[step];
+							double vv[step] __attribute__((aligned(Align))), mvF[step] __attribute__((aligned(Align)));
 							// opCode(store_pd, static_cast<double*>(static_cast<void*>(mm)), mel);
 							opCode(store_pd, static_cast<double*>(static_cast<void*>(mvF)), mPx);
 							// opCode(store_pd, static_cast<double*>(static_cast<void*>(mvB)), mBMx);
@@ -567,9 +567,9 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						}
 #else
 						int mask = 0;
-						int msk[step];
+						int msk[step] __attribute__((aligned(Align)));
 						int maskB = 0;
-						int mskB[step];
+						int mskB[step] __attribute__((aligned(Align)));
 	#ifdef	__AVX__
 						mDp = opCode(cmp_ps, mDf, pVec, _CMP_GE_OQ);
 						mDm = opCode(cmp_ps, mDf, mVec, _CMP_LT_OQ);
@@ -720,7 +720,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 							1 if F = B (will mend)
 							0 if F!= B (will not mend) */
 							int mask = 0;
-							int msk[step] = {0};
+							int msk[step] __attribute__((aligned(Align))) = {0};
 	#ifdef	__AVX512F__
 							auto pMask = opCode(cmp_ps_mask, mPx, mBMx, _CMP_EQ_OQ);
 							//auto mMask  = opCode(cmp_ps_mask, mPx, mBMx, _CMP_NEQ_OQ);
@@ -746,15 +746,15 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 							/* store if necessary */
 							if (mask >0){
-								float mm[step], mvB[step];
-								float vv[step], mvF[step], vvF[step];
+								float mm[step] __attribute__((aligned(Align))), mvB[step] __attribute__((aligned(Align)));
+								float vv[step] __attribute__((aligned(Align))), mvF[step] __attribute__((aligned(Align))), vvF[step] __attribute__((aligned(Align)));
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(mm)), mel);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(mvF)), mPx);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(mvB)), mBMx);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(vv)), vPx);
 								mDf  = opCode(load_ps, &m2[idx2+XC]);                                  // we have saved corrected v here
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(vvF)), mDf);
-								float para[step], noia[step];
+								float para[step] __attribute__((aligned(Align))), noia[step] __attribute__((aligned(Align)));
 								mDp  = opCode(load_ps, &m2[idx2-step]);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(para)), mDp);
 								mDc  = opCode(load_ps, &m2[idx2+step]);	
-- 
2.43.0


From 61c5ee97e5761836be88fd840ec450399d74c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 58/63] fix: align the squared momenta the spectral angle
 propagator loads

An aligned vector load read from an array of ordinary alignment (segmentation
fault without optimisation).
---
 include/propagator/fsPropThetaXeon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/propagator/fsPropThetaXeon.h b/include/propagator/fsPropThetaXeon.h
index 53c48a8..b054ee8 100644
--- a/include/propagator/fsPropThetaXeon.h
+++ b/include/propagator/fsPropThetaXeon.h
@@ -211,7 +211,7 @@ inline	void	fsPropKernelThetaXeon(void * __restrict__ m_, void * __restrict__ v_
 			int    kx, ky, kz;
 			size_t tmp;
 
-			float pn[2*step];
+			float pn[2*step] __attribute__((aligned(Align)));
 
 			#pragma omp for schedule(static)
 			for (size_t idx=0; idx < Vol; idx += step)
-- 
2.43.0


From ad46ca97a2cb1ad25a639caa8c91120670b92f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 59/63] fix: measure strings on the full lattice after a
 reduced energy map

---
 lib/meas/measa.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 7e630ab..681fe02 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -392,6 +392,8 @@ writePMapHdf5s (axiona, LAB);
 													 { return x*((float) exp(-eFc*(px*px + py*py + pz*pz))); });
 										}
 									writeEDens (axiona);
+									/* the map is written, the rest of the measurement needs the full lattice */
+									axiona->setReduced(false);
 								}
 						}
 				}
-- 
2.43.0


From 16721fd8987b887c07808c31cafde1829916935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 60/63] fix: reduce the energy and not its last smoothing after
 a multiple contrast

---
 lib/meas/measa.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 681fe02..246e10e 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -383,6 +383,11 @@ writePMapHdf5s (axiona, LAB);
 										double eFc  = 0.5*M_PI*M_PI*(ScaleSize*ScaleSize)/((double) axiona->Surf());
 										// size_t nLz = redmap / commSize();
 
+										/* the multiple contrast leaves a smoothed energy in m2 and its transform in m2half */
+										if ((axiona->m2Status() == M2_ENERGY_SMOOTH) && (axiona->m2hStatus() == M2_ENERGY_FFT)) {
+											memcpy (axiona->m2Cpu(), axiona->m2half(), axiona->eSize()*axiona->Precision());
+											axiona->setM2 (M2_ENERGY_FFT);
+										}
 
 										if (axiona->Precision() == FIELD_DOUBLE) {
 											reduceField(axiona, redmap, nLz, FIELD_M2, [eFc = eFc] (int px, int py, int pz, complex<double> x) -> complex<double>
-- 
2.43.0


From 126d357648e12d219d7c5fc3d76e4ece39e71661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:17 +0000
Subject: [PATCH 61/63] fix: take the YZ slice of a deep lattice through the
 ghost zones in pieces that fit

---
 include/scalar/folder.h    |  4 ++--
 lib/io/readWrite.pHdf5.cpp | 10 +++++++---
 lib/scalar/folder.cpp      | 20 ++++++++++----------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/scalar/folder.h b/include/scalar/folder.h
index ce112f7..bb7f375 100644
--- a/include/scalar/folder.h
+++ b/include/scalar/folder.h
@@ -28,7 +28,7 @@
 		void	unfoldField2D(const size_t cZ);
 
 		template<typename cFloat>
-		void	unfoldField2DYZ(const size_t sX);
+		void	unfoldField2DYZ(const size_t sX, const size_t z0=0);
 
 		template<typename cFloat>
 		void	foldM2();
@@ -44,6 +44,6 @@
 			 Folder(Scalar *scalar);
 			~Folder() {};
 
-		void	operator()(FoldType fType, size_t cZ=0);
+		void	operator()(FoldType fType, size_t cZ=0, size_t z0=0);
 	};
 #endif
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index bc63b8a..d4438ab 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -3922,7 +3922,8 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 		}
 		Folder	munge(axion);
 		LogMsg (VERB_NORMAL, "[wm2] If configuration folded, unfold 2D slice");	LogFlush();
-		munge(UNFOLD_SLICEYZ, slicenumber);
+		/* lines of the slice that fit in the ghost zones */
+		const size_t lines = axion->getNg()*axion->Length();
 	//}
 
 
@@ -4009,13 +4010,16 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	{
 		hsize_t offset = (hsize_t) myRank*partial + yDim*slab;
 
+		if (yDim % lines == 0)
+			munge(UNFOLD_SLICEYZ, slicenumber, yDim);
+
 		H5Sselect_hyperslab(mSpace, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
 		H5Sselect_hyperslab(vSpace, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
 
 		LogMsg (VERB_PARANOID, "[wm2] line yDim %d ",yDim);	LogFlush();
 		/*	Write raw data	recall slab = sizeN*2*/
-		auto mErr = H5Dwrite (mSet_id, dataType, memSpace, mSpace, H5P_DEFAULT, (static_cast<char *> (axion->mFrontGhost())) +axion->Length()*yDim*dataSize);
-		auto vErr = H5Dwrite (vSet_id, dataType, memSpace, vSpace, H5P_DEFAULT, (static_cast<char *> (axion->mBackGhost() )) +axion->Length()*yDim*dataSize);
+		auto mErr = H5Dwrite (mSet_id, dataType, memSpace, mSpace, H5P_DEFAULT, (static_cast<char *> (axion->mFrontGhost())) +axion->Length()*(yDim % lines)*dataSize);
+		auto vErr = H5Dwrite (vSet_id, dataType, memSpace, vSpace, H5P_DEFAULT, (static_cast<char *> (axion->mBackGhost() )) +axion->Length()*(yDim % lines)*dataSize);
 
 		if ((mErr < 0) || (vErr < 0))
 		{
diff --git a/lib/scalar/folder.cpp b/lib/scalar/folder.cpp
index 94bd2be..be8ce09 100755
--- a/lib/scalar/folder.cpp
+++ b/lib/scalar/folder.cpp
@@ -150,7 +150,7 @@ void	Folder::unfoldField2D (const size_t sZ)
 
 // unfolds a X=constant slice
 template<typename cFloat>
-void	Folder::unfoldField2DYZ (const size_t sX)
+void	Folder::unfoldField2DYZ (const size_t sX, const size_t z0)
 {
 	if ((sX < 0) || (sX > field->Length()) || field->Device() == DEV_GPU)
 		return;
@@ -160,8 +160,8 @@ void	Folder::unfoldField2DYZ (const size_t sX)
 	cFloat *m  = static_cast<cFloat *> (field->mStart());
 	cFloat *v  = static_cast<cFloat *> (field->vStart());
 
-	int z0 = 0;
-	size_t zT = field->Depth();
+	/* the ghost zones hold getNg()*n1 lines, the slice from z0 on */
+	size_t zT = std::min(field->Depth(), z0 + field->getNg()*n1);
 
 	if (!field->Folded())
 	{
@@ -175,7 +175,7 @@ void	Folder::unfoldField2DYZ (const size_t sX)
 			for (size_t iz=z0; iz < zT ; iz++)
 				{
 					size_t oIdx = iz*n2 + iy*n1 + sX;
-					size_t dIdx =         iz*n1 + iy ;
+					size_t dIdx = (iz-z0)*n1 + iy ;
 					//this copies m into buffer 1
 					mg1[dIdx] = m[oIdx];
 					//this copies v into buffer last
@@ -198,7 +198,7 @@ void	Folder::unfoldField2DYZ (const size_t sX)
 			for (size_t iz=z0; iz < zT ; iz++)
 			{
 				size_t oIdx = (iz)*n2 + iy*n1*shift + sX*shift + sy;
-				size_t dIdx = iz*n1 + (iy+sy*(n1/shift));
+				size_t dIdx = (iz-z0)*n1 + (iy+sy*(n1/shift));
 				//this copies m into buffer 1
 				mg1[dIdx] = m[oIdx];
 				//this copies v into buffer last
@@ -332,7 +332,7 @@ void	Folder::unfoldM22D (const size_t sZ)
 
 /* basic operator */
 
-void	Folder::operator()(FoldType fType, size_t cZ)
+void	Folder::operator()(FoldType fType, size_t cZ, size_t z0)
 {
 	// Careful here, GPUS might want to call CPU routines
 	if (field->Device() == DEV_GPU)
@@ -531,14 +531,14 @@ void	Folder::operator()(FoldType fType, size_t cZ)
 					{
 						case	FIELD_SAXION:
 						case	FIELD_NAXION:
-							unfoldField2DYZ<complex<double>>(cZ);
+							unfoldField2DYZ<complex<double>>(cZ, z0);
 							break;
 
 						case	FIELD_AXION_MOD:
 						case	FIELD_AXION:
 						case	FIELD_WKB:
 						case  FIELD_PAXION:
-							unfoldField2DYZ<double>(cZ);
+							unfoldField2DYZ<double>(cZ, z0);
 							break;
 
 						default:
@@ -553,14 +553,14 @@ void	Folder::operator()(FoldType fType, size_t cZ)
 					{
 						case	FIELD_SAXION:
 						case	FIELD_NAXION:
-							unfoldField2DYZ<complex<float>>(cZ);
+							unfoldField2DYZ<complex<float>>(cZ, z0);
 							break;
 
 						case	FIELD_AXION_MOD:
 						case	FIELD_AXION:
 						case	FIELD_WKB:
 						case  FIELD_PAXION:
-							unfoldField2DYZ<float>(cZ);
+							unfoldField2DYZ<float>(cZ, z0);
 							break;
 
 						default:
-- 
2.43.0


From 211df6b0773d014139db3a478b9641f0a0c64aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 62/63] fix: phase of the WKB continuation for a constant axion
 mass grows with the square of the wave number

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 91e0b98..d87e96b 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -83,7 +83,7 @@ namespace AxionWKB {
 				wIni        = sqrt(k2 + m2Ini);
 				wEnd        = sqrt(k2 + m2End);
 				// LogOut("in %f, %f\n",log((mEnd+wEnd)/(mIni+wIni)),mEnd/(wEnd+mEnd) - mIni/(wIni+mIni));
-				return 0.5*k*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
+				return 0.5*k2*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
 				}
 
 		mIni        = indi3*pow(zIni,nqcd/2+1) ;
-- 
2.43.0


From e6809bbd52f20ca906d30dcd63a167747f65792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 63/63] fix: interpolate the WKB phase in the variable in which
 it is smooth

---
 lib/WKB/WKB.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index d87e96b..d948474 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -413,10 +413,6 @@ namespace AxionWKB {
 		fprintf(file_wk,"%lf %lf\n",k2Table[i], superTable[i]);
 	fclose(file_wk);
 	}
-		tk::spline sss;
-		sss.set_points(k2Table,superTable);
-
-		LogMsg(VERB_NORMAL,"Spline built!");
 		// use nQcd1 y 2
 		double nQcdI				 = field->BckGnd()->QcdExp();
 		double nQcdE				 = field->BckGnd()->QcdExp();
@@ -452,6 +448,16 @@ namespace AxionWKB {
 
 		LogMsg(VERB_NORMAL,"Check mIni %f mEnd %f ",mIni, mEnd);
 
+		/* the phase is close to linear in sqrt(k2 + m2) - m, whether the mode is relativistic or not */
+		auto slow = [mIni](double k2) { return k2 > 0.0 ? k2/(sqrt(k2 + ((double) mIni)*mIni) + mIni) : 0.0; };
+		std::vector<double> slowTable(k2Table.size());
+		for (size_t i=0; i<k2Table.size(); i++)
+			slowTable[i] = slow(k2Table[i]);
+		tk::spline sss;
+		sss.set_points(slowTable,superTable);
+
+		LogMsg(VERB_NORMAL,"Spline built!");
+
 		// critical systematics are computed only once!
 		complex<double> prepha = exp(im*(massphaseE+massphaseI+massphaseC));
 		LogMsg(VERB_NORMAL,"Phases EIC %e %lf %lf (nqcdI %f nqcdE %f)",massphaseE,massphaseI,massphaseC,nQcdI, nQcdE);
@@ -509,7 +515,7 @@ namespace AxionWKB {
 			complex<double> pha ;
 
 			// WKB phase
-			double phase = sss(k2);
+			double phase = sss(slow(k2));
 			pha = exp(im*phase);
 			pha *= prepha;
 
-- 
2.43.0

