From e807cc2fd863eb74130998b4454b3ee241c47de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 01/42] fix: sum the trace of all threads in the OpenMP AIC of
 generalized GWR

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..383a3f6 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -750,7 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From f825c12e6c9007064e35e32a22091681cd992837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 02/42] fix: size the OpenMP prediction of local-collinearity
 GWR by its variables

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..1c1e274 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -475,7 +475,7 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = x.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
-- 
2.43.0


From 74c647cfed4c7cbb159a63070ba7f85e3ba6f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 03/42] fix: leave the sample itself out in OpenMP discriminant
 analysis, as serial does

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..aedbd1c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -126,6 +126,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From 0a8ef4f91f9452726f68a2ff6ecc2be3815ee7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 04/42] fix: do not turn the training data of a GWDA run into
 prediction data of the next

---
 src/gwmodelpp/GWDA.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index aedbd1c..e5f5e78 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -35,14 +35,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
@@ -105,11 +97,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -129,11 +121,11 @@ void GWDA::discriminantAnalysisOmp()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From e80c7c19816a4e730c054b5ba9be68c8b7c58501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:12 +0000
Subject: [PATCH 05/42] fix: report a failing local model from the OpenMP
 selection cores of GWR and MGWR

---
 src/gwmodelpp/GWRBasic.cpp      | 12 ++++++++++++
 src/gwmodelpp/GWRMultiscale.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..eaaa4a8 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -518,6 +518,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -551,6 +557,7 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     int flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..ebcde25 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -684,6 +684,7 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
     uword nDp = mCoords.n_rows;
     vec beta(nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -704,10 +705,15 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return beta;
 }
 
@@ -717,6 +723,7 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
     vec betas(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -741,10 +748,15 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From e1abeb4cc38cfbf3ea69a05170872a41bc9fb238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:36 +0000
Subject: [PATCH 06/42] fix: report a failing local model from the OpenMP fit
 of GWDR

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..b297832 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From dabb28ed10632b446071667688f88087f8e571bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:36 +0000
Subject: [PATCH 07/42] fix: merge the coefficients of MPI ranks in MGWR by
 sum, so negative ones survive

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ebcde25..eace887 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -962,7 +962,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -997,7 +997,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1038,7 +1038,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From 1351122a871563e66e45fe0923d4c71945db69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:36 +0000
Subject: [PATCH 08/42] fix: let MPI ranks without any sample take part in GWR
 and MGWR

---
 src/gwmodelpp/GWRBasic.cpp      | 12 ++++++------
 src/gwmodelpp/GWRMultiscale.cpp |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index eaaa4a8..d160035 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -93,7 +93,7 @@ mat GWRBasic::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         // cout << mWorkerId << " process work range: [" << workRangeFrom << "," << min(workRangeFrom + mWorkRangeSize, nDp) << "]\n";
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
         // cout << mWorkerId << " process work range: [" << mWorkRange.value().first << "," << mWorkRange.value().second << "]\n";
@@ -970,14 +970,14 @@ arma::mat gwm::GWRBasic::fitMpi()
         MPI_Recv(buf.get(), bufSize, MPI_DOUBLE, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &status);
         // printf("0 process received message with %d from %d\n", status.MPI_TAG, status.MPI_SOURCE);
         received(status.MPI_SOURCE, status.MPI_TAG - int(GWRBasicFitMpiTags::Betas)) = 1;
-        uword rangeFrom = status.MPI_SOURCE * mWorkRangeSize, rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
+        uword rangeFrom = min(status.MPI_SOURCE * mWorkRangeSize, nDp), rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
         switch (GWRBasicFitMpiTags(status.MPI_TAG))
         {
         case GWRBasicFitMpiTags::Betas:
-            mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::BetasSE:
-            mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::SHat:
             shat_all.col(status.MPI_SOURCE) = vec(buf.get(), 2);
@@ -1006,8 +1006,8 @@ arma::mat gwm::GWRBasic::fitMpi()
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     // printf("%d process work range: [%lld, %lld]\n", mWorkerId, workRange.first, workRange.second);
     // cout << mWorkerId << " process work range: [" << workRange.first << "," << workRange.second << "]\n";
-    mat betas = mBetas.cols(workRange.first, workRange.second - 1);
-    mat betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    mat betas = (workRange.first < workRange.second) ? mat(mBetas.cols(workRange.first, workRange.second - 1)) : mat(nVar, 0);
+    mat betasSE = (workRange.first < workRange.second) ? mat(mBetasSE.cols(workRange.first, workRange.second - 1)) : mat(nVar, 0);
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::Betas), MPI_COMM_WORLD);
     MPI_Send(betasSE.memptr(), betasSE.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::BetasSE), MPI_COMM_WORLD);
     MPI_Send(mSHat.memptr(), mSHat.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::SHat), MPI_COMM_WORLD);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index eace887..f60bf82 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -173,7 +173,7 @@ mat GWRMultiscale::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
@@ -258,7 +258,7 @@ mat GWRMultiscale::fit()
         if (mParallelType & ParallelType::MPI)
         {
             vec shati(2);
-            shati(0) = trace(mS0.cols(workRange.first, workRange.second - 1));
+            shati(0) = (workRange.first < workRange.second) ? trace(mS0.cols(workRange.first, workRange.second - 1)) : 0;
             shati(1) = trace(mS0 * mS0.t());
             MPI_Reduce(shati.memptr(), shat.memptr(), 2, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
             MPI_Bcast(shat.memptr(), 2, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-- 
2.43.0


From 4b749766d4c4619f447f605e4b748f66a3294405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 09/42] fix: a local model failing on one MPI rank no longer
 blocks the other ranks

---
 src/gwmodelpp/GWRBasic.cpp      | 64 +++++++++++++++++++++++++++++----
 src/gwmodelpp/GWRMultiscale.cpp | 19 +++++++++-
 2 files changed, 76 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index d160035..d272265 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -848,7 +848,19 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    int status = 1, statusAll = 0;
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    }
+    catch(const std::exception& e)
+    {
+        status = 0;
+    }
+    MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (!statusAll)
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -886,7 +898,19 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    int status = 1, statusAll = 0;
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    }
+    catch(const std::exception& e)
+    {
+        status = 0;
+    }
+    MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (!statusAll)
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -905,7 +929,7 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicCVMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&cv, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return cv;
+    return isfinite(cv) ? cv : DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
@@ -913,7 +937,19 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    int status = 1, statusAll = 0;
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    }
+    catch(const std::exception& e)
+    {
+        status = 0;
+    }
+    MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (!statusAll)
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -943,14 +979,30 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    return isfinite(aic) ? aic : DBL_MAX;
 }
 
 arma::mat gwm::GWRBasic::fitMpi()
 {
     // fit GWR on each process
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
-    mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    int status = 1, statusAll = 0;
+    std::exception except;
+    try
+    {
+        mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    }
+    catch(const std::exception& e)
+    {
+        except = e;
+        status = 0;
+    }
+    // a process that failed must not leave the others waiting for its results
+    MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (!statusAll)
+    {
+        throw except;
+    }
     mBetasSE = mBetasSE.t();
     mS = mS.t();
     // gather results to master process
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index f60bf82..89b58cd 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -960,7 +960,24 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
 {
     uword nDp = mXi.n_rows;
     mat S;
-    vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    vec beta_p;
+    int status = 1, statusAll = 0;
+    std::exception except;
+    try
+    {
+        beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    }
+    catch(const std::exception& e)
+    {
+        except = e;
+        status = 0;
+    }
+    // a process that failed must not leave the others waiting for its results
+    MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (!statusAll)
+    {
+        throw except;
+    }
     vec beta(nDp);
     MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
-- 
2.43.0


From bb1a48b27c22c60ecc793442ac0dcb20d7132a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:09 +0000
Subject: [PATCH 10/42] fix: forward selection must not read before its first
 model

---
 src/gwmodelpp/VariableForwardSelector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..7d71a70 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -65,7 +65,8 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    if (models.empty()) return make_pair(vector<size_t>(), DBL_MAX);
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From b055523426b2f9c68db9d9b5a5496936d753f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:49 +0000
Subject: [PATCH 11/42] fix: report a failing local model from the OpenMP loops
 of local-collinearity GWR

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 215 +++++++++++++++----------
 1 file changed, 128 insertions(+), 87 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 1c1e274..61a1892 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -275,40 +275,53 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
-    uword current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        //int thread = omp_get_thread_num();
-        vec distvi = mSpatialWeight.distance()->distance(i);
-        vec wgt = bandwidthWeight->weight(distvi);
-        //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
-        wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
-        mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
-        //计算x1w
-        mat x1w = mX % (wgt * wgtspan1);
-        //计算用于SVD分解的矩阵
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            //int thread = omp_get_thread_num();
+            vec distvi = mSpatialWeight.distance()->distance(i);
+            vec wgt = bandwidthWeight->weight(distvi);
+            //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
+            wgt(i) = 0;
+            mat wgtspan(1,mXnot1.n_cols,fill::ones);
+            mat wgtspan1(1,mX.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wgt * wgtspan);
+            //计算x1w
+            mat x1w = mX % (wgt * wgtspan1);
+            //计算用于SVD分解的矩阵
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
-        current++;
+        catch (const std::exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -425,47 +438,60 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        int thread = omp_get_thread_num();
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            int thread = omp_get_thread_num();
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+            GWM_LOG_PROGRESS(i + 1, nDp);
+        }
+        catch (const std::exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
-        GWM_LOG_PROGRESS(i + 1, nDp);
+    }
+    if (!success)
+    {
+        throw except;
     }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
@@ -483,36 +509,51 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
 
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        GWM_LOG_PROGRESS(i + 1, nRp);
+        catch (const std::exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
-- 
2.43.0


From e072617184ebec3e5123109390e682437ae11697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:15 +0000
Subject: [PATCH 12/42] fix: report a failing local model from the OpenMP
 criteria of generalized GWR

---
 src/gwmodelpp/GWRGeneralized.cpp | 52 +++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 383a3f6..ac6ffee 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -618,17 +618,29 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     vec cv = vec(n);
     mat wt = mat(n, n);
     //int current1 = 0, current2 = 0;
+    bool success = true;
+    exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             vec d = mSpatialWeight.distance()->distance(i);
             vec w = bandwidthWeight->weight(d);
             w.row(i) = 0;
             wt.col(i) = w;
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
@@ -639,7 +651,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             mat wi = wt.col(i) % mWt2;
             vec gwsi = gwPredict(mX, myAdj, wi);
@@ -653,6 +665,16 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
                 cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
             }
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
@@ -716,16 +738,28 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     mat S = mat(n, n);
     mat wt = mat(n, n);
     //int current1 = 0, current2 = 0;
+    bool success = true;
+    exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             vec d = mSpatialWeight.distance()->distance(i);
             vec w = bandwidthWeight->weight(d);
             wt.col(i) = w;
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
     
@@ -737,7 +771,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             int thread = omp_get_thread_num();
             vec wi = wt.col(i) % mWt2;
@@ -745,6 +779,16 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
             S.row(i) = mX.row(i) * Ci;
             trS(thread) += S(i, i);
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-- 
2.43.0


From cc611bad5bead3d9ee124be9ad507ad10831c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 13/42] fix: start every fit, run and predict from a fresh
 status

---
 src/gwmodelpp/GTWR.cpp                 | 2 ++
 src/gwmodelpp/GWDA.cpp                 | 1 +
 src/gwmodelpp/GWDR.cpp                 | 1 +
 src/gwmodelpp/GWPCA.cpp                | 1 +
 src/gwmodelpp/GWRBasic.cpp             | 2 ++
 src/gwmodelpp/GWRGeneralized.cpp       | 2 ++
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 src/gwmodelpp/GWRMultiscale.cpp        | 1 +
 src/gwmodelpp/GWRRobust.cpp            | 2 ++
 src/gwmodelpp/GWRScalable.cpp          | 2 ++
 src/gwmodelpp/GWSS.cpp                 | 1 +
 11 files changed, 17 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..b33cac6 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -28,6 +28,7 @@ RegressionDiagnostic GTWR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GTWR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing")
     createDistanceParameter();
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
@@ -91,6 +92,7 @@ mat GTWR::fit()
 
 mat GTWR::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e5f5e78..9850145 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -28,6 +28,7 @@ bool GWDA::isValid()
 // template<class T>
 void GWDA::run()
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     uword nRp = mCoords.n_rows;
     if(mX.n_cols<2){
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b297832..9dfc5d5 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -31,6 +31,7 @@ RegressionDiagnostic GWDR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GWDR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDims = mCoords.n_cols, nDp = mCoords.n_rows, nVars = mX.n_cols;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..d9d938a 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -5,6 +5,7 @@ using namespace gwm;
 
 void GWPCA::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, void());
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index d272265..5ec5949 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -61,6 +61,7 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
 
 mat GWRBasic::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
 #ifdef ENABLE_MPI
@@ -171,6 +172,7 @@ mat GWRBasic::fit()
 
 mat GWRBasic::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index ac6ffee..2f0250e 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -19,6 +19,7 @@ using namespace gwm;
 
 mat GWRGeneralized::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     // 初始化
     // setXY(mX, mY, mSourceLayer, mDepVar, mIndepVars);
@@ -171,6 +172,7 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     mHasHatMatrix = false;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 61a1892..1f09673 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -38,6 +38,7 @@ GWRLocalCollinearity::~GWRLocalCollinearity()
 
 mat GWRLocalCollinearity::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -99,6 +100,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 89b58cd..bd1af6e 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -79,6 +79,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
 
 mat GWRMultiscale::fit()
 {
+    mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     // ********************************
     // Centering and scaling predictors
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..48c6f8b 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -29,6 +29,7 @@ RegressionDiagnostic GWRRobust::CalcDiagnostic(const mat &x, const vec &y, const
 
 mat GWRRobust::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -106,6 +107,7 @@ mat GWRRobust::fit()
 
 mat GWRRobust::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     size_t nDp = locations.n_rows, nVar = mX.n_cols;
 
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..82fa8c9 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -299,6 +299,7 @@ void GWRScalable::prepare()
 
 mat GWRScalable::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
@@ -462,6 +463,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
 
 mat GWRScalable::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..1e5ec2c 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -62,6 +62,7 @@ bool GWSS::isValid()
 
 void GWSS::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nRp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
-- 
2.43.0


From be8115d58ab35e99e7b9f9d67f3f3306cc77ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:35 +0000
Subject: [PATCH 14/42] fix: let a cancellation reach the initial model of MGWR

---
 src/gwmodelpp/GWRMultiscale.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index bd1af6e..0cbf913 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -77,6 +77,24 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     return diagnostic;
 }
 
+namespace
+{
+
+/**
+ * @brief Telegram of the inner model which is asked to stop whenever the multiscale model is.
+ */
+class InnerTelegram : public Logger
+{
+public:
+    explicit InnerTelegram(ITelegram* outer) : mOuter(outer) {}
+    bool stop() override { return mOuter->stop(); }
+
+private:
+    ITelegram* mOuter;
+};
+
+}
+
 mat GWRMultiscale::fit()
 {
     mStatus = Status::Success;
@@ -101,6 +119,7 @@ mat GWRMultiscale::fit()
     // *****************************************************
     GWM_LOG_STAGE("Calculating initial betas");
     GWRBasic gwr;
+    gwr.setTelegram(make_unique<InnerTelegram>(mTelegram.get()));
     gwr.setCoords(mCoords);
     gwr.setDependentVariable(mY);
     gwr.setIndependentVariables(mX);
@@ -141,6 +160,11 @@ mat GWRMultiscale::fit()
     if (mGoldenUpperBounds.has_value()) gwr.setGoldenUpperBounds(mGoldenUpperBounds.value());
     mat betas = gwr.fit();
     mBetasSE = gwr.betasSE();
+    if (gwr.status() != Status::Success)
+    {
+        mStatus = gwr.status();
+        return mat(nDp, nVar, arma::fill::zeros);
+    }
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     GWM_LOG_STAGE("Initializing");
-- 
2.43.0


From 8c8d4f959022a6b753801bc831918cdee1d67dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 15/42] fix: keep the progress percentage of GGWR and scalable
 GWR within [0,1]

---
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++----
 src/gwmodelpp/GWRScalable.cpp    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 2f0250e..e0c7dee 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -838,7 +838,7 @@ vec GWRGeneralized::PoissonWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- max(diff - mTol, 0.0)));
             break;
         }
         mWt2 = mu;
@@ -879,7 +879,7 @@ vec GWRGeneralized::PoissonWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- max(diff - mTol, 0.0)));
             break;
         }
         mWt2 = mu;
@@ -923,7 +923,7 @@ vec GWRGeneralized::BinomialWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- max(diff - mTol, 0.0)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
@@ -966,7 +966,7 @@ vec GWRGeneralized::BinomialWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- max(diff - mTol, 0.0)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 82fa8c9..5d70568 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -240,7 +240,7 @@ double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, do
             b_tilde = gsl_vector_get(minizer->x, 0);
             alpha = gsl_vector_get(minizer->x, 1);
             cv = minizer->fval;
-            GWM_LOG_PROGRESS_PERCENT(exp(- (size - 1e-6)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- max(size - 1e-6, 0.0)));
         }
         while (status == GSL_CONTINUE && iter < mMaxIter);
         b_tilde = gsl_vector_get(minizer->x, 0);
-- 
2.43.0


From e0f361e670575aded42ac20ed0eb64549bb6eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:35 +0000
Subject: [PATCH 16/42] fix: do not add the hat-matrix traces of earlier fits
 of local-collinearity GWR

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 1f09673..0313e84 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -349,6 +349,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0;
+    this->mTrStS = 0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-- 
2.43.0


From 3838b1180050e3c5040b05d89bf5770fa0ef6500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:35 +0000
Subject: [PATCH 17/42] fix: MGWR left the AIC of its diagnostic undefined

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 0cbf913..d4ffbe7 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From 0ba0e8304b9e9d1bb3b11d4fdbf98f1c4d5879f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:06 +0000
Subject: [PATCH 18/42] fix: keep the candidates of an adaptive bandwidth
 search within its bounds

---
 src/gwmodelpp/BandwidthSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..0d93b09 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -42,7 +42,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = min(adaptBw ? round(xL + d) : (xL + d), mUpper);
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -53,7 +53,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = max(adaptBw ? floor(xU - d) : (xU - d), mLower);
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From 83329e72ba99311e8d94be73a529ac87ec07d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:25 +0000
Subject: [PATCH 19/42] fix: do not select a variable combination that could
 not be solved

---
 src/gwmodelpp/VariableForwardSelector.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 7d71a70..f50438b 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -1,5 +1,7 @@
 #include "VariableForwardSelector.h"
 
+#include <algorithm>
+
 #include "armadillo_config.h"
 
 using namespace arma;
@@ -68,12 +70,14 @@ pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<
     if (models.empty()) return make_pair(vector<size_t>(), DBL_MAX);
     for (size_t i = models.size() - 1; i > 0; i--)
     {
-        if (models[i - 1].second - models[i].second >= mThreshold)
+        if (models[i].second < DBL_MAX && models[i - 1].second - models[i].second >= mThreshold)
         {
             return models[i];
         }
     }
-    return models.back();
+    // no combination improves enough: the last one, unless its model could not be solved
+    auto last = find_if(models.rbegin(), models.rend(), [](const pair<vector<size_t>, double>& model) { return model.second < DBL_MAX; });
+    return last != models.rend() ? *last : models.back();
 }
 
 VariablesCriterionList VariableForwardSelector::indepVarsCriterion() const
-- 
2.43.0


From d391304354d2740ad5b90aa9d4e8e0a3a51573cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:25 +0000
Subject: [PATCH 20/42] fix: respect the golden bounds in robust GWR

---
 src/gwmodelpp/GWRRobust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 48c6f8b..cd052f5 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -63,8 +63,8 @@ mat GWRRobust::fit()
     {
         GWM_LOG_STAGE("Bandwidth selection");
         BandwidthWeight* bw0 = mSpatialWeight.weight<BandwidthWeight>();
-        double lower = bw0->adaptive() ? 20 : 0.0;
-        double upper = bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance();
+        double lower = mGoldenLowerBounds.value_or(bw0->adaptive() ? 20 : 0.0);
+        double upper = mGoldenUpperBounds.value_or(bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance());
         
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
-- 
2.43.0


From 406e40f558190be86e72cb6a221587ed92e56909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 21/42] fix: search fixed initial bandwidths of MGWR over the
 distances of its samples

---
 src/gwmodelpp/GWRMultiscale.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index d4ffbe7..8dbb5a1 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -224,6 +224,11 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+        {
+            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
+        }
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -231,9 +236,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
-
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
             selector.setBandwidth(bw0);
-- 
2.43.0


From 6c73b724e7c6777a942dde00a726addb81dc1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 22/42] fix: release the bandwidths made by a bandwidth search

---
 src/gwmodelpp/BandwidthSelector.cpp    | 16 ++++++++--------
 src/gwmodelpp/GTWR.cpp                 |  1 +
 src/gwmodelpp/GWRBasic.cpp             |  1 +
 src/gwmodelpp/GWRGeneralized.cpp       |  1 +
 src/gwmodelpp/GWRLocalCollinearity.cpp |  1 +
 src/gwmodelpp/GWRMultiscale.cpp        |  2 ++
 src/gwmodelpp/GWRRobust.cpp            |  1 +
 7 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index 0d93b09..ad0d05a 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -1,12 +1,14 @@
 #include "BandwidthSelector.h"
 
+#include <memory>
+
 using namespace std;
 using namespace gwm;
 
 BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
 {
-    BandwidthWeight* w1 = static_cast<BandwidthWeight*>(mBandwidth->clone());
-    BandwidthWeight* w2 = static_cast<BandwidthWeight*>(mBandwidth->clone());
+    unique_ptr<BandwidthWeight> w1(static_cast<BandwidthWeight*>(mBandwidth->clone()));
+    unique_ptr<BandwidthWeight> w2(static_cast<BandwidthWeight*>(mBandwidth->clone()));
     double xU = mUpper, xL = mLower;
     bool adaptBw = mBandwidth->adaptive();
     const double eps = 1e-4;
@@ -18,8 +20,8 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
     w1->setBandwidth(x1);
     w2->setBandwidth(x2);
     double f1 = DBL_MAX, f2 = DBL_MAX;
-    Status s1 = instance->getCriterion(w1, f1);
-    Status s2 = instance->getCriterion(w2, f2);
+    Status s1 = instance->getCriterion(w1.get(), f1);
+    Status s2 = instance->getCriterion(w2.get(), f2);
     if (!(s1 == Status::Success && s2 == Status::Success))
     {
         return mBandwidth;
@@ -45,7 +47,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
             x1 = min(adaptBw ? round(xL + d) : (xL + d), mUpper);
             f2 = f1;
             w1->setBandwidth(x1);
-            s1 = instance->getCriterion(w1, f1);
+            s1 = instance->getCriterion(w1.get(), f1);
             if (f1 < DBL_MAX)
                 mBandwidthCriterion[x1] = f1;
         }
@@ -56,7 +58,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
             x2 = max(adaptBw ? floor(xU - d) : (xU - d), mLower);
             f1 = f2;
             w2->setBandwidth(x2);
-            s2 = instance->getCriterion(w2, f2);
+            s2 = instance->getCriterion(w2.get(), f2);
             if (f2 < DBL_MAX)
                 mBandwidthCriterion[x2] = f2;
         }
@@ -64,8 +66,6 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         xopt = (f1 < f2) ? x1 : x2;
         d1 = f2 - f1;
     }
-    delete w1;
-    delete w2;
     if (s1 == Status::Success && s2 == Status::Success)
     {
         BandwidthWeight* wopt = new BandwidthWeight();
diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index b33cac6..640eb1a 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -44,6 +44,7 @@ mat GTWR::fit()
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
         BandwidthWeight *bw = selector.optimize(this);
+        unique_ptr<BandwidthWeight> selected(bw != bw0 ? bw : nullptr);
         if (bw)
         {
             mSpatialWeight.setWeight(bw);
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 5ec5949..4599504 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -143,6 +143,7 @@ mat GWRBasic::fit()
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
         BandwidthWeight* bw = selector.optimize(this);
+        unique_ptr<BandwidthWeight> selected(bw != bw0 ? bw : nullptr);
         if (bw)
         {
             mSpatialWeight.setWeight(bw);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index e0c7dee..d972e08 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -42,6 +42,7 @@ mat GWRGeneralized::fit()
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
         BandwidthWeight *bw = selector.optimize(this);
+        unique_ptr<BandwidthWeight> selected(bw != bw0 ? bw : nullptr);
         if (bw)
         {
             mSpatialWeight.setWeight(bw);
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 0313e84..d41a3cd 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -57,6 +57,7 @@ mat GWRLocalCollinearity::fit()
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
         BandwidthWeight* bw = selector.optimize(this);
+        unique_ptr<BandwidthWeight> selected(bw != bw0 ? bw : nullptr);
         if (bw)
         {
             mSpatialWeight.setWeight(bw);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 8dbb5a1..ba78536 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -242,6 +242,7 @@ mat GWRMultiscale::fit()
             selector.setLower(mGoldenLowerBounds.value_or(adaptive ? mAdaptiveLower : mMinDistances[i]));
             selector.setUpper(mGoldenUpperBounds.value_or(adaptive ? mCoords.n_rows : mMaxDistances[i]));
             BandwidthWeight* bw = selector.optimize(this);
+            unique_ptr<BandwidthWeight> selected(bw != bw0 ? bw : nullptr);
             if (bw)
             {
                 mSpatialWeights[i].setWeight(bw);
@@ -357,6 +358,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
                 selector.setLower(mGoldenLowerBounds.value_or(adaptive ? mAdaptiveLower : minDist));
                 selector.setUpper(mGoldenUpperBounds.value_or(adaptive ? mCoords.n_rows : maxDist));
                 BandwidthWeight* bwi = selector.optimize(this);
+                unique_ptr<BandwidthWeight> selected(bwi != bwi0 ? bwi : nullptr);
                 double bwi0s = bwi0->bandwidth(), bwi1s = bwi->bandwidth();
                 vector<string> vbs_args {
                     to_string(i),
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index cd052f5..f366371 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -69,6 +69,7 @@ mat GWRRobust::fit()
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
         BandwidthWeight* bw = selector.optimize(this);
+        unique_ptr<BandwidthWeight> selected(bw != bw0 ? bw : nullptr);
         if (bw)
         {
             mSpatialWeight.setWeight(bw);
-- 
2.43.0


From 123aa5b807d31dba5ce6de2e5573b6f718530f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:05 +0000
Subject: [PATCH 23/42] fix: free the distances of a space-time distance and
 the global model of generalized GWR

---
 include/gwmodelpp/GeneralizedLinearModel.h      |  3 ++-
 include/gwmodelpp/LinearModel.h                 |  2 ++
 include/gwmodelpp/spatialweight/CRSSTDistance.h | 12 ++++++------
 src/gwmodelpp/GeneralizedLinearModel.cpp        |  4 ++--
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp   | 14 ++++++--------
 5 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/gwmodelpp/GeneralizedLinearModel.h b/include/gwmodelpp/GeneralizedLinearModel.h
index 719968f..7cc6909 100644
--- a/include/gwmodelpp/GeneralizedLinearModel.h
+++ b/include/gwmodelpp/GeneralizedLinearModel.h
@@ -1,6 +1,7 @@
 #ifndef GENERALIZEDLINEARMODEL_H
 #define GENERALIZEDLINEARMODEL_H
 
+#include <memory>
 #include "armadillo_config.h"
 #include "LinearModel.h"
 #include "GWRGeneralized.h"
@@ -23,7 +24,7 @@ protected:
     int mMaxit;
     bool mIntercept;
     arma::mat mOffset;
-    LinearModel* mModel;
+    std::unique_ptr<LinearModel> mModel;
 
     arma::mat mMuStart;
     double mDev;
diff --git a/include/gwmodelpp/LinearModel.h b/include/gwmodelpp/LinearModel.h
index e977b42..97f1180 100644
--- a/include/gwmodelpp/LinearModel.h
+++ b/include/gwmodelpp/LinearModel.h
@@ -9,6 +9,8 @@ namespace gwm
 class LinearModel
 {
 public:
+    virtual ~LinearModel() {}
+
     virtual arma::mat initialize() = 0;
     virtual arma::mat variance(arma::mat mu) = 0;
     virtual arma::mat linkinv(arma::mat eta) = 0;
diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index 01df73d..e9ea077 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -99,7 +99,7 @@ public:
      */
     arma::vec distance(arma::uword focus) override
     {
-        return mCalculator(mSpatialDistance, mTemporalDistance, focus, mLambda, mAngle);
+        return mCalculator(mSpatialDistance.get(), mTemporalDistance.get(), focus, mLambda, mAngle);
     }
 
     /**
@@ -111,11 +111,11 @@ public:
 
 public:
 
-    //const gwm::CRSDistance* spatialDistance() const { return mSpatialDistance; }
+    //const gwm::CRSDistance* spatialDistance() const { return mSpatialDistance.get(); }
 
-    const Distance* spatialDistance() const { return mSpatialDistance; }
+    const Distance* spatialDistance() const { return mSpatialDistance.get(); }
 
-    const gwm::OneDimDistance* temporalDistance() const { return mTemporalDistance; }
+    const gwm::OneDimDistance* temporalDistance() const { return mTemporalDistance.get(); }
 
     // unused code to set lambda
     // double lambda() const { return mLambda; }
@@ -129,8 +129,8 @@ public:
     }
 
 protected:
-    Distance* mSpatialDistance = nullptr;  //!< \~english Pointer to instance for spatial distance \~chinese 指向空间距离的指针
-    gwm::OneDimDistance* mTemporalDistance = nullptr;  //!< \~english Pointer to instance for temporal distance \~chinese 指向时间距离的指针
+    std::unique_ptr<Distance> mSpatialDistance;  //!< \~english Pointer to instance for spatial distance \~chinese 指向空间距离的指针
+    std::unique_ptr<gwm::OneDimDistance> mTemporalDistance;  //!< \~english Pointer to instance for temporal distance \~chinese 指向时间距离的指针
 
     double mLambda = 0.0;  //!< \~english Weight of temporal distance \~chinese 时间距离的权重
     double mAngle = arma::datum::pi / 2;  //!< \~english Angle of spatial distance and temporal distance \~chinese 斜交时空距离的角度
diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index e49492d..b8bf2fe 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -31,12 +31,12 @@ void GeneralizedLinearModel::fit(){
     }
     if(mFamily == GWRGeneralized::Family::Poisson){
         //初始化模型
-        mModel = new PoissonModel();
+        mModel = make_unique<PoissonModel>();
         mModel->setY(mY);
         mModel->setWeight(mWeight);
     }
     else{
-        mModel = new BinomialModel();
+        mModel = make_unique<BinomialModel>();
         mModel->setY(mY);
         mModel->setWeight(mWeight);
     }
diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..142134c 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -47,8 +47,6 @@ vec CRSSTDistance::ObliqueSTDistance(Distance* spatial, gwm::OneDimDistance* tem
 }
 
 CRSSTDistance::CRSSTDistance() : 
-    mSpatialDistance(nullptr),
-    mTemporalDistance(nullptr),
     mLambda(0.0),
     mAngle(datum::pi / 2.0)
 {
@@ -59,9 +57,9 @@ CRSSTDistance::CRSSTDistance(Distance* spatialDistance, gwm::OneDimDistance* tem
     mLambda(lambda),
     mAngle(datum::pi / 2.0)
 {
-    mSpatialDistance = spatialDistance->clone();
+    mSpatialDistance.reset(spatialDistance->clone());
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(spatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(temporalDistance->clone());
+    mTemporalDistance.reset(static_cast<gwm::OneDimDistance*>(temporalDistance->clone()));
     mCalculator = &OrthogonalSTDistance;
 }
 
@@ -69,9 +67,9 @@ CRSSTDistance::CRSSTDistance(Distance* spatialDistance, gwm::OneDimDistance* tem
     mLambda(lambda),
     mAngle(atan(tan(angle)))
 {
-    mSpatialDistance = spatialDistance->clone();
+    mSpatialDistance.reset(spatialDistance->clone());
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(spatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(temporalDistance->clone());
+    mTemporalDistance.reset(static_cast<gwm::OneDimDistance*>(temporalDistance->clone()));
     mCalculator = (abs(mAngle - datum::pi / 2.0) < 1e-15) ? &OrthogonalSTDistance : &ObliqueSTDistance;
 }
 
@@ -83,9 +81,9 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance = distance.mSpatialDistance->clone();
+    mSpatialDistance.reset(distance.mSpatialDistance->clone());
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    mTemporalDistance.reset(static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone()));
     mCalculator=distance.mCalculator;
 }
 
-- 
2.43.0


From 271c9d7d7f80fa09ed4ed4ec0ece9d72e8d8e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:30 +0000
Subject: [PATCH 24/42] fix: report an exhausted memory from the OpenMP loops
 instead of terminating the process

---
 src/gwmodelpp/GTWR.cpp          | 38 ++++++-------
 src/gwmodelpp/GWDA.cpp          | 17 +++++-
 src/gwmodelpp/GWDR.cpp          | 78 +++++++++++++--------------
 src/gwmodelpp/GWRBasic.cpp      | 34 ++++++------
 src/gwmodelpp/GWRMultiscale.cpp | 34 ++++++------
 src/gwmodelpp/GWRRobust.cpp     |  8 +--
 src/gwmodelpp/GWSS.cpp          | 94 ++++++++++++++++++++++-----------
 7 files changed, 174 insertions(+), 129 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 640eb1a..8139976 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -295,12 +295,12 @@ mat GTWR::predictOmp(const mat& locations, const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -337,12 +337,12 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -388,14 +388,14 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec d = mSpatialWeight.distance()->distance(i);
-            vec w = bandwidthWeight->weight(d);
-            w(i) = 0.0;
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
             try
             {
+                vec d = mSpatialWeight.distance()->distance(i);
+                vec w = bandwidthWeight->weight(d);
+                w(i) = 0.0;
+                mat xtw = trans(mX.each_col() % w);
+                mat xtwx = xtw * mX;
+                mat xtwy = xtw * mY;
                 mat xtwx_inv = inv_sympd(xtwx);
                 vec beta = xtwx_inv * xtwy;
                 double res = mY(i) - det(mX.row(i) * beta);
@@ -434,13 +434,13 @@ double GTWR::bandwidthSizeCriterionAICOmp(BandwidthWeight* bandwidthWeight)
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec d = mSpatialWeight.distance()->distance(i);
-            vec w = bandwidthWeight->weight(d);
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
             try
             {
+                vec d = mSpatialWeight.distance()->distance(i);
+                vec w = bandwidthWeight->weight(d);
+                mat xtw = trans(mX.each_col() % w);
+                mat xtwx = xtw * mX;
+                mat xtwy = xtw * mY;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 9850145..54d4554 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -114,10 +114,25 @@ void GWDA::discriminantAnalysisOmp()
     // uword nVar = mX.n_cols;//nPr = mprX.n_rows;
     vector<string> lev = levels(mY);
     mat wt(nRp, nRp, fill::zeros);
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
     {
-        wt.col(i) = mSpatialWeight.weightVector(i);
+        try
+        {
+            wt.col(i) = mSpatialWeight.weightVector(i);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 9dfc5d5..cb7f43d 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -173,18 +173,18 @@ mat GWDR::predictOmp(const mat& locations, const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w(nDp, arma::fill::ones);
-            for (auto&& sw : mSpatialWeights)
-            {
-                vec w_m = sw.weightVector(i);
-                w = w % w_m;
-            }
-            mat ws(1, nVar, arma::fill::ones);
-            mat xtw = (x %(w * ws)).t();
-            mat xtwx = xtw * x;
-            mat xtwy = x.t() * (w % y);
             try
             {
+                vec w(nDp, arma::fill::ones);
+                for (auto&& sw : mSpatialWeights)
+                {
+                    vec w_m = sw.weightVector(i);
+                    w = w % w_m;
+                }
+                mat ws(1, nVar, arma::fill::ones);
+                mat xtw = (x %(w * ws)).t();
+                mat xtwx = xtw * x;
+                mat xtwy = x.t() * (w % y);
                 mat xtwx_inv = xtwx.i();
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -275,18 +275,18 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
         int thread = omp_get_thread_num();
         if (success)
         {
-            vec w(nDp, arma::fill::ones);
-            for (auto&& sw : mSpatialWeights)
-            {
-                vec w_m = sw.weightVector(i);
-                w = w % w_m;
-            }
-            mat ws(1, nVar, arma::fill::ones);
-            mat xtw = trans(x %(w * ws));
-            mat xtwx = xtw * x;
-            mat xtwy = trans(x) * (w % y);
             try
             {
+                vec w(nDp, arma::fill::ones);
+                for (auto&& sw : mSpatialWeights)
+                {
+                    vec w_m = sw.weightVector(i);
+                    w = w % w_m;
+                }
+                mat ws(1, nVar, arma::fill::ones);
+                mat xtw = trans(x %(w * ws));
+                mat xtwx = xtw * x;
+                mat xtwy = trans(x) * (w % y);
                 mat xtwx_inv = xtwx.i();
                 betas.col(i) = xtwx_inv * xtwy;
                 // hatmatrix
@@ -482,18 +482,18 @@ double GWDR::bandwidthCriterionAICOmp(const vector<BandwidthWeight*>& bandwidths
         int thread = omp_get_thread_num();
         if (success)
         {
-            vec w(nDp, arma::fill::ones);
-            for (size_t m = 0; m < nDim; m++)
-            {
-                vec d_m = mSpatialWeights[m].distance()->distance(i);
-                vec w_m = bandwidths[m]->weight(d_m);
-                w = w % w_m;
-            }
-            mat xtw = (mX.each_col() % w).t();
-            mat xtwx = xtw * mX;
-            mat xtwy = mX.t() * (w % mY);
             try
             {
+                vec w(nDp, arma::fill::ones);
+                for (size_t m = 0; m < nDim; m++)
+                {
+                    vec d_m = mSpatialWeights[m].distance()->distance(i);
+                    vec w_m = bandwidths[m]->weight(d_m);
+                    w = w % w_m;
+                }
+                mat xtw = (mX.each_col() % w).t();
+                mat xtwx = xtw * mX;
+                mat xtwy = mX.t() * (w % mY);
                 mat xtwx_inv = xtwx.i();
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -652,17 +652,17 @@ double GWDR::indepVarCriterionOmp(const vector<size_t>& indepVars)
             int thread = omp_get_thread_num();
             if (success)
             {
-                vec w(nDp, arma::fill::ones);
-                for (auto&& sw : mSpatialWeights)
-                {
-                    vec w_m = sw.weightVector(i);
-                    w = w % w_m;
-                }
-                mat xtw = (x.each_col() % w).t();
-                mat xtwx = xtw * x;
-                mat xtwy = xtw * y;
                 try
                 {
+                    vec w(nDp, arma::fill::ones);
+                    for (auto&& sw : mSpatialWeights)
+                    {
+                        vec w_m = sw.weightVector(i);
+                        w = w % w_m;
+                    }
+                    mat xtw = (x.each_col() % w).t();
+                    mat xtwx = xtw * x;
+                    mat xtwy = xtw * y;
                     mat xtwx_inv = inv_sympd(xtwx);
                     betas.col(i) = xtwx_inv * xtwy;
                     mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 4599504..d60109d 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -433,12 +433,12 @@ mat GWRBasic::predictOmp(const mat& locations, const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -478,12 +478,12 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -529,13 +529,13 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (flag)
         {
-            vec w = sw.weightVector(i);
-            w(i) = 0.0;
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
             try
             {
+                vec w = sw.weightVector(i);
+                w(i) = 0.0;
+                mat xtw = trans(mX.each_col() % w);
+                mat xtwx = xtw * mX;
+                mat xtwy = xtw * mY;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -569,12 +569,12 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ba78536..1e82a98 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -658,12 +658,12 @@ vec GWRMultiscale::fitVarCoreOmp(const vec &x, const vec &y, const SpatialWeight
         for (uword i = workRange.first; i < workRange.second; i++)
         {
             GWM_LOG_STOP_CONTINUE(mStatus);
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -685,12 +685,12 @@ vec GWRMultiscale::fitVarCoreOmp(const vec &x, const vec &y, const SpatialWeight
         for (uword i = workRange.first; i < workRange.second; i++)
         {
             GWM_LOG_STOP_CONTINUE(mStatus);
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -723,13 +723,13 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (flag)
         {
-            vec w = sw.weightVector(i);
-            w(i) = 0.0;
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                w(i) = 0.0;
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 beta(i) = as_scalar(xtwx_inv * xtwy);
             }
@@ -763,12 +763,12 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas(i) = as_scalar(xtwx_inv * xtwy);
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index f366371..005af83 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -187,12 +187,12 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = mSpatialWeight.weightVector(i) % mWeightMask;
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i) % mWeightMask;
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 1e5ec2c..c90d7fe 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -180,31 +180,46 @@ void GWSS::GWAverageOmp()
     rankX.each_col([&](vec &x) { x = rank(x); });
     uword nVar = mX.n_cols;
     uword nRp = mCoords.n_rows;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec w = mSpatialWeight.weightVector(i);
-        double sumw = sum(w);
-        vec Wi = w / sumw;
-        mLocalMean.row(i) = trans(Wi) * mX;
-        if (mQuantile)
+        try
         {
-            mat quant = mat(3, nVar);
-            for (uword j = 0; j < nVar; j++)
+            vec w = mSpatialWeight.weightVector(i);
+            double sumw = sum(w);
+            vec Wi = w / sumw;
+            mLocalMean.row(i) = trans(Wi) * mX;
+            if (mQuantile)
             {
-                quant.col(j) = findq(mX.col(j), Wi);
+                mat quant = mat(3, nVar);
+                for (uword j = 0; j < nVar; j++)
+                {
+                    quant.col(j) = findq(mX.col(j), Wi);
+                }
+                mLocalMedian.row(i) = quant.row(1);
+                mIQR.row(i) = quant.row(2) - quant.row(0);
+                mQI.row(i) = (2 * quant.row(1) - quant.row(2) - quant.row(0)) / mIQR.row(i);
             }
-            mLocalMedian.row(i) = quant.row(1);
-            mIQR.row(i) = quant.row(2) - quant.row(0);
-            mQI.row(i) = (2 * quant.row(1) - quant.row(2) - quant.row(0)) / mIQR.row(i);
+            mat centerized = mX.each_row() - mLocalMean.row(i);
+            mLVar.row(i) = Wi.t() * (centerized % centerized);
+            mStandardDev.row(i) = sqrt(mLVar.row(i));
+            mLocalSkewness.row(i) = (Wi.t() * (centerized % centerized % centerized)) / (mLVar.row(i) % mStandardDev.row(i));
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        mat centerized = mX.each_row() - mLocalMean.row(i);
-        mLVar.row(i) = Wi.t() * (centerized % centerized);
-        mStandardDev.row(i) = sqrt(mLVar.row(i));
-        mLocalSkewness.row(i) = (Wi.t() * (centerized % centerized % centerized)) / (mLVar.row(i) % mStandardDev.row(i));
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     mLCV = mStandardDev / mLocalMean;
 }
 #endif
@@ -219,33 +234,48 @@ void GWSS::GWCorrelationOmp()
     uword corrSize = mIsCorrWithFirstOnly ? 1 : nVar - 1;
     if (nVar >= 2)
     {
+        bool success = true;
+        std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
         for (uword i = 0; i < nRp; i++)
         {
             GWM_LOG_STOP_CONTINUE(mStatus);
-            vec w = mSpatialWeight.weightVector(i);
-            double sumw = sum(w);
-            vec Wi = w / sumw;
-            mLocalMean.row(i) = trans(Wi) * mX;
-            mat centerized = mX.each_row() - mLocalMean.row(i);
-            mLVar.row(i) = Wi.t() * (centerized % centerized);
-            uword tag = 0;
-            for (uword j = 0; j < corrSize; j++)
+            try
             {
-                for (uword k = j + 1; k < nVar; k++)
+                vec w = mSpatialWeight.weightVector(i);
+                double sumw = sum(w);
+                vec Wi = w / sumw;
+                mLocalMean.row(i) = trans(Wi) * mX;
+                mat centerized = mX.each_row() - mLocalMean.row(i);
+                mLVar.row(i) = Wi.t() * (centerized % centerized);
+                uword tag = 0;
+                for (uword j = 0; j < corrSize; j++)
                 {
-                    double covjk = covwt(mX.col(j), mX.col(k), Wi);
-                    double sumW2 = sum(Wi % Wi);
-                    double covjj = mLVar(i, j) / (1.0 - sumW2);
-                    double covkk = mLVar(i, k) / (1.0 - sumW2);
-                    mCovmat(i, tag) = covjk;
-                    mCorrmat(i, tag) = covjk / sqrt(covjj * covkk);
-                    mSCorrmat(i, tag) = corwt(rankX.col(j), rankX.col(k), Wi);
-                    tag++;
+                    for (uword k = j + 1; k < nVar; k++)
+                    {
+                        double covjk = covwt(mX.col(j), mX.col(k), Wi);
+                        double sumW2 = sum(Wi % Wi);
+                        double covjj = mLVar(i, j) / (1.0 - sumW2);
+                        double covkk = mLVar(i, k) / (1.0 - sumW2);
+                        mCovmat(i, tag) = covjk;
+                        mCorrmat(i, tag) = covjk / sqrt(covjj * covkk);
+                        mSCorrmat(i, tag) = corwt(rankX.col(j), rankX.col(k), Wi);
+                        tag++;
+                    }
                 }
             }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                except = e;
+                success = false;
+            }
             GWM_LOG_PROGRESS(i + 1, nRp);
         }
+        if (!success)
+        {
+            throw except;
+        }
     }
     else{
         throw std::runtime_error("The number of cols must be 2 or more.");
-- 
2.43.0


From 3c4a5c7fb0d60d0efe5255a19faebd71cb431475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 25/42] fix: keep a spatial weight intact when copying its
 parts fails

---
 .../gwmodelpp/spatialweight/SpatialWeight.h   | 30 +++++++++++--------
 src/gwmodelpp/spatialweight/SpatialWeight.cpp |  6 +---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..de777b4 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -6,6 +6,7 @@
 #include "gwmodelpp/spatialweight/cuda/ISpatialCudaEnabled.h"
 #endif 
 
+#include <memory>
 #include "Weight.h"
 #include "Distance.h"
 
@@ -69,10 +70,8 @@ public:
      * @param weight 指向权重配置的指针。
      * @param distance 指向距离配置的指针。
      */
-    SpatialWeight(const Weight* weight, const Distance* distance)
+    SpatialWeight(const Weight* weight, const Distance* distance) : SpatialWeight(*weight, *distance)
     {
-        mWeight = weight->clone();
-        mDistance = distance->clone();
     }
 
     /**
@@ -89,8 +88,9 @@ public:
      */
     SpatialWeight(const Weight& weight, const Distance& distance)
     {
-        mWeight = weight.clone();
+        std::unique_ptr<Weight> copy(weight.clone());
         mDistance = distance.clone();
+        mWeight = copy.release();
     }
 
     /**
@@ -104,10 +104,8 @@ public:
      * 
      * @param spatialWeight 被复制对象的引用。
      */
-    SpatialWeight(const SpatialWeight& spatialWeight)
+    SpatialWeight(const SpatialWeight& spatialWeight) : SpatialWeight(*spatialWeight.mWeight, *spatialWeight.mDistance)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
     }
 
     /**
@@ -171,8 +169,9 @@ public:
     {
         if (weight && weight != mWeight)
         {
+            Weight* copy = weight->clone();
             if (mWeight) delete mWeight;
-            mWeight = weight->clone();
+            mWeight = copy;
         }
     }
 
@@ -191,8 +190,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* copy = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = copy;
     }
 
     /**
@@ -210,8 +210,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* copy = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = copy;
     }
 
     /**
@@ -263,8 +264,9 @@ public:
     {
         if (distance && distance != mDistance)
         {
+            Distance* copy = distance->clone();
             if (mDistance) delete mDistance;
-            mDistance = distance->clone();
+            mDistance = copy;
         }
     }
 
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* copy = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = copy;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* copy = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = copy;
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..2bd5647 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -26,11 +26,7 @@ SpatialWeight &SpatialWeight::operator=(SpatialWeight &&spatialWeight)
 SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
 {
     if (this == &spatialWeight) return *this;
-    if (mWeight) delete mWeight;
-    if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
-    return *this;
+    return *this = SpatialWeight(spatialWeight);
 }
 
 bool SpatialWeight::isValid()
-- 
2.43.0


From cb4c40e75ff7f72037704e183ab1efa4de7b3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 26/42] fix: GWSS quantiles read before the sorted values when
 the first sample outweighs the quantile

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index c90d7fe..8c2e32b 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From 1998fa43335785d747013c3ba9621b6c980068c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 27/42] fix: keep the points when a OneDimDistance is copied

---
 src/gwmodelpp/spatialweight/OneDimDistance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..ad255dd 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,7 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From 1fc6b0cd4ca2360df3aacb41b2e7cc882f6a24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 28/42] fix: copy CRSSTDistance with its parameters, also when
 it is empty

---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 142134c..18a72a7 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -81,9 +81,10 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance.reset(distance.mSpatialDistance->clone());
+    if (distance.mSpatialDistance) mSpatialDistance.reset(distance.mSpatialDistance->clone());
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance.reset(static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone()));
+    if (distance.mTemporalDistance) mTemporalDistance.reset(static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone()));
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
     mCalculator=distance.mCalculator;
 }
 
-- 
2.43.0


From 318c0ef2bbd654c617c71e96fc4585776e1fcf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 29/42] fix: copy a SpatialWeight that has no weight or
 distance

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index de777b4..088d567 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -104,8 +104,11 @@ public:
      * 
      * @param spatialWeight 被复制对象的引用。
      */
-    SpatialWeight(const SpatialWeight& spatialWeight) : SpatialWeight(*spatialWeight.mWeight, *spatialWeight.mDistance)
+    SpatialWeight(const SpatialWeight& spatialWeight)
     {
+        std::unique_ptr<Weight> copy(spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr);
+        mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
+        mWeight = copy.release();
     }
 
     /**
-- 
2.43.0


From d4eba24ac2105f158bc39446c83535290161fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 30/42] fix: Minkowski distances for powers other than 1 and -1

---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
-- 
2.43.0


From 374ea96e30001a1c3b289da309cc3c02d3f4014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 31/42] fix: largest and smallest distance of MinkwoskiDistance

---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
-- 
2.43.0


From ae30b55a9e411664bb97ed20a9955b4d0007f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 32/42] fix: free the GSL minimizers of GWDR and scalable GWR
 when their criterion throws

---
 src/gwmodelpp/GWDR.cpp        | 14 ++++++++------
 src/gwmodelpp/GWRScalable.cpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index cb7f43d..35464b0 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -1,6 +1,7 @@
 #include "GWDR.h"
 #include <assert.h>
 #include <exception>
+#include <memory>
 #include <gsl/gsl_vector.h>
 #include <gsl/gsl_multimin.h>
 #include <gsl/gsl_errno.h>
@@ -781,9 +782,13 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
 const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, size_t maxIter, double eps, double step)
 {
     size_t nDim = mBandwidths.size();
-    gsl_multimin_fminimizer* minimizer = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex2rand, nDim);
-    gsl_vector* targets = gsl_vector_alloc(nDim);
-    gsl_vector* steps = gsl_vector_alloc(nDim);
+    // Owned by smart pointers, as the criterion function may throw through the minimizer.
+    unique_ptr<gsl_multimin_fminimizer, void(*)(gsl_multimin_fminimizer*)> minimizerOwner(gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex2rand, nDim), gsl_multimin_fminimizer_free);
+    unique_ptr<gsl_vector, void(*)(gsl_vector*)> targetsOwner(gsl_vector_alloc(nDim), gsl_vector_free);
+    unique_ptr<gsl_vector, void(*)(gsl_vector*)> stepsOwner(gsl_vector_alloc(nDim), gsl_vector_free);
+    gsl_multimin_fminimizer* minimizer = minimizerOwner.get();
+    gsl_vector* targets = targetsOwner.get();
+    gsl_vector* steps = stepsOwner.get();
     for (size_t m = 0; m < nDim; m++)
     {
         double target_value = mBandwidths[m]->adaptive() ? mBandwidths[m]->bandwidth() / double(featureCount) : mBandwidths[m]->bandwidth();
@@ -834,8 +839,5 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
             mBandwidths[m]->setBandwidth(round(pbw * featureCount));
         }
     }
-    gsl_multimin_fminimizer_free(minimizer);
-    gsl_vector_free(targets);
-    gsl_vector_free(steps);
     return status;
 }
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 5d70568..f3426dd 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -2,6 +2,7 @@
 #include "BandwidthSelector.h"
 #include "VariableForwardSelector.h"
 #include <assert.h>
+#include <memory>
 #include "Logger.h"
 
 #ifdef ENABLE_OPENMP
@@ -214,11 +215,15 @@ double scagwr_aic_multimin_function(const gsl_vector* vars, void* params)
 
 double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, double& alpha)
 {
-    gsl_multimin_fminimizer* minizer = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, 2);
-    gsl_vector* target = gsl_vector_alloc(2);
+    // Owned by smart pointers, as the criterion function may throw through the minimizer.
+    unique_ptr<gsl_multimin_fminimizer, void(*)(gsl_multimin_fminimizer*)> minizerOwner(gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, 2), gsl_multimin_fminimizer_free);
+    unique_ptr<gsl_vector, void(*)(gsl_vector*)> targetOwner(gsl_vector_alloc(2), gsl_vector_free);
+    unique_ptr<gsl_vector, void(*)(gsl_vector*)> stepOwner(gsl_vector_alloc(2), gsl_vector_free);
+    gsl_multimin_fminimizer* minizer = minizerOwner.get();
+    gsl_vector* target = targetOwner.get();
     gsl_vector_set(target, 0, b_tilde);
     gsl_vector_set(target, 1, alpha);
-    gsl_vector* step = gsl_vector_alloc(2);
+    gsl_vector* step = stepOwner.get();
     gsl_vector_set(step, 0, 0.01);
     gsl_vector_set(step, 1, 0.01);
     LoocvParams params = { &mX, &mY, mPolynomial, &Mx0, &My0 };
@@ -247,9 +252,6 @@ double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, do
         alpha = gsl_vector_get(minizer->x, 1);
         cv = minizer->fval;
     }
-    gsl_vector_free(target);
-    gsl_vector_free(step);
-    gsl_multimin_fminimizer_free(minizer);
     return  cv;
 }
 
-- 
2.43.0


From f8d7f815f4549eabeb546ef956e87df262791372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 33/42] fix: location-wise probabilities and entropy of GWDA

The last group was left out of the exponentials and of the maximal entropy
(which is zero for two groups), and the negative log-probabilities were
exponentiated with the wrong sign.
---
 src/gwmodelpp/GWDA.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 54d4554..e1ce8f3 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -48,16 +48,14 @@ void GWDA::run()
     }
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
-    mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
-    {
-        vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
-    }
+    // mRes holds the negative logarithm of the (unnormalised) probability of each group.
+    mat tmp = mRes;
+    tmp.each_col() -= vec(min(mRes, 1));
+    tmp = exp(-tmp);
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / double(NV);
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From 42678c357d696acfb4334190d7a90ace3e1536d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 34/42] fix: quadratic discriminant analysis with global mean,
 covariance or prior

The matrix of unit weights was never given its size.
---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e1ce8f3..d93385c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -228,10 +228,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From 1341e1095e44ff58006d744e3ff2a61bae7cdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 35/42] fix: scalable GWR optimised by cross-validation with a
 bandwidth of 50 or less

Cross-validation searches one neighbour less, so the column of the last
neighbour used to scale the kernel was out of bounds.
---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index f3426dd..56e8b1b 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -316,11 +316,11 @@ mat GWRScalable::predict(const mat& locations)
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
@@ -481,11 +481,11 @@ mat GWRScalable::fit()
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From 6721fa4e48b5d61978b4dec1592ff232c6564a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 36/42] fix: a distributed GWR or MGWR run cancelled by one
 process no longer blocks the others

---
 include/gwmodelpp/GWRBasic.h      | 16 +++++++++++
 include/gwmodelpp/GWRMultiscale.h | 16 +++++++++++
 src/gwmodelpp/GWRBasic.cpp        | 38 +++++++++++++++++++-----
 src/gwmodelpp/GWRMultiscale.cpp   | 48 ++++++++++++++++++++++---------
 4 files changed, 98 insertions(+), 20 deletions(-)

diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..7388570 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -729,6 +729,22 @@ protected:
      */
     void createPredictionDistanceParameter(const arma::mat& locations);
 
+    /**
+     * \~english
+     * @brief Ask the telegram whether to stop. In a distributed run all processes get the same answer.
+     * 
+     * @return true Stop; the status is set to Status::Terminated.
+     * @return false Go on.
+     * 
+     * \~chinese
+     * @brief 询问是否需要停止。分布式运行时所有进程得到同样的答案。
+     * 
+     * @return true 需要停止，状态设置为 Status::Terminated 。
+     * @return false 不需要停止。
+     * 
+     */
+    bool stopRequested();
+
 protected:
     bool mHasHatMatrix = true;  //!< \~english Whether has hat-matrix. \~chinese 是否具有帽子矩阵。
     bool mHasFTest = false;  //!< @todo \~english Whether has F-test \~chinese 是否具有F检验。
diff --git a/include/gwmodelpp/GWRMultiscale.h b/include/gwmodelpp/GWRMultiscale.h
index af2e77f..029fee1 100644
--- a/include/gwmodelpp/GWRMultiscale.h
+++ b/include/gwmodelpp/GWRMultiscale.h
@@ -763,6 +763,22 @@ protected:
 #endif // ENABLE_MPI
 
 private:
+    /**
+     * \~english
+     * @brief Ask the telegram whether to stop. In a distributed run all processes get the same answer.
+     * 
+     * @return true Stop; the status is set to Status::Terminated.
+     * @return false Go on.
+     * 
+     * \~chinese
+     * @brief 询问是否需要停止。分布式运行时所有进程得到同样的答案。
+     * 
+     * @return true 需要停止，状态设置为 Status::Terminated 。
+     * @return false 不需要停止。
+     * 
+     */
+    bool stopRequested();
+
     FitVarFunction mFitVar = &GWRMultiscale::fitVarBase;  //!< \~english Calculator to fit a model for one variable. \~chinese 为单一变量拟合模型的函数。
     FitVarCoreFunction mFitVarCore = &GWRMultiscale::fitVarCoreSerial;  //!< \~english Calculator to fit a model for one variable. \~chinese 为单一变量拟合模型的函数。
     FitVarCoreCVFunction mFitVarCoreCV = &GWRMultiscale::fitVarCoreCVSerial;  //!< \~english Calculator to fit a model for one variable. \~chinese 为单一变量拟合模型的函数。
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index d60109d..c8af99b 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -59,6 +59,18 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
     return { rss, AIC, AICc, enp, edf, r2, r2_adj };
 }
 
+bool GWRBasic::stopRequested()
+{
+    int stop = (mStatus != Status::Success || mTelegram->stop()) ? 1 : 0;
+#ifdef ENABLE_MPI
+    // all processes have to take the same decision, or those who go on wait for the others forever
+    if (mParallelType & ParallelType::MPI)
+        MPI_Allreduce(MPI_IN_PLACE, &stop, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+#endif // ENABLE_MPI
+    if (stop) mStatus = Status::Terminated;
+    return stop != 0;
+}
+
 mat GWRBasic::fit()
 {
     mStatus = Status::Success;
@@ -108,7 +120,7 @@ mat GWRBasic::fit()
         mSpatialWeight.prepareCuda(mGpuId);
     }
 #endif // ENABLE_CUDA
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVars, arma::fill::zeros);
 
     if (mIsAutoselectIndepVars)
     {
@@ -130,7 +142,7 @@ mat GWRBasic::fit()
             mIndepVarsSelectionCriterionList = selector.indepVarsCriterion();
         }
         nVars = mX.n_cols;
-        GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+        if (stopRequested()) return mat(nDp, nVars, arma::fill::zeros);
     }
 
     if (mIsAutoselectBandwidth)
@@ -155,7 +167,7 @@ mat GWRBasic::fit()
 #endif // ENABLE_CUDA
             mBandwidthSelectionCriterionList = selector.bandwidthCriterion();
         }
-        GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+        if (stopRequested()) return mat(nDp, nVars, arma::fill::zeros);
     }
 
     GWM_LOG_STAGE("Model fitting");
@@ -861,8 +873,10 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     {
         status = 0;
     }
+    if (mStatus != Status::Success) status = -1;
     MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
-    if (!statusAll)
+    if (statusAll < 0) mStatus = Status::Terminated;
+    if (statusAll <= 0)
         return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
@@ -911,8 +925,10 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     {
         status = 0;
     }
+    if (mStatus != Status::Success) status = -1;
     MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
-    if (!statusAll)
+    if (statusAll < 0) mStatus = Status::Terminated;
+    if (statusAll <= 0)
         return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
@@ -950,8 +966,10 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     {
         status = 0;
     }
+    if (mStatus != Status::Success) status = -1;
     MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
-    if (!statusAll)
+    if (statusAll < 0) mStatus = Status::Terminated;
+    if (statusAll <= 0)
         return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
@@ -1001,7 +1019,13 @@ arma::mat gwm::GWRBasic::fitMpi()
         status = 0;
     }
     // a process that failed must not leave the others waiting for its results
+    if (mStatus != Status::Success) status = -1;
     MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (statusAll < 0)
+    {
+        mStatus = Status::Terminated;
+        return mat(nDp, nVar, arma::fill::zeros);
+    }
     if (!statusAll)
     {
         throw except;
@@ -1083,7 +1107,7 @@ arma::mat gwm::GWRBasic::fitMpi()
     double sigmaHat = mDiagnostic.RSS / (nDp - 2 * trS + trStS);
     mBetasSE = sqrt(sigmaHat * mBetasSE);    
     // check cancel status
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
     return mBetas;
 }
 
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 1e82a98..3a050ac 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -97,6 +97,18 @@ private:
 
 }
 
+bool GWRMultiscale::stopRequested()
+{
+    int stop = (mStatus != Status::Success || mTelegram->stop()) ? 1 : 0;
+#ifdef ENABLE_MPI
+    // all processes have to take the same decision, or those who go on wait for the others forever
+    if (mParallelType & ParallelType::MPI)
+        MPI_Allreduce(MPI_IN_PLACE, &stop, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+#endif // ENABLE_MPI
+    if (stop) mStatus = Status::Terminated;
+    return stop != 0;
+}
+
 mat GWRMultiscale::fit()
 {
     mStatus = Status::Success;
@@ -114,7 +126,7 @@ mat GWRMultiscale::fit()
             mX.col(i) = mX.col(i) - mean(mX.col(i));
         }
     }
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
 
     // *****************************************************
     // Calculate the initial beta0 from the above bandwidths
@@ -167,7 +179,7 @@ mat GWRMultiscale::fit()
         mStatus = gwr.status();
         return mat(nDp, nVar, arma::fill::zeros);
     }
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
 
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter(nVar);
@@ -214,7 +226,7 @@ mat GWRMultiscale::fit()
         }
     }
 #endif // ENABLE_CUDA
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
 
     // ***********************
     // Intialize the bandwidth
@@ -223,7 +235,7 @@ mat GWRMultiscale::fit()
     mYi = mY;
     for (uword i = 0; i < nVar ; i++)
     {
-        GWM_LOG_STOP_BREAK(mStatus);
+        if (stopRequested()) break;
         if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
         {
             mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
@@ -253,7 +265,7 @@ mat GWRMultiscale::fit()
             }
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW)  + to_string(i)  + "," + to_string(bw->bandwidth()));
         }
-        GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+        if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
     }
 
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
@@ -277,7 +289,7 @@ mat GWRMultiscale::fit()
 
     GWM_LOG_STAGE("Model fitting");
     mBetas = backfitting(betas);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
 
     // Diagnostic
     GWM_LOG_STAGE("Model Diagnostic");
@@ -325,7 +337,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat betas = betas0;
     // cout << "[backfitting] Process " << mWorkerId << " betas\n";
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    if (stopRequested()) return mat(nDp, nVar, arma::fill::zeros);
 
     // ***********************************************************
     // Select the optimum bandwidths for each independent variable
@@ -337,11 +349,11 @@ mat GWRMultiscale::backfitting(const mat& betas0)
     double criterion = DBL_MAX;
     for (size_t iteration = 1; iteration <= mMaxIteration && criterion > mCriterionThreshold; iteration++)
     {
-        GWM_LOG_STOP_BREAK(mStatus);
+        if (stopRequested()) break;
         GWM_LOG_MGWR_BACKFITTING("#iteration " + to_string(iteration));
         for (uword i = 0; i < nVar  ; i++)
         {
-            GWM_LOG_STOP_BREAK(mStatus);
+            if (stopRequested()) break;
             mXi = mX.col(i);
             vec fi = betas.col(i) % mX.col(i);
             mYi = resid + fi;
@@ -392,7 +404,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
 
                 GWM_LOG_MGWR_BACKFITTING("#variable-bandwidth-selection " + strjoin(",", vbs_args));
             }
-            GWM_LOG_STOP_BREAK(mStatus);
+            if (stopRequested()) break;
 
             vec betai = (this->*mFitVar)(i);
             // betas.brief_print("betas");
@@ -408,7 +420,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(criterion - mCriterionThreshold)));
         RSS0 = RSS1;
     }
-    GWM_LOG_STOP_RETURN(mStatus, betas);
+    if (stopRequested()) return betas;
 
     GWM_LOG_MGWR_BACKFITTING("Finished");
     mRSS0 = RSS0;
@@ -1004,7 +1016,13 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
         status = 0;
     }
     // a process that failed must not leave the others waiting for its results
+    if (mStatus != Status::Success) status = -1;
     MPI_Allreduce(&status, &statusAll, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (statusAll < 0)
+    {
+        mStatus = Status::Terminated;
+        return vec(nDp, arma::fill::zeros);
+    }
     if (!statusAll)
     {
         throw except;
@@ -1035,8 +1053,10 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     {
         status = 0;
     }
+    if (mStatus != Status::Success) status = -1;
     MPI_Allgather(&status, 1, MPI_INT, status_all.memptr(), 1, MPI_INT, MPI_COMM_WORLD);
-    if (!all(status_all))
+    if (any(status_all < 0)) mStatus = Status::Terminated;
+    if (any(status_all <= 0))
         return DBL_MAX;
     
     // If all right, calculate cv;
@@ -1075,8 +1095,10 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     {
         status = 0;
     }
+    if (mStatus != Status::Success) status = -1;
     MPI_Allgather(&status, 1, MPI_INT, status_all.memptr(), 1, MPI_INT, MPI_COMM_WORLD);
-    if (!all(status_all))
+    if (any(status_all < 0)) mStatus = Status::Terminated;
+    if (any(status_all <= 0))
         return DBL_MAX;
     
     // If all right, calculate cv;
-- 
2.43.0


From c5009e98ca40a55c69fe446eebc45395da5b766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 37/42] fix: scalable GWR raises when no local model can be
 solved instead of returning zeros or old results

---
 src/gwmodelpp/GWRScalable.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 56e8b1b..7295964 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -333,7 +333,11 @@ mat GWRScalable::predict(const mat& locations)
     mCV = optimize(mMx0, mMy0, b_tilde, alpha);
     GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, fill::zeros));
 
-    if (mCV < DBL_MAX)
+    if (!(mCV < DBL_MAX))
+    {
+        throw std::runtime_error("The local models cannot be solved with any parameters.");
+    }
+    else
     {
         mScale = b_tilde * b_tilde;
         mPenalty = alpha * alpha;
@@ -501,7 +505,11 @@ mat GWRScalable::fit()
     mCV = optimize(mMx0, mMy0, b_tilde, alpha);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, fill::zeros));
 
-    if (mCV < DBL_MAX)
+    if (!(mCV < DBL_MAX))
+    {
+        throw std::runtime_error("The local models cannot be solved with any parameters.");
+    }
+    else
     {
         GWM_LOG_STAGE("Model fitting");
         mScale = b_tilde * b_tilde;
@@ -658,6 +666,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         catch (const exception& e) 
         {
             GWM_LOG_ERROR(e.what());
+            throw;
         }
         GWM_LOG_PROGRESS((n + i + 1) / 2, n);
     }
-- 
2.43.0


From 9471096e3da08cb3f06689b714a47383bf0da1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 38/42] fix: generalized GWR without hat matrix and its
 prediction work and use the prediction locations

---
 src/gwmodelpp/GWRGeneralized.cpp | 58 ++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index d972e08..9f94f7e 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -174,13 +174,35 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 mat GWRGeneralized::predict(const mat& locations)
 {
     mStatus = Status::Success;
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
+    uword nDp = mCoords.n_rows, nRp = locations.n_rows, nVars = mX.n_cols;
+    // the working responses are calibrated among the samples
+    createDistanceParameter();
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
     createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        mWtMat2.col(i) = mSpatialWeight.weightVector(i);
+    }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    bool hasHatMatrix = mHasHatMatrix;
+    mHasHatMatrix = false;
+    try
+    {
+        mBetas = trans((this->*mGGWRfitFunction)(mX, mY));
+    }
+    catch (...)
+    {
+        mHasHatMatrix = hasHatMatrix;
+        throw;
+    }
+    mHasHatMatrix = hasHatMatrix;
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
     return mBetas;
 }
@@ -212,7 +234,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
 } */
 mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mHasHatMatrix ? nDp : mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -277,7 +299,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -286,7 +308,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
                 except=e;
                 isAllCorrect = false;
             }
-            GWM_LOG_PROGRESS(i + 1, nDp);
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
     }
     if (!isAllCorrect)
@@ -299,7 +321,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 #ifdef ENABLE_OPENMP
 mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mHasHatMatrix ? nDp : mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -380,7 +402,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -392,7 +414,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                     // emit error(e.what());
                 }
             }
-            GWM_LOG_PROGRESS(i + 1, nDp);
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
     }
     if(!isAllCorrect){
@@ -406,7 +428,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 {
     uword nVar = x.n_cols;
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mHasHatMatrix ? nDp : mWtMat2.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
     mat betas = mat(nVar, nRp, fill::zeros);
@@ -472,8 +494,8 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                    mBetas.col(i) = gwsi;
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -484,7 +506,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                     // emit error(e.what());
                 }
             }
-            GWM_LOG_PROGRESS(i + 1, nDp)
+            GWM_LOG_PROGRESS(i + 1, nRp)
         }
     }
     if(!isAllCorrect){
@@ -496,7 +518,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 
 mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mHasHatMatrix ? nDp : mWtMat2.n_cols;
     uword nVar = x.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
@@ -548,8 +570,8 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                mBetas.col(i) = gwsi;
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From e32e14d4b33ffc3592a8ca11166abc299717af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:22 +0000
Subject: [PATCH 39/42] fix: the density regression bandwidth search works in
 the unit of fixed bandwidths and does not round them

---
 include/gwmodelpp/GWDR.h |  1 +
 src/gwmodelpp/GWDR.cpp   | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/gwmodelpp/GWDR.h b/include/gwmodelpp/GWDR.h
index 5c95e9c..0ef4ac8 100644
--- a/include/gwmodelpp/GWDR.h
+++ b/include/gwmodelpp/GWDR.h
@@ -535,6 +535,7 @@ public:
         GWDR* instance;     //!< \~english A GWDR instance \~chinese 一个 GWDR 实例
         std::vector<BandwidthWeight*>* bandwidths;  //!< \~english Bandwidths \~chinese 带宽
         arma::uword featureCount;   //!< \~english Total number of features \~chinese 要素总数
+        std::vector<double> units;  //!< \~english Bandwidth that corresponds to 1 in the search \~chinese 搜索中单位 1 对应的带宽
     };
 
     /**
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 35464b0..d3a3586 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -770,11 +770,10 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     Parameter* p = static_cast<Parameter*>(params);
     GWDR* instance = p->instance;
     const vector<BandwidthWeight*>& bandwidths = *(p->bandwidths);
-    double nFeature = double(p->featureCount);
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
-        bandwidths[m]->setBandwidth(pbw * nFeature);
+        bandwidths[m]->setBandwidth(pbw * p->units[m]);
     }
     return instance->bandwidthCriterion(bandwidths);
 }
@@ -789,13 +788,16 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
     gsl_multimin_fminimizer* minimizer = minimizerOwner.get();
     gsl_vector* targets = targetsOwner.get();
     gsl_vector* steps = stepsOwner.get();
+    // adaptive bandwidths are searched in shares of the features, fixed ones in multiples of the initial value
+    vector<double> units(nDim);
     for (size_t m = 0; m < nDim; m++)
     {
-        double target_value = mBandwidths[m]->adaptive() ? mBandwidths[m]->bandwidth() / double(featureCount) : mBandwidths[m]->bandwidth();
-        gsl_vector_set(targets, m, target_value);
+        units[m] = mBandwidths[m]->adaptive() ? double(featureCount) : mBandwidths[m]->bandwidth();
+        if (!(units[m] > 0.0)) units[m] = 1.0;
+        gsl_vector_set(targets, m, mBandwidths[m]->bandwidth() / units[m]);
         gsl_vector_set(steps, m, step);
     }
-    Parameter params = { instance, &mBandwidths, featureCount };
+    Parameter params = { instance, &mBandwidths, featureCount, units };
     gsl_multimin_function function = { criterion_function, nDim, &params };
     int status = gsl_multimin_fminimizer_set(minimizer, &function, targets, steps);
     if (status == GSL_SUCCESS)
@@ -836,7 +838,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(pbw * units[m]) : pbw * units[m]);
         }
     }
     return status;
-- 
2.43.0


From 0377b0ce1b835192338bbb5da7c324d37499e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:22 +0000
Subject: [PATCH 40/42] fix: a cancelled or failed density regression bandwidth
 search leaves the bandwidths it was given

---
 src/gwmodelpp/GWDR.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index d3a3586..613f160 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -789,9 +789,10 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
     gsl_vector* targets = targetsOwner.get();
     gsl_vector* steps = stepsOwner.get();
     // adaptive bandwidths are searched in shares of the features, fixed ones in multiples of the initial value
-    vector<double> units(nDim);
+    vector<double> units(nDim), initials(nDim);
     for (size_t m = 0; m < nDim; m++)
     {
+        initials[m] = mBandwidths[m]->bandwidth();
         units[m] = mBandwidths[m]->adaptive() ? double(featureCount) : mBandwidths[m]->bandwidth();
         if (!(units[m] > 0.0)) units[m] = 1.0;
         gsl_vector_set(targets, m, mBandwidths[m]->bandwidth() / units[m]);
@@ -808,7 +809,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             iter++;
             status = gsl_multimin_fminimizer_iterate(minimizer);
-            if (status && instance->status() != Status::Success)
+            if (instance->status() != Status::Success)
                 break;
             size = gsl_multimin_fminimizer_size(minimizer);
             status = gsl_multimin_test_size(size, eps);
@@ -841,5 +842,11 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
             mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(pbw * units[m]) : pbw * units[m]);
         }
     }
+    if (status != GSL_SUCCESS || instance->status() != Status::Success)
+    {
+        // the criterion function has set the bandwidths to its candidates
+        for (size_t m = 0; m < nDim; m++)
+            mBandwidths[m]->setBandwidth(initials[m]);
+    }
     return status;
 }
-- 
2.43.0


From ad91c0a2247c77cf124a8621aca0bd3eb46d8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:42 +0000
Subject: [PATCH 41/42] fix: the density regression bandwidth search rejects
 adaptive candidates below one neighbour

---
 src/gwmodelpp/GWDR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 613f160..f87e2b9 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -773,6 +773,8 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
+        // there is no local model without any neighbour
+        if (bandwidths[m]->adaptive() && pbw * p->units[m] < 1.0) return DBL_MAX;
         bandwidths[m]->setBandwidth(pbw * p->units[m]);
     }
     return instance->bandwidthCriterion(bandwidths);
-- 
2.43.0


From 56f5ee81384a25538d171e391c3ab69d8add4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:23 +0000
Subject: [PATCH 42/42] fix: a cancelled or failed selection of the space-time
 ratio leaves the one configured

---
 include/gwmodelpp/spatialweight/CRSSTDistance.h |  3 +--
 src/gwmodelpp/GTWR.cpp                          | 13 +++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index e9ea077..2f4716f 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -117,8 +117,7 @@ public:
 
     const gwm::OneDimDistance* temporalDistance() const { return mTemporalDistance.get(); }
 
-    // unused code to set lambda
-    // double lambda() const { return mLambda; }
+    double lambda() const { return mLambda; }
     void setLambda(const double lambda)    {
         if (lambda >= 0 && lambda <= 1)
         {
diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 8139976..6b6f91c 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -60,8 +60,17 @@ mat GTWR::fit()
         mStdistance = mSpatialWeight.distance<CRSSTDistance>();
 
         GWM_LOG_INFO(infoLambdaCriterion());
-        double lambda = LambdaAutoSelection(bw);
-        mStdistance->setLambda(lambda);
+        double lambda0 = mStdistance->lambda();
+        try
+        {
+            double lambda = LambdaAutoSelection(bw);
+            mStdistance->setLambda(mStatus == Status::Success ? lambda : lambda0);
+        }
+        catch (const exception&)
+        {
+            mStdistance->setLambda(lambda0);
+            throw;
+        }
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
     }
 
-- 
2.43.0

