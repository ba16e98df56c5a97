From 2bd602091dddb929a7c51147ad15fb0835375f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 01/56] fix: deld/delds leave the order-0 difference polynomial
 uninitialised

---
 src/talg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 7db9a90..899c03e 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -116,6 +116,7 @@ void deld(int d, double* C) {
 	vec[0] = 1.;
 	vec[1] = -1.;
 	oup[0] = 1.;
+	C[0] = 1.;
 	// oup has length (d+1)
 	
 	for(i = 0; i < d; ++i) {
@@ -153,6 +154,7 @@ void delds(int D, int s, double *C) {
 	vec[0] = 1.0;
 	vec[s] = -1.0;
 	oup[0] = 1.0;
+	C[0] = 1.0;
 	
 	for(i = 0; i < D; ++i) {
 		poly(oup,vec,C,i*s+1,s+1);
-- 
2.43.0


From c4b635b5b6c95258a59c869d4a94a0adcc6fad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 02/56] fix: house() returns a non-orthogonal reflector for a
 negative single-entry column

---
 src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..8a45e24 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1406,7 +1406,7 @@ static double house_1(double*x,int N,double *v) {
 	if (sigma[0] == 0. && x[0] >= 0.) {
 		beta = 0.;
 	} else if (sigma[0] == 0. && x[0] < 0.) {
-		beta = -2.;
+		beta = 2.;
 	}else {
 		mu = sqrt(sigma[0] + x[0] * x[0]);
 		
-- 
2.43.0


From d8ed8dc8b7ad27b93be63481721709de2a92021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 03/56] fix: LU pivot search compares against a signed value
 and can pick a zero pivot

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8a45e24..9c40454 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -900,7 +900,7 @@ static int pludecomp(double *A,int N,int *ipiv) {
 		mind = k;
 		for (j=k+1; j < N;++j) {
 			if (mval < fabs(A[j*N + k])) {
-				mval = A[j*N + k];
+				mval = fabs(A[j*N + k]);
 				mind = j;
 			}
 		}
@@ -953,7 +953,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -991,7 +991,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
-- 
2.43.0


From 7b3ba8732a8693dbd20339860e0550e8c874ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 04/56] fix: regress_poly truncates the powers of the regressor
 to integers

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index c27b46a..52e8bde 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -637,7 +637,7 @@ void regress_poly(reg_object obj, double *x, double *y, double *res, double *var
 	sum = obj->N;
 	for (i = 1; i < polydeg; ++i) {
 		for (j = 0; j < obj->N; ++j) {
-			xx[sum + j] = (int)pow((double)x[j], (double)i + 1.);
+			xx[sum + j] = pow((double)x[j], (double)i + 1.);
 		}
 		sum += obj->N;
 	}
-- 
2.43.0


From 893936d1397f605f64502f174e5438f5018c6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 05/56] fix: F test of a no-intercept regression uses one model
 degree of freedom too few

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 52e8bde..4ef7abd 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -428,7 +428,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[6] = 1.0 - fcdf(anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
-- 
2.43.0


From 2295387a312d5d7fc9624f85398eeb86674a6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 06/56] fix: F statistic of an intercept-only regression is
 read uninitialised

---
 src/regression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regression.c b/src/regression.c
index 4ef7abd..ff410cb 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -398,6 +398,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
+			anv[5] = NAN;
+			anv[6] = NAN;
 		}
 		else if (p > 1) {
 			anv[1] = R2[0] * (*bt - N*ym2);
-- 
2.43.0


From 083b4be427807eb2607a30e6c08773ace355d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 07/56] fix: getMODWTmra reconstructs the detail components
 with the scaling filter

---
 src/wavelib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cddc3cb..c547349 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2732,9 +2732,9 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 
 	for (iter = 0; iter < J; ++iter) {
 		for (i = 0; i < N; ++i) {
-			sig[i].re = (fft_type)wt->output[lenacc+i];
+			sig[i].re = 0.0;
 			sig[i].im = 0.0;
-			ninp[i].re = 0.0;
+			ninp[i].re = (fft_type)wt->output[lenacc+i];
 			ninp[i].im = 0.0;
 		}
 
-- 
2.43.0


From 2e3b1b3a3d70ed685bf45a70e15b5e62cf83d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 08/56] fix: arma_autocovar reads past the end of its
 moving-average terms when p > q

---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 899c03e..fbfb3dd 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -384,8 +384,8 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 		th[i+1] = theta[i];
 	}
 	
-	if (p >= q+1) {
-		m = p;
+	if (p1 >= q+1) {
+		m = p1;
 	} else {
 		m = q + 1;
 	}
-- 
2.43.0


From bfca770b51cda403252618928f6831a5c5a480cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 09/56] fix: archeck passes zero leading coefficients to the
 root finder and reads uninitialised roots

---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index fbfb3dd..8035ba2 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -786,9 +786,9 @@ int archeck(int p, double *ar) {
 
 	//polyroot(double *coeff, int DEGREE, double *ZEROR, double *ZEROI)
 
-	polyroot(coeff,p,zeror,zeroi);
+	polyroot(coeff,wmax,zeror,zeroi);
 
-	for(i = 0; i < p;++i) {
+	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
 		if (mod < 1.0) {
 			free(coeff);
-- 
2.43.0


From 70598cff9cded1e40e08acf19ec40fe096806797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 10/56] fix: arma_autocovar drops terms of the Yule-Walker
 system for p >= 3

---
 src/talg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 8035ba2..3e8f5c1 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -394,10 +394,8 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 	for(i = 0; i < p1;++i) {
 		for(j=0; j < p1;++j) {
 			A[i*p1+j] = 0.;
-			if (i == j && i != 0) {
-				A[i*p1+j] = 1.;
-			}
-
+		}
+		for(j=0; j < p1;++j) {
 			t = i - j;
 			if (t < 0) {
 				t = -t;
-- 
2.43.0


From 1e5401482c213a3d58e35a81a903db954a59c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 11/56] fix: psd reads past the end of the series when the
 transform is longer than the series

---
 src/spectrum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum.c b/src/spectrum.c
index 63985f7..b13d418 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -145,7 +145,7 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
+	m = mean(vec,NO);
 	for (i = 0; i < NO;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
-- 
2.43.0


From 8dcd4e5b370f8f2bf22195d067cd3efa49d0af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 12/56] fix: boxcox tests an uninitialised flag instead of
 checking for negative values

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..6585e9d 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From 27fcf26636f0c309b3aea109de873dad337ae6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 13/56] fix: checkConstant ignores the first observation

---
 src/boxcox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boxcox.c b/src/boxcox.c
index 6585e9d..dbe3c10 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -8,7 +8,7 @@ int checkConstant(double *x, int N) {
 
     /// heap buffer overflow fix, since accessing x[i+1] need to 
     /// stop loop at -1 index from end of array as dictated by length defined by N
-    for(i = 1; i < N - 1;++i) {
+    for(i = 0; i < N - 1;++i) {
         diff = x[i+1] - x[i];
         if (fabs(diff) > 0) {
             return cc;
-- 
2.43.0


From 72ad742a6194299c876951971862aa6604d3f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 14/56] fix: exact ARMA likelihood of AR(1) and white noise
 models starts from the wrong state

The AR(1) branch passes iupd=0, so the first Kalman step replaces the
stationary variance 1/(1-phi^2) by 1, and models without any ARMA term call
starma, which rejects them and leaves the filter state uninitialised.
---
 src/emle.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index cf21961..e77172d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1416,15 +1416,14 @@ double fas154(double *b,int pq,void *params) {
 		}
 	}
 
-	iupd = 0;
+	iupd = 1;
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 	
@@ -2655,16 +2654,15 @@ double fas154_seas(double *b, int pq, void *params) {
 	
 	//mdisplay(phi, 1, ir);
 	//mdisplay(theta, 1, ir);
-	iupd = 0;
+	iupd = 1;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
@@ -2982,7 +2980,7 @@ double fas154x_seas(double *b, int pq, void *params) {
 		}
 	}
 	
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
@@ -2990,7 +2988,6 @@ double fas154x_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
-- 
2.43.0


From 0c5c2ad7fbb85f28da3027ba0d8016be65fc7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 15/56] fix: forecasts of models without ARMA terms are never
 written

forkal rejects p = q = 0 although every step of it handles that case, so the
predict functions return uninitialised forecasts for ARIMA(0,d,0).
---
 src/emle.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index e77172d..a4f4b63 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -837,9 +837,6 @@ C*/
 	if (iq < 0) {
 		ifault = ifault + 2;
 	}
-	if (ip*ip + iq*iq == 0) {
-		ifault = 4;
-	}
 	if (id < 0) {
 		ifault = 8;
 	}
-- 
2.43.0


From e6f46fabdbd13ce137d900ff595783316f8f630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 16/56] fix: predict functions read past the end of the stored
 residuals

res holds N-d-s*D values; the copies of N values were never used, forkal
computes the residuals itself.
---
 src/ctsa.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..e680dd7 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2232,7 +2232,6 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2296,7 +2295,6 @@ void ar_predict(ar_object obj, double *inp, int L, double *xpred, double *amse)
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2855,7 +2853,6 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2962,7 +2959,6 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3203,7 +3199,6 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From 3fd4f8307cc0b6d7d1cd26dbd920708a9f83605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 17/56] fix: css drops the last d residuals of a differenced
 series

N is already the length of the differenced series at this point.
---
 src/emle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emle.c b/src/emle.c
index a4f4b63..8b84bce 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1348,7 +1348,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
-- 
2.43.0


From 4e50434c4ffd9f40671fdbe4730d16f86800ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 18/56] fix: CSS covariance matrices subtract the differencing
 order from the sample size twice

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 8b84bce..c9e212c 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1316,7 +1316,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2135,7 +2135,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2520,7 +2520,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
-- 
2.43.0


From 11b9a9a7fb5b2eb90d913a2e42eec706a3e29874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 19/56] fix: cssx resets its starting values at the wrong
 offsets

The stores run past the parameter blocks and the actual starting values are
left as the caller happened to have them.
---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index c9e212c..5ff0a6a 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2324,13 +2324,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 823bb1bb44c8a251ab93c448d991b6d9b931b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 20/56] fix: ar_estimate compares the AIC of higher orders
 against 0 instead of the AIC of order 1

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e680dd7..51cbf78 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4109,7 +4109,7 @@ int ar_estimate(double *x, int N, int method) {
 		lvar = log(var);
 		aic = lvar + 2 * (double)(i + 1) / N;
 		if (i == 0) {
-			aic = aic0;
+			aic0 = aic;
 			p = 1;
 		}
 		else {
-- 
2.43.0


From f2bf76991ae4af734cf3133bafc1158980fa652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 21/56] fix: Burg estimates ignore the last observation

---
 src/ctsa.c    | 8 ++++----
 src/initest.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 51cbf78..cefbc24 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2187,7 +2187,7 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N - 1, p, obj->params, &obj->var);
+		burgalg(inp, N, p, obj->params, &obj->var);
 	}
 
 	obj->order = obj->p;
@@ -2336,7 +2336,7 @@ void ar(double *inp, int N, int p,int method,double *phi,double *var) {
 		ywalg2(inp, N, p, phi,var);
 	}
 	else if (method == 1) {
-		burgalg(inp, N - 1, p, phi, var);
+		burgalg(inp, N, p, phi, var);
 	}
 	else if (method == 2) {
 		resid = (double*)malloc(sizeof(double)* N);
@@ -4095,7 +4095,7 @@ int ar_estimate(double *x, int N, int method) {
 			ywalg2(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 1) {
-			burgalg(inp, N-1, i + 1, phi, &var);
+			burgalg(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 2) {
 			as154(inp, N, 7, i + 1, 0, 0, phi, NULL, &wmean, &var, resid, &loglik, hess,cssml);
@@ -4385,7 +4385,7 @@ void yw(double *x, int N, int p, double *phi, double *var) {
 }
 
 void burg(double *x, int N, int p, double *phi, double *var) {
-	burgalg(x, N-1, p, phi, var);
+	burgalg(x, N, p, phi, var);
 }
 
 void hr(double *x, int N, int p, int q, double *phi, double *theta, double *var) {
diff --git a/src/initest.c b/src/initest.c
index 068523b..27370bd 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -437,7 +437,7 @@ void pacf_burg(double* vec, int N, double* par, int M) {
 
 	temp = (double*)malloc(sizeof(double)* M);
 	for (i = 0; i < M; ++i) {
-		burgalg(vec, N-1, i + 1, temp, &var);
+		burgalg(vec, N, i + 1, temp, &var);
 		par[i] = temp[i];
 	}
 	free(temp);
-- 
2.43.0


From 0920af72a1255371e16ccbe55cd12d0eefb0f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 22/56] fix: Burg method of ar_exec fits the series without
 removing its mean

The order selection and the forecasts work on deviations from the mean.
---
 src/ctsa.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index cefbc24..43d9760 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2163,9 +2163,9 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 }
 
 void ar_exec(ar_object obj, double *inp) {
-	int p, N;
+	int i, p, N;
 	double loglik;
-	double *hess;
+	double *hess, *x;
 	N = obj->N;
 
 	obj->p = ar_estimate(inp, N, obj->method);
@@ -2187,7 +2187,12 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N, p, obj->params, &obj->var);
+		x = (double*)malloc(sizeof(double)* N);
+		for (i = 0; i < N; ++i) {
+			x[i] = inp[i] - obj->mean;
+		}
+		burgalg(x, N, p, obj->params, &obj->var);
+		free(x);
 	}
 
 	obj->order = obj->p;
-- 
2.43.0


From 846323c990eb5f9cb291bdec10f37d9b28b7279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 23/56] fix: ar_exec stores the residuals of the MLE fit
 outside obj->res

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 43d9760..4da464e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2175,7 +2175,7 @@ void ar_exec(ar_object obj, double *inp) {
 
 	if (obj->method == 2) {
 		hess = (double*)malloc(sizeof(double)* (p + 1) * (p + 1));
-		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->params + p, &loglik,
+		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->res, &loglik,
 			hess,cssml);
 		loglik = -0.5 * (N * (2 * loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * loglik + 2.0 * (obj->p + 1) + 2.0;
-- 
2.43.0


From 9d0c604f74d16bae3849eecb115489ad64bc437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 24/56] fix: model_estimate ignores the differenced series

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 4da464e..68a3587 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4183,6 +4183,7 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 
 	if (d > 0) {
 		N = diff(x, N, d, inp); // No need to demean x
+		x = inp;
 	}
 
 	m = h;
-- 
2.43.0


From 3eb4e0d3e2ef14eb06bceabf68f26d458a68d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 25/56] fix: seasonal and CSS fits never store their residuals

sarima objects keep whatever malloc returned in res, and the criteria computed
from the residuals of sarimax CSS fits use zeros.
---
 src/ctsa.c |  6 +++---
 src/emle.c | 19 ++++++++++++++-----
 src/emle.h |  6 +++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 68a3587..154d850 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -396,7 +396,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else if (obj->method == 2) {
 		obj->retval = cssx(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
+			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var, obj->res, &obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
@@ -542,13 +542,13 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->res, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 1) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->res, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 	}
 	else if (obj->method == 2) {
diff --git a/src/emle.c b/src/emle.c
index 5ff0a6a..3550b10 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1637,7 +1637,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	nd = d + D;
 
 	if (cssml == 1) {
-		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, loglik, hess,start,imean);
+		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, resid, loglik, hess,start,imean);
 
 		if ( ERR != 1) return ERR;
 
@@ -2028,7 +2028,7 @@ double fcss_seas(double *b, int pq, void *params) {
 }
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess) {
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
@@ -2169,6 +2169,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
@@ -2302,7 +2305,7 @@ double fcssx(double *b, int pq, void *params) {
 }
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean) {
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean) {
 	int i, pq, retval, length, offset,ret,nd,ncxreg,N1,rnk,orig,ERR;
 	double *b, *tf, *x, *inp2,*dx,*thess,*x0,*XX,*U,*V,*SIG,*coeff,*sigma,*varcovar,*res;
 	int *ipiv;
@@ -2562,6 +2565,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
 	//*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	
 	free(b);
@@ -2683,7 +2689,7 @@ double fas154_seas(double *b, int pq, void *params) {
 }
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean,double *var,double *loglik,double *hess,int cssml) {
+	double *PHI, double *THETA, double *wmean,double *var,double *resid,double *loglik,double *hess,int cssml) {
 	int i, pq, retval, length, offset,ret,nd,rp,ERR;
 	double *b, *tf, *x,*inp2,*dx,*thess,*res,*varcovar;
 	int *ipiv;
@@ -2702,7 +2708,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	sigma = 1.0;
 
 	if (cssml == 1) {
-		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
+		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
 		if (ERR == 10 || ERR == 12) return ERR;
@@ -2876,6 +2882,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
diff --git a/src/emle.h b/src/emle.h
index 9f9d2f3..f5b18b1 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -174,12 +174,12 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 double fcss_seas(double *b, int pq, void *params);
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess);
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess);
 
 double fcssx(double *b, int pq, void *params);
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean);
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean);
 
 double fas154(double *x, int N, void *params);
 
@@ -195,7 +195,7 @@ double fas154_seas(double *b, int pq, void *params);
 void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q);
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean, double *var, double *loglik, double *hess, int cssml);
+	double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik, double *hess, int cssml);
 
 int flikam(double *P, int MP, double *Q, int MQ, double *W, double *E, int N, double *ssq, double *fact, double *VW, double *VL, int MRP1, double *VK, int MR, double TOLER);
 
-- 
2.43.0


From d3d8eb595e7eb2bc5f164bc7a2eaefe75e63c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 26/56] fix: sarimax_wrapper leaves idrift uninitialised for
 models without drift

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 154d850..1d6b6f5 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -609,8 +609,8 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 		rr = r;
 
 		
+		obj->idrift = drift;
 		if (drift == 1) {
-			obj->idrift = 1;
 			rr++;
 			xreg2 = (double*)malloc(sizeof(double)*N*rr);
 			for(i = 0; i < N;++i) {
-- 
2.43.0


From 55e5211cf91c3caf112520abf31ddc14fe2ea8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 27/56] fix: myarima leaves idrift uninitialised

---
 src/ctsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 1d6b6f5..4aa6f94 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -721,6 +721,8 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 	rr = r;
 
+	fit->idrift = (diffs == 1 && constant == 1) ? 1 : 0;
+
 	if (diffs == 1 && constant == 1) {
 		imean = 1;
 		rr++;
-- 
2.43.0


From 44b9da6b8157070e6e27810cc586e96676d3c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 28/56] fix: auto_arima_predict leaves out regressors of models
 with drift

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 4aa6f94..e1be517 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3079,7 +3079,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3118,7 +3118,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (obj->idrift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
-- 
2.43.0


From 6d7ca410a3e23690a0c88759e95764b9c698d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 29/56] fix: auto_arima1 leaves the last regressor out of the
 regression before the stationarity tests

---
 src/ctsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e1be517..e58ad7d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1198,13 +1198,14 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			exit(-1);
 		}
 
-		varcovar = (double*)malloc(sizeof(double)*r*r);
+		varcovar = (double*)malloc(sizeof(double)*(r+1)*(r+1));
 
-		reg = reg_init(N,r);
+		reg = reg_init(N,r+1);
 
 		//setIntercept(reg,0);
 		regress(reg,xreg,x,xx,varcovar,0.95);
 
+		free_reg(reg);
 		free(varcovar);
 	}
 
-- 
2.43.0


From 4dcbfc3fc23127bdd213bd006eccd2a123733a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 30/56] fix: auto_arima1 differences only part of the
 regressors

---
 src/ctsa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e58ad7d..6ccd05a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1246,9 +1246,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From 5f84c09b9e2bb36d875b50ceb89ce8f83eae1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 31/56] fix: auto_arima ignores the stationary flag

---
 src/ctsa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6ccd05a..f44d75c 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1212,7 +1212,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	D = DD == NULL ? -1 : *DD;
 
 	if (istationary) {
-		d = D = 0;
+		D = 0;
 	}
 
 	if (m == 1) {
@@ -1256,6 +1256,10 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	d = dd == NULL ? -1 : *dd;
 
+	if (istationary) {
+		d = 0;
+	}
+
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
-- 
2.43.0


From 4e577ee2465c47f08a271f3a602e7dbd9cca4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 32/56] fix: auto_arima ignores the seasonal flag

---
 src/ctsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f44d75c..4d49262 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1108,6 +1108,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
 	}
 
 	if (stepwise == NULL) {
@@ -1147,7 +1149,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	//mdisplay(x,1,N);
 
-	if (s <= 1) {
+	if (s <= 1 || !iseasonal) {
 		m = 1;
 	} else {
 		m = s;
-- 
2.43.0


From a1df8edd16fec0e44fe45df1edac66d90c5f28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 33/56] fix: exhaustive model search allows a mean that was
 disallowed

---
 src/ctsa.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 4d49262..03fd0f3 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1422,8 +1422,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		imean = 1;
-	
 		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
 		free(x);
 		free(xx);
-- 
2.43.0


From edaf29a112af30ae5a7edd9c156a5718a0612119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 34/56] fix: stepwise search refits the best model with the
 constant of the last one

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 03fd0f3..f24c752 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2139,7 +2139,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				best_ic = fit->myarima->ic;
 				memcpy(bestorder,order,sizeof(int)*3);
 				memcpy(bestseasonalorder,seasonalorder,sizeof(int)*4);
-				bestconstant = constant;
+				bestconstant = results[icindex[i]*8 + 6];
 				free(icvector);
 				free(icindex);
 				myarima_free(fit->myarima);
@@ -2157,7 +2157,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
 
 	
 
-- 
2.43.0


From c325b3fafd7021ac1eef057f2ca83f792d43828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 35/56] fix: stepwise search with approximation forgets the
 last model it evaluated

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f24c752..06aff4f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2090,8 +2090,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	k--;
-	if (k == models) {
+	if (k > models) {
+		k = models;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
-- 
2.43.0


From 0636363e02f6d5e81a70fda761c5a358bf9c0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 36/56] fix: myarima accepts first-order moving averages with a
 near unit root

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 06aff4f..e41d2da 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -862,7 +862,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 		//printf(" q Q %d \n", q+Q);
 
-		if (q + Q > 1 && fit->ic < DBL_MAX) {
+		if (q + Q > 0 && fit->ic < DBL_MAX) {
 			isum = 0;
 			imx = -1;
 			for(i = 0; i < iq - 1; ++i) {
-- 
2.43.0


From cb0b54ba41cb18ae2c5546167a243c779eaac9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 37/56] fix: myarima ignores the fitting method for models with
 drift

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index e41d2da..f7add47 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -732,6 +732,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		}
 		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
+		sarimax_setMethod(fit->sarimax,rmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
-- 
2.43.0


From 159700c0a826e18f0f1a8fb9ae0bea82d6ab9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 38/56] fix: exhaustive search never refits the model chosen by
 approximation

---
 src/ctsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f7add47..acb83ae 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -937,6 +937,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("d %d D %d p_max %d q_max %d P_max %d Q_max %d maxK %d \n",d,D,p_max,q_max,P_max,Q_max,maxK);
 
 	best_ic = DBL_MAX;
+	bestK = 0;
 
 	for(i = 0; i <= p_max; ++i) {
 		for(j = 0;j <= q_max;++j) {
@@ -989,7 +990,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, NULL);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
-- 
2.43.0


From 1a15264c7e192df9874740a0b00eefb0736e2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 39/56] fix: collinearity check reads column-stored regressors
 as rows

---
 src/ctsa.c | 2 +-
 src/emle.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index acb83ae..bc34fdf 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1193,7 +1193,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	if (xreg) {
 		// Collinearity check
 
-		rnk = rank(xreg,N,r);
+		rnk = rank(xreg,r,N);
 
 		if (rnk < r) {
 			free(xx);
diff --git a/src/emle.c b/src/emle.c
index 3550b10..d846462 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1716,7 +1716,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
@@ -2399,7 +2399,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
-- 
2.43.0


From c051f3afce7099689df192f56c2ae56b3b4092ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 40/56] fix: OCSB test: lag selection index, sample alignment,
 use after free

---
 src/seastest.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..ed34d2c 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -464,7 +464,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
     mfrows = ylrows;
 
     for(i = 0; i < ylrows;++i) {
-        memcpy(mf+Ny*i,ylag+ylcols*i,sizeof(double)*Ny);
+        memcpy(mf+Ny*i,ylag+ylcols*i+mlags-lag,sizeof(double)*Ny);
     }
 
     //mdisplay(mf,ylrows,Ny);
@@ -533,8 +533,8 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     XX = (double*) malloc(sizeof(double)*(mfrows+2) * Ny);
     memcpy(XX,mf,sizeof(double)*mfrows*Ny);
-    memcpy(XX+mfrows*Ny,z4,sizeof(double)*Ny);
-    memcpy(XX+(mfrows+1)*Ny,z5,sizeof(double)*Ny);
+    memcpy(XX+mfrows*Ny,z4+mlags-lag,sizeof(double)*Ny);
+    memcpy(XX+(mfrows+1)*Ny,z5+mlags-lag,sizeof(double)*Ny);
 
     //mdisplay(XX,mfrows+2,Ny);
     //mdisplay(y,1,Ny);
@@ -624,7 +624,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
     int i, bestindex,allnans,maxlag;
     double *tval,*icvals;
     reg_object fit;
-    reg_object *list = (reg_object*)malloc(sizeof(reg_object)*mlags);
+    reg_object *list = (reg_object*)calloc(mlags,sizeof(reg_object));
     reg_object crit_reg = NULL;
 
     icvals = (double*) malloc(sizeof(double)*mlags);
@@ -646,7 +646,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
 
         bestindex = getBestIndex(icvals,mlags);
-        maxlag = bestindex-1;
+        maxlag = bestindex;
         crit_reg = list[bestindex];
 
     }
@@ -675,6 +675,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
             printf("Could not find a solution. Try a different method. \n");
             exit(-1);
         } else {
+            free_reg(fit);
             fit = crit_reg;
         }
     }
@@ -687,12 +688,14 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
+    *critical = calcOCSBCritVal(f);
+    *statistics = tval[fit->p-1];
+
     for(i = 0; i < mlags;++i) {
-		free_reg(list[i]);
+		if (list[i] != NULL) free_reg(list[i]);
     }
 
-    *critical = calcOCSBCritVal(f);
-    *statistics = tval[fit->p-1];
+    if (fit != crit_reg) free_reg(fit);
 
     free(list);
     free(icvals);
-- 
2.43.0


From 69fa29c9d6a4ecc1016459a9831b201cb1a7faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 41/56] fix: unit root tests: integer overflow of sample size
 products

---
 src/unitroot.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..5c4d987 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -542,7 +542,7 @@ void ur_kpss(double *y, int N,const char* type,int lshort, int *klag, double *st
         s2 += (res[i] * res[i]);
     }
 
-    eta /= (double) (N*N);
+    eta /= ((double) N * (double) N);
     s2 /= (double) N;
 
     if (lshort == 1) {
@@ -588,11 +588,10 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     pval - p-value used to determine null hypothesis
 
     */
-    int i,j,N1,N2,p,l,pN,tN,iter;
+    int i,j,N1,p,l,pN,tN,iter;
     double *z,*yt,*yt1,*tt,*XX,*varcovar,*res,*table,*tablep;
     double at,nssqr_res,trm1,trm2,trm3,trm4,dx,alpha,s2,tstat;
-    double sum_yt1,sum_yt12,sum_yt1n,interp;
-    long int N3;
+    double sum_yt1,sum_yt12,sum_yt1n,interp,N1d,N2,N3;
     reg_object fit;
 
     double nT[6] = {25, 50, 100, 250, 500, 100000};
@@ -606,8 +605,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
      -2.64, -2.65, -2.66, -1.53, -1.66, -1.73, -1.78, -1.78, -1.79, -0.43, -0.65, -0.75, -0.82, -0.84, -0.87};// 8X6
 
     N1 = N - 1;
-    N2 = N1 * N1;
-    N3 = N2 * N1;
+    N1d = (double) N1;
+    N2 = N1d * N1d;
+    N3 = N2 * N1d;
 
     pN = 8;
     tN = 6;
@@ -680,9 +680,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     }
 
     trm1 = N2 * (N2-1) *sum_yt12 / 12.0;
-    trm2 = N1 * sum_yt1n * sum_yt1n;
-    trm3 = N1 * (N1+1) * sum_yt1n * sum_yt1;
-    trm4 = (N1 * (N1+1) * (2*N1+1) * sum_yt1 * sum_yt1) / 6.0;
+    trm2 = N1d * sum_yt1n * sum_yt1n;
+    trm3 = N1d * (N1d+1) * sum_yt1n * sum_yt1;
+    trm4 = (N1d * (N1d+1) * (2*N1d+1) * sum_yt1 * sum_yt1) / 6.0;
 
     dx = trm1-trm2+trm3-trm4;
 
@@ -746,8 +746,8 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     */
     double *y,*y_li,*trend,*XX,*varcovar,*res,*tt,*coprods,*weights;
     int *idx;
-    int N1, lmax, i,p, N12,len,iter;
-    double N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
+    int N1, lmax, i,p, len,iter;
+    double N12,N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
     double myybar,myy,mty,my,sum_y,sig,lambda,lambda_prime,M,my_stat,beta_stat;
     reg_object fit;
 
@@ -766,9 +766,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     }
 
     if (!strcmp(model,"trend")) {
-        cval[0] = -3.9638-8.353/N1-47.44/(N1*N1);
-        cval[1] = -3.4126-4.039/N1-17.83/(N1*N1);
-        cval[2] = -3.1279-2.418/N1-7.58/(N1*N1);
+        cval[0] = -3.9638-8.353/N1-47.44/((double)N1*N1);
+        cval[1] = -3.4126-4.039/N1-17.83/((double)N1*N1);
+        cval[2] = -3.1279-2.418/N1-7.58/((double)N1*N1);
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -816,7 +816,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         mty = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
+        N12 = (double) N1 * (double) N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
@@ -859,7 +859,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sig = s + 2.0 * sig / (double) N1;
         lambda = 0.5 * (sig - s);
         lambda_prime = lambda/sig;
-        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/(double)(N1*N1))*my*my;
+        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/((double)N1*N1))*my*my;
         my_stat = sqrt(s/sig)*my_tstat - lambda_prime*sqrt(sig)*my/(sqrt(M)*sqrt((M+my*my)));
         beta_stat = sqrt(s/sig)*beta_tstat - lambda_prime*sqrt(sig)*(0.5*my - mty)/(sqrt(M/12)*sqrt(myybar));
         auxstat[0] = my_stat;
@@ -888,9 +888,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         free(weights);
         free_reg(fit);
     } else if (!strcmp(model,"constant")) {
-        cval[0] = -3.4335-5.999/(double)N1-29.25/(double)(N1*N1);
-        cval[1] = -2.8621-2.738/(double)N1-8.36/(double)(N1*N1);
-        cval[2] = -2.5671-1.438/(double)N1-4.48/(double)(N1*N1);
+        cval[0] = -3.4335-5.999/(double)N1-29.25/((double)N1*N1);
+        cval[1] = -2.8621-2.738/(double)N1-8.36/((double)N1*N1);
+        cval[2] = -2.5671-1.438/(double)N1-4.48/((double)N1*N1);
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -924,7 +924,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sum_y = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
+        N12 = (double) N1 * (double) N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
-- 
2.43.0


From be9c117d6920c44cc63a1c2640f56e76dbf15bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 42/56] fix: wavelet packet object can be reused (dwpt
 overwrote its node count)

---
 src/wavelib.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index c547349..ffa3e72 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -985,13 +985,14 @@ void dwpt(wpt_object wt, const double *inp) {
 	temp = 1;
 	elength = 0;
 	size = wt->wave->filtlength;
-	nodes = wt->nodes;
-	n1 = nodes + 1;
+	nodes = 0; // wt->nodes holds the size of the best basis after a previous call
 	for (i = 0; i < J; ++i) {
 		temp *= 2;
+		nodes += temp;
 		temp2 = (size - 2) * (temp - 1);
 		elength += temp2;
 	}
+	n1 = nodes + 1;
 	eparam = wt->eparam;
 	orig = (double*)malloc(sizeof(double)* temp_len);
 	tree = (double*)malloc(sizeof(double)* (temp_len * (J + 1) + elength));
@@ -1158,7 +1159,9 @@ void dwpt(wpt_object wt, const double *inp) {
 	it1 = n1;
 	it2 = 0;
 	wt->nodes = 0;
-	wt->numnodeslevel[0] = 0;
+	for (i = 0; i < J + 1; ++i) {
+		wt->numnodeslevel[i] = 0;
+	}
 	//printf("Start \n");
 
 	if (wt->basisvector[0] == 1) {
-- 
2.43.0


From c7b256e847f1074cff86050ffa15d092d5674614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 43/56] fix: STL robustness weights: partial sort truncated
 values and got unordered positions

---
 src/stl.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index af4d106..fd5526d 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -469,8 +469,8 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
 	rw[i__] = (d__1 = y[i__] - fit[i__], fabs(d__1));
 /* L7: */
     }
-    mid[0] = *n / 2 + 1;
-    mid[1] = *n - mid[0] + 1;
+    mid[1] = *n / 2 + 1; // psort_ needs increasing positions
+    mid[0] = *n - mid[1] + 1;
     psort_(&rw[1], *n, mid, c__2);
     cmad = (rw[mid[0]] + rw[mid[1]]) * 3.0;
 /*     = 6 * MAD */
@@ -710,9 +710,8 @@ L300:
 int psort_(double *a, int n, int *ind, int ni)
 {
     int i__, j, k, l, m, p;
-    double t;
+    double t, tt;
     int ij, il[16], jl, iu[16], ju;
-    int tt;
     int indl[16], indu[16];
 
 
-- 
2.43.0


From 49f6657f84dac9d50c32881e6f8aa535c890fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 44/56] fix: mstl: treat the periods in increasing order as the
 sort intends

---
 src/seastest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index ed34d2c..3db7d05 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -345,7 +345,7 @@ void mstl(double *x, int N, int *f, int *Nseas, int *s_window,double *lambda,int
                 for(k = 0; k < N;++k) {
                     deseas[k] += seas[iter+k];
                 }
-                freq = (int) msts[i];
+                freq = (int) msts[pos[i]];
                 stl(deseas,N,freq,"null",&s_window_,NULL,NULL,NULL,NULL,NULL,NULL,NULL,NULL,NULL,NULL,NULL,seas+iter,trend,remainder);
                 for(k = 0; k < N;++k) {
                     deseas[k] -= seas[iter+k];
-- 
2.43.0


From 88bba74e3751f3a3cbffebca6b257d4c5eda8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 45/56] fix: stl: trend window, periodic degree and outer
 iteration options

---
 src/seastest.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 3db7d05..0e7b709 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -220,9 +220,11 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     if (t_window == NULL) {
         t_window_ = nextOdd(ceil( 1.5 * f / (1.0 - 1.5 / (double) s_window_)));
+    } else {
+        t_window_ = *t_window;
     }
 
-    s_degree_ = (s_degree == NULL) ? 0 : *s_degree;
+    s_degree_ = (s_degree == NULL || periodic_) ? 0 : *s_degree;
 
     //if (t_window == NULL) *t_window = 0;
     t_degree_ = (t_degree == NULL) ? 1 : *t_degree;
@@ -234,7 +236,7 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     robust_ = (robust == NULL) ? 0 : *robust;
     inner_ = (inner == NULL) ? (robust_ ? 1 : 2) : *inner;
-    outer_ = (inner == NULL) ? (robust_ ? 15 : 0) : *outer;
+    outer_ = (outer == NULL) ? (robust_ ? 15 : 0) : *outer;
 
     
     s_degree_ = degCheck(s_degree_);
-- 
2.43.0


From d0c49127c73b12863456d0d8a036581841b8db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 46/56] fix: super smoother read before its arrays for periodic
 abscissae

---
 src/talg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/talg.c b/src/talg.c
index 3e8f5c1..cdc03af 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1261,8 +1261,8 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	if (jper == 2) {
 	    j = i__ - ibw - 1;
 	}
-	xti = x[j];
 	if (j >= 1) {
+	    xti = x[j];
 	    goto L10;
 	}
 	j = *n + j;
-- 
2.43.0


From 49fc93ccfe8e45b45d7b930f56ae67e7e1b350f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 47/56] fix: automatic ARIMA objects can be executed again
 (user options and period were overwritten by results)

---
 header/ctsa.h |  3 ++-
 src/ctsa.c    | 14 +++++++++-----
 src/ctsa.h    |  3 ++-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..3a15337 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -53,7 +53,8 @@ struct auto_arima_set{
 	int retval;
 	int start;
 	int imean;
-	int idrift;
+	int idrift;// 1 if the fitted model contains a drift term
+	int allowdrift;// 1 if models with drift may be fitted
 	int stationary;
 	int seasonal;
 	int Order_max;
diff --git a/src/ctsa.c b/src/ctsa.c
index bc34fdf..48149b2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -306,7 +306,8 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->alpha_test = 0.05;
 	obj->alpha_seas = 0.05;
 	obj->imean = 1;
-	obj->idrift = 1;
+	obj->idrift = 0;
+	obj->allowdrift = 1;
 
 	strcpy(obj->test,"kpss");
 	strcpy(obj->seas,"seas");
@@ -427,10 +428,10 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 
 	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
-	 &obj->idrift, &obj->imean,obj->verbose, NULL);
+	 &obj->allowdrift, &obj->imean,obj->verbose, NULL);
 
 	imean = obj->imean;
-	idrift = obj->idrift;
+	idrift = obj->allowdrift;
 
 	if (fit->otype == 2) {
 		p = fit->Arima->sarimax->p;
@@ -495,7 +496,10 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	obj->d = d;
 	obj->q = q;
 	obj->N = N;
-	obj->s = s;
+	// a model without seasonal part does not change the period of the series
+	if (P + D + Q > 0) {
+		obj->s = s;
+	}
 	obj->P = P;
 	obj->D = D;
 	obj->Q = Q;
@@ -2796,7 +2800,7 @@ void auto_arima_allowMean(auto_arima_object obj, int allowmean) {
 
 void auto_arima_allowDrift(auto_arima_object obj, int allowdrift) {
 	if (allowdrift == 0 || allowdrift == 1) {
-		obj->idrift = allowdrift;
+		obj->allowdrift = allowdrift;
 	} else {
 		printf("Allowdrift parameter accepts only two values - 0 or 1 \n");
 	}
diff --git a/src/ctsa.h b/src/ctsa.h
index c485a9f..2fb9541 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -180,7 +180,8 @@ struct auto_arima_set{
 	int retval;
 	int start;
 	int imean;
-	int idrift;
+	int idrift;// 1 if the fitted model contains a drift term
+	int allowdrift;// 1 if models with drift may be fitted
 	int stationary;
 	int seasonal;
 	int Order_max;
-- 
2.43.0


From 00b44862e5fd58a6a7d26fe531263ccab4ef7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 48/56] fix: Nelder-Mead lost the best point (restart vertex,
 stale best vertex, result vertex) and tested wrong neighbours

---
 src/neldermead.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/neldermead.c b/src/neldermead.c
index 58a1f0c..ab9a744 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -63,6 +63,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	while (ctl == 0 && *niter < siter) {
 		// Create N+1 point Simplex
+		ct = N * N;
 		for (i = 0; i < N;++i) {
 			P[ct + i] = xi[i];
 		}
@@ -249,6 +250,9 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			if (Y[ihi] < ylo) {
 				ylo = Y[ihi];
 				ilo = ihi;
+				for (i = 0; i < N;++i) {
+					PL[i] = P[ilo * N + i];
+				}
 			}
 
 			//To the end of the loop
@@ -291,6 +295,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			} else {
 				ctl++;
 			}
+			xmin[i] += del;
 		}
 
 		if (ctl == 0) {
@@ -303,9 +308,9 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	}
 
-	ct = N * N;
+	// Best point found - lowest vertex, or the lower point which was to start the next simplex
 	for (i = 0; i < N;++i) {
-		xf[i] = P[ct + i];
+		xf[i] = (ctl == 0) ? xi[i] : P[ilo * N + i];
 	}
 
 	if (rcode == 0 && *niter >= siter) {
-- 
2.43.0


From 8ba14a769660f3ca702ae5014cafc6001f6dac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 49/56] fix: symmetrised difference Hessian was not symmetric

---
 src/newtonmin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newtonmin.c b/src/newtonmin.c
index 6943d1e..5ecb221 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -494,8 +494,9 @@ void hessian_fdg(custom_gradient *funcgrad, double *x, int N, double *jac, doubl
 
 	for(i = 0; i < N;++i) {
 		k = i * N;
-		for(j = 0; j < N;++j) {
+		for(j = 0; j < i;++j) {
 			H[k + j] = (H[k + j] + H[j*N + i]) / 2.0;
+			H[j*N + i] = H[k + j];
 		}
 	}
 }
-- 
2.43.0


From fbdb9da8fedbea5b2a8114818ef90bff2be27e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 50/56] fix: tcdf returned 0.5 for statistics so large that
 df/(df+t^2) vanishes

---
 src/pdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdist.c b/src/pdist.c
index 877eefb..215879a 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -93,7 +93,7 @@ double tcdf(double t, int df) {
 		oup = 1. - oup;
 	}
 	
-	if ( x == 0.) {
+	if ( t == 0.) {
 		oup = 0.5;
 	}
 	
-- 
2.43.0


From d460cad7a2b269abb63da4eff7e0f0e8a3f0f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 51/56] fix: tinv lost the sign of lower quantiles, and
 confidence limits were swapped for more than 1000 degrees of freedom

---
 src/pdist.c      | 2 +-
 src/regression.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 215879a..5d3d8ba 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -183,7 +183,7 @@ double tinv(double p, int df) {
 		x = betainv(pmin,d2,0.5);
 		y = 1. - x;
 		
-		t = sqrt( (double) df * y / x);
+		t = sign * sqrt( (double) df * y / x);
 	}
 	
 	if ( p > 0. && p < 1. && df > 1000 ) {
diff --git a/src/regression.c b/src/regression.c
index ff410cb..9b8b2ae 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -157,7 +157,7 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	a2 = alpha / 2.;
 	df = N - 2; // Number of parameters = 2
 
-	ta2 = tinv(a2, df);
+	ta2 = tinv(1. - a2, df);
 	intrvl = ta2 * seb1;
 
 	ci_lower[0] = b[0] - intrvl;
@@ -342,7 +342,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	for (i = 0; i < p; ++i) {
 		seb[i] = sqrt(xxti[i*(p + 1)]);
 
-		ta2 = tinv(a2, df);
+		ta2 = tinv(1. - a2, df);
 		intrvl = ta2 * seb[i];
 
 		ci_lower[i] = b[i] - intrvl;
-- 
2.43.0


From 6fe967670bb5ccd65a9845307f5483447ad7d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 52/56] fix: Box-Jenkins fit of a model without parameters read
 past empty arrays

---
 src/boxjenkins.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a94e58d..a7071b3 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -611,7 +611,7 @@ void avalues(double *w,int N,int p, int q, double *phi,double *theta,int s,int p
 int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
+	double lam,vmul,e1,di,eps2,stepsize,temp,hmax,suminc,sumb;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiinc,*thetainc,*atinc,*resat,*origval;
 	int *ipiv;
@@ -759,8 +759,6 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k+i]);
 	}
 
-	tau = array_max(D,k);
-	//printf("TAU %g \n",tau);
 	//mdisplay(x,k,N+qd-1);
 
 	while (hmax >= e1 && it < itmax) {
@@ -785,8 +783,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		for(i = 0; i < k*k;++i) {
 			Atemp[i] = A[i];
 		}
-		ludecomp(A,k,ipiv);
-		linsolve(A,k,g,ipiv,h);
+		if (k > 0) {
+			ludecomp(A,k,ipiv);
+			linsolve(A,k,g,ipiv,h);
+		}
 		for(i = 0; i < k*k;++i) {
 			A[i] = Atemp[i];
 		}
@@ -974,8 +974,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		}
 	}
 
-	ludecomp(A,k,ipiv);
-	minverse(A,k,ipiv,varcovar);
+	if (k > 0) {
+		ludecomp(A,k,ipiv);
+		minverse(A,k,ipiv,varcovar);
+	}
 
 	//mdisplay(varcovar, 1, k*k);
 
@@ -1016,7 +1018,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,temp2;
+	double lam,vmul,e1,di,eps2,stepsize,temp,hmax,suminc,sumb,temp2;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1306,9 +1308,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k + i]);
 	}
 
-	tau = array_max(D, k);
 
-	//printf("TAUMAX %g \n", tau);
 
 	while (hmax >= e1 && it < itmax) {
 		it++;
@@ -1332,8 +1332,10 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		for(i = 0; i < k*k;++i) {
 			Atemp[i] = A[i];
 		}
-		ludecomp(A,k,ipiv);
-		linsolve(A,k,g,ipiv,h);
+		if (k > 0) {
+			ludecomp(A,k,ipiv);
+			linsolve(A,k,g,ipiv,h);
+		}
 		for(i = 0; i < k*k;++i) {
 			A[i] = Atemp[i];
 		}
@@ -1611,8 +1613,10 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		}
 	}
 
-	ludecomp(A, k, ipiv);
-	minverse(A, k, ipiv, varcovar);
+	if (k > 0) {
+		ludecomp(A, k, ipiv);
+		minverse(A, k, ipiv, varcovar);
+	}
 
 	for (i = 0; i < k*k; ++i) {
 		varcovar[i] = varcovar[i] * (*var);
-- 
2.43.0


From 404826490f0f3722cfa40e64c2263c00b877fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 53/56] fix: Box-Jenkins fits divided by a zero step when a
 start value was exactly zero (e.g. the mean of a centred series)

---
 src/boxjenkins.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a7071b3..097791c 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -701,7 +701,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	//mdisplay(at,1,N+qd-1);
 	for(i = 0; i < k;++i) {
-		stepsize = b[i]*di;//di;//b[i] * di;
+		stepsize = (b[i] != 0.0) ? b[i]*di : di;
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -855,7 +855,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 			    }
 				
 				for(i = 0; i < k;++i) {
-					stepsize = b[i]*di;//di;//b[i] * di;
+					stepsize = (b[i] != 0.0) ? b[i]*di : di;
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
@@ -1214,7 +1214,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	
 	for (i = 0; i < k; ++i) {
-		stepsize = b[i] * di;//di;//b[i] * di;
+		stepsize = (b[i] != 0.0) ? b[i] * di : di;
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -1440,7 +1440,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 				}
 
 				for (i = 0; i < k; ++i) {
-					stepsize = b[i] * di;//di;//b[i] * di;
+					stepsize = (b[i] != 0.0) ? b[i] * di : di;
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
-- 
2.43.0


From d63ce57c480b00066c11af51ac738887e181cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 54/56] fix: Box-Jenkins fits reported the constant term as the
 mean, so forecasts were centred at the wrong level

---
 src/boxjenkins.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 097791c..6b786ad 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -943,13 +943,9 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 /(N - p - q - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		for (i = 0;i < p;++i) {
-			temp += phiinc[i];
-		}
-		*thetac = b[0] * (1.0 - temp);
+		*thetac = b[0];
 	} else {
 		*thetac = 0.0;
 	}
@@ -1018,7 +1014,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,hmax,suminc,sumb,temp2;
+	double lam,vmul,e1,di,eps2,stepsize,temp,hmax,suminc,sumb;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1562,17 +1558,9 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		temp2 = 0.0;
-		for (i = 0; i < p; ++i) {
-			temp -= phiinc[i+1];
-		}
-		for (i = 0; i < lps; ++i) {
-			temp2 -= phisinc[i + 1];
-		}
-		*thetac = b[0] * (1.0 - temp)*(1.0 - temp2) ;
+		*thetac = b[0];
 	}
 	else {
 		*thetac = 0.0;
-- 
2.43.0


From ce03a6f72ad19ca0c65132d395aaaa897e465cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 55/56] fix: covariance matrix of Box-Jenkins fits listed the
 mean first, not last as the accessors and summaries expect

---
 src/boxjenkins.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 6b786ad..90c944d 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -958,10 +958,11 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		theta[i] = thetainc[i];
 	}
 
+	// the mean is the last parameter of the covariance matrix
 	for(i = 0; i < k;++i) {
-		t = i * (N + qd - 1);
+		t = ((i + M) % k) * (N + qd - 1);
 		for(j = 0; j < k;++j) {
-			t2 = j * (N + qd - 1);
+			t2 = ((j + M) % k) * (N + qd - 1);
 			A[i*k+j] = 0.0;
 			for(l = 0; l < N + qd -1;++l) {
 				A[i*k+j] += x[t+l] * x[t2+l];
@@ -1589,10 +1590,11 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		thetas[i] = -thetast1[i + 1];
 	}
 
+	// the mean is the last parameter of the covariance matrix
 	for (i = 0; i < k; ++i) {
-		t = i * (N + qd - 1);
+		t = ((i + M) % k) * (N + qd - 1);
 		for (j = 0; j < k; ++j) {
-			t2 = j * (N + qd - 1);
+			t2 = ((j + M) % k) * (N + qd - 1);
 			A[i*k + j] = 0.0;
 			for (l = 0; l < N + qd - 1; ++l) {
 				A[i*k + j] += x[t + l] * x[t2 + l];
-- 
2.43.0


From 989e8693d08f23d609afb160a6008a03f834faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 56/56] fix: Box-Jenkins fits reported the last trial step and
 its residuals even when the step was rejected

---
 src/boxjenkins.c | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 90c944d..ac4fee6 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -820,10 +820,6 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		}
 
 	    avaluem(orig,N,p,q,phiinc,thetainc,qd,atinc);
-	    for(i = 0; i < N+qd-1;++i) {
-	    	resat[i] = atinc[i];
-	    }
-
 	    suminc = sosqm(atinc,N+qd-1);
 	    sumb = sosqm(at,N+qd-1);
 
@@ -952,10 +948,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 	
 	for (i = 0; i < p;++i) {
-		phi[i] = phiinc[i];
+		phi[i] = b[M+i];
 	}
 	for (i = 0; i < q;++i) {
-		theta[i] = thetainc[i];
+		theta[i] = b[M+p+i];
 	}
 
 	// the mean is the last parameter of the covariance matrix
@@ -1399,10 +1395,6 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
 		avaluem(orig, N, s*lps + p, s*lqs + q, phiincx + 1, thetaincx + 1, qd, atinc);
 
-		for (i = 0; i < N + qd - 1; ++i) {
-			resat[i] = atinc[i];
-		}
-
 		suminc = sosqm(atinc, N + qd - 1);
 		sumb = sosqm(at, N + qd - 1);
 
@@ -1569,25 +1561,18 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 
 	for (i = 0; i < p; ++i) {
-		phi[i] = -phiinc[i+1];
+		phi[i] = b[M + i];
 	}
 	for (i = 0; i < q; ++i) {
-		theta[i] = -thetainc[i+1];
+		theta[i] = b[M + p + i];
 	}
 
-	downsample(phisinc, s*lps + 1, s, phist1);
-	downsample(thetasinc, s*lqs + 1, s, thetast1);
-
-	//mdisplay(phist1, 1, lps + 1);
-	//mdisplay(thetast1, 1, lqs + 1);
-
-
 	for (i = 0; i < lps; ++i) {
-		phis[i] = -phist1[i + 1];
+		phis[i] = b[M + p + q + i];
 	}
 
 	for (i = 0; i < lqs; ++i) {
-		thetas[i] = -thetast1[i + 1];
+		thetas[i] = b[M + p + q + lps + i];
 	}
 
 	// the mean is the last parameter of the covariance matrix
-- 
2.43.0

