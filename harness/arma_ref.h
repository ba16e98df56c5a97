/* Reference ARMA arithmetic, written from the textbook definitions (no Kalman filter, no library code):
 * coefficients are concrete, data may be symbolic.  y_t = sum phi_i y_{t-i} + e_t + sum theta_j e_{t-j}. */
#ifndef ARMA_REF_H
#define ARMA_REF_H
typedef struct { int p, d, q, s, P, D, Q; } mspec;
static void ref_parcor(const double *pc, int p, double *phi) { double t[16]; for (int k = 0; k < p; k++) { for (int j = 0; j < k; j++) t[j] = phi[j] - pc[k] * phi[k - 1 - j]; for (int j = 0; j < k; j++) phi[j] = t[j]; phi[k] = pc[k]; } }
/* (1 + sum a_i B^i)(1 + sum A_j B^{js}) with sign sg on both coefficient sets; result coefficients 1..n times sg */
static int ref_expand(const double *a, int na, const double *A, int nA, int s, int sg, double *out) { int n = na + s * nA; for (int i = 1; i <= n; i++) out[i - 1] = 0; for (int i = 0; i <= na; i++) for (int j = 0; j <= nA; j++) if (i + j * s > 0) { double u = i ? sg * a[i - 1] : 1, v = j ? sg * A[j - 1] : 1; out[i + j * s - 1] += sg * u * v; } return n; }
/* coefficients of (1-B)^d (1-B^s)^D, out[0..d+sD] */
static int ref_dpoly(int d, int D, int s, double *out) { int n = 0; out[0] = 1; for (int i = 0; i < d; i++) { out[n + 1] = 0; n++; for (int k = n; k >= 1; k--) out[k] -= out[k - 1]; } for (int i = 0; i < D; i++) { for (int k = n + 1; k <= n + s; k++) out[k] = 0; n += s; for (int k = n; k >= s; k--) out[k] -= out[k - s]; } return n; }
static void ref_solve(double *A, double *b, int n) { for (int c = 0; c < n; c++) { int pv = c; for (int i = c + 1; i < n; i++) if (fabs(A[i * n + c]) > fabs(A[pv * n + c])) pv = i; for (int j = 0; j < n; j++) { double t = A[c * n + j]; A[c * n + j] = A[pv * n + j]; A[pv * n + j] = t; } double t = b[c]; b[c] = b[pv]; b[pv] = t; for (int i = c + 1; i < n; i++) { double f = A[i * n + c] / A[c * n + c]; if (f != 0) { for (int j = c; j < n; j++) A[i * n + j] -= f * A[c * n + j]; b[i] -= f * b[c]; } } } for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) b[i] -= A[i * n + j] * b[j]; b[i] /= A[i * n + i]; } }
/* autocovariances 0..n-1 for unit innovation variance */
static void ref_gamma(const double *phi, int ip, const double *th, int iq, int n, double *g) {
  int m = ip + 1; double *psi = calloc(iq + 1, 8), *A = calloc(m * m, 8), *b = calloc(m, 8);
  for (int i = 0; i <= iq; i++) { psi[i] = i ? th[i - 1] : 1; for (int k = 1; k <= ip && k <= i; k++) psi[i] += phi[k - 1] * psi[i - k]; }
  #define REF_RHS(k, r) double r = 0; for (int j = k; j <= iq; j++) r += (j ? th[j - 1] : 1) * psi[j - k];
  for (int k = 0; k < m; k++) { REF_RHS(k, r) b[k] = r; A[k * m + k] += 1; for (int j = 1; j <= ip; j++) A[k * m + abs(k - j)] -= phi[j - 1]; }
  ref_solve(A, b, m);
  for (int k = 0; k < n; k++) { if (k < m) { g[k] = b[k]; continue; } REF_RHS(k, r) g[k] = r; for (int j = 1; j <= ip; j++) g[k] += phi[j - 1] * (k - j < n ? g[k - j] : 0); }
  free(psi); free(A); free(b);
}
/* rows of the inverse Cholesky factor of the n x n Toeplitz covariance; returns log det */
static double ref_whiten(const double *g, int n, double *Li) {
  double *L = calloc(n * n, 8), ld = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double a = g[i - j]; for (int k = 0; k < j; k++) a -= L[i * n + k] * L[j * n + k]; if (i == j) { L[i * n + i] = sqrt(a); ld += log(a); } else L[i * n + j] = a / L[j * n + j]; }
  for (int i = 0; i < n * n; i++) Li[i] = 0;
  for (int c = 0; c < n; c++) for (int i = c; i < n; i++) { double a = i == c; for (int k = c; k < i; k++) a -= L[i * n + k] * Li[k * n + c]; Li[i * n + c] = a / L[i * n + i]; }
  free(L); return ld;
}
/* conditional residuals: the first ncond are zero, earlier residuals are zero */
static void ref_css(const double *w, int n, const double *phi, int ip, const double *th, int iq, double *e) { for (int i = 0; i < n; i++) { e[i] = 0; if (i < ip) continue; e[i] = w[i]; for (int j = 1; j <= ip; j++) e[i] -= phi[j - 1] * w[i - j]; for (int j = 1; j <= iq && i - j >= ip; j++) e[i] -= th[j - 1] * e[i - j]; } }
/* finite-sample best linear prediction: y (n values) with difference polynomial c[0..k]; w = differenced, nw = n-k.
 * yp[h], mse[h] (unit innovation variance) for h = 1..L, given the whitening rows of the nw-dimensional covariance */
static void ref_forecast(const double *y, int n, const double *c, int k, const double *w, int nw, const double *g, int L, double *yp, double *mse) {
  double *C = malloc(8 * L * nw), *S = malloc(8 * L * L), *A = malloc(8 * nw * nw), *b = malloc(8 * nw), *full = malloc(8 * (n + L)), *ci = malloc(8 * (L + 1));
  for (int h = 0; h < L; h++) { for (int i = 0; i < nw; i++) { for (int j = 0; j < nw; j++) A[i * nw + j] = g[abs(i - j)]; b[i] = g[nw + h - i]; } ref_solve(A, b, nw); for (int i = 0; i < nw; i++) C[h * nw + i] = b[i]; }
  for (int a = 0; a < L; a++) for (int h = 0; h < L; h++) { double v = g[abs(a - h)]; for (int i = 0; i < nw; i++) v -= C[a * nw + i] * g[nw + h - i]; S[a * L + h] = v; }
  for (int i = 0; i < n; i++) full[i] = y[i];
  for (int h = 0; h < L; h++) { full[n + h] = sym_dot(C + h * nw, w, nw); for (int j = 1; j <= k; j++) full[n + h] -= c[j] * full[n + h - j]; yp[h] = full[n + h]; }
  for (int i = 0; i < L; i++) { ci[i] = i == 0; for (int j = 1; j <= k && j <= i; j++) ci[i] -= c[j] * ci[i - j]; }
  for (int h = 0; h < L; h++) { double v = 0; for (int a = 0; a <= h; a++) for (int z = 0; z <= h; z++) v += ci[h - a] * ci[h - z] * S[a * L + z]; mse[h] = v; }
  free(C); free(S); free(A); free(b); free(full); free(ci);
}
#endif
