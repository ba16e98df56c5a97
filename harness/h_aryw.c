/* P14: Yule-Walker, innovations and partial autocorrelations from arbitrary autocovariances (autocovar/autocorr, decided by
 * P04, are replaced by arbitrary positive definite values). */
#include "sym.h"
#include "ctsa.h"
#include "initest.h"
static double R[12]; static double *XS; static int XN, ncall;
static void chk(double *x, int N) { ncall++; sym_true(N == XN, "length"); for (int i = 0; i < N && N == XN; i++) sym_eq(x[i], XS[i], 0, "series reaches the autocovariances"); }
void stub_autocovar(double *x, int N, double *a, int M) { chk(x, N); for (int i = 0; i < M; i++) a[i] = R[i]; }
void stub_autocorr(double *x, int N, double *a, int M) { chk(x, N); for (int i = 0; i < M; i++) a[i] = i ? R[i] / R[0] : 1; }
static void setup(int N, int M, int full) { XN = N; ncall = 0; XS = malloc(8 * N); for (int i = 0; i < N; i++) XS[i] = sym_n("x", i, -1, 1); R[0] = full ? sym("r0", 1, 3) : 2; for (int i = 1; i <= M; i++) R[i] = full >= 2 - (i > 5) && i > M - full ? sym_n("r", i, -0.15, 0.15) : full && i <= full ? sym_n("r", i, -0.15, 0.15) : (i * 7 % 5 - 2) * 0.06; }
/* normal equations of order p: sum_j phi_j r(|i-j|) = r(i) */
static void normal(const double *phi, int p, const char *w) { for (int i = 1; i <= p; i++) { double a = -R[i]; for (int j = 1; j <= p; j++) a += phi[j - 1] * R[abs(i - j)]; sym_eq(a, 0, 1e-9, "%s order %d: Yule-Walker equation %d", w, p, i); } }
static void yule(int p, int ns) { SYM_CASE("yule-walker p=%d symbolic=%d", p, ns) { setup(p + 3, p, ns); double ph[12], p2[12], v, pa[12], v2, pb[12], w = R[0]; ywalg(XS, XN, p, ph); normal(ph, p, "ywalg"); ywalg2(XS, XN, p, p2, &v); normal(p2, p, "ywalg2"); for (int j = 0; j < p; j++) w -= p2[j] * R[j + 1]; sym_eq(v, w, 1e-9, "innovation variance"); yw(XS, XN, p, pa, &v2); for (int j = 0; j < p; j++) sym_eq(pa[j], p2[j], 1e-9, "yw"); sym_eq(v2, w, 1e-9, "yw variance"); ar(XS, XN, p, 0, pb, &v2); for (int j = 0; j < p; j++) sym_eq(pb[j], p2[j], 1e-9, "ar method 0"); sym_eq(v2, w, 1e-9, "ar variance"); free(XS); } }
static void part(int M, int ns) { SYM_CASE("pacf M=%d symbolic=%d", M, ns) { setup(M + 4, M, ns); double pa[12], pb[12]; pacf(XS, XN, pa, M); pacf_opt(XS, XN, 0, pb, M);
  /* reference: last coefficient of the order-k normal equations, by Cramer elimination */
  for (int k = 1; k <= M; k++) { double A[100], b[10]; for (int i = 0; i < k; i++) { b[i] = R[i + 1]; for (int j = 0; j < k; j++) A[i * k + j] = R[abs(i - j)]; } for (int c = 0; c < k; c++) for (int i = c + 1; i < k; i++) { double f = A[i * k + c] / A[c * k + c]; for (int j = c; j < k; j++) A[i * k + j] -= f * A[c * k + j]; b[i] -= f * b[c]; } double w = b[k - 1] / A[k * k - 1]; sym_eq(pa[k - 1], w, 1e-9, "pacf lag %d", k); sym_eq(pb[k - 1], w, 1e-9, "pacf_opt lag %d", k); } free(XS); } }
static void inno(int lag, int q, int ns) { SYM_CASE("innovations lag=%d q=%d symbolic=%d", lag, q, ns) { setup(lag + 4, lag, ns); double th[12], v[12], T[144]; int n = lag + 1; innalg(XS, XN, lag, v, T); ma_inn(XS, XN, q, th, lag);
  /* the covariance matrix factors as L diag(v) L' with unit lower triangular L(i,i-j) = theta(i,j) */
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double a = 0; for (int k = 0; k <= j; k++) a += (k == i ? 1 : T[i * n + i - k]) * (k == j ? 1 : T[j * n + j - k]) * v[k]; sym_eq(a, R[i - j], 1e-9, "innovations factorisation %d %d", i, j); }
  for (int j = 0; j < q; j++) sym_eq(th[j], -T[lag * n + 1 + j], 1e-12, "moving average coefficient %d", j); free(XS); } }
int main(int argc, char **argv) { int t = sym_tier();
  for (int p = 1; p <= 10; p++) { yule(p, p <= 3 + t ? p : p <= 6 + t); if (p > 3 && p <= 5 + t) yule(p, 2); yule(p, 0); } for (int M = 1; M <= 7; M++) { part(M, M <= 3 + t ? M : 1); part(M, 0); }
  for (int l = 1; l <= 8; l++) for (int q = 1; q <= l; q += l > 3 ? 2 : 1) { inno(l, q, l <= 2 ? l : 1); inno(l, q, 0); }
  return 0; }
