/* P30: Box-Jenkins (unconditional least squares) estimation: residuals by backcasting, start values, the damped
 * least-squares iteration for arbitrary residuals, and what fits with method 2 report. */
#include "sym.h"
#include "../src/ctsa.h"
#include "initest.h"
#include "boxjenkins.h"
#ifndef PART
#define PART 1
#endif
#if PART == 1
/* a_t = w_t - sum phi w_{t-j} + sum theta a_{t-j}, t = -T..N-1, w before 0 backcast by the reversed model whose errors end at N-1-k */
static void ref(const double *w, int N, int p, int q, const double *f, const double *h, int T, double *a) {
  int k = p > q ? p : q; double *W = calloc(T + N, 8), *E = calloc(N + T + 2 * k + 2, 8), *A = calloc(T + N, 8); (void)E;
  for (int t = 0; t < N; t++) W[T + t] = w[t]; for (int t = N - 1 - k; t >= 0; t--) { double v = w[t]; for (int j = 1; j <= p; j++) v -= f[j - 1] * w[t + j]; for (int j = 1; j <= q; j++) v += h[j - 1] * E[t + j]; E[t] = v; }
  for (int t = -1; t >= -T; t--) { double v = 0; for (int j = 1; j <= p; j++) v += f[j - 1] * W[T + t + j]; for (int j = 1; j <= q; j++) if (t + j >= 0) v -= h[j - 1] * E[t + j]; W[T + t] = v; }
  for (int t = -T; t < N; t++) { double v = W[T + t]; for (int j = 1; j <= p && t - j >= -T; j++) v -= f[j - 1] * W[T + t - j]; for (int j = 1; j <= q && t - j >= -T; j++) v += h[j - 1] * A[T + t - j]; A[T + t] = v; if (t > -T) a[T + t - 1] = v; }
  free(W); free(E); free(A);
}
#endif
#if PART == 2
static double C[64]; static int WK; static const double *WI; static int WN;
void stub_autocovar(double *v, int N, double *c, int M) { sym_true(v == WI && N == WN && M == WK, "autocovariances asked for: %d", M); for (int i = 0; i < M; i++) c[i] = C[i]; }
#endif
#if PART == 4
/* least-squares iteration: residuals at new points are arbitrary, near a known point they are linear with a fixed slope */
#define MB 64
static int p, q, P, Q, s, K, M, nb, nn, nN, qd, L, nsym, nev, worst, ev0; static double base[MB][8], R[MB][160], X[8][160], ow[64], mu0, b0[8]; static int bad[MB];
static void start(double *ph, double *th, double *phs, double *ths, double *mu) { for (int i = 0; ph && i < p; i++) ph[i] = b0[i]; for (int i = 0; th && i < q; i++) th[i] = b0[p + i]; for (int i = 0; phs && i < P; i++) phs[i] = b0[p + q + i]; for (int i = 0; ths && i < Q; i++) ths[i] = b0[p + q + P + i]; if (mu) *mu = mu0; }
void stub_USPE(double *w, int N, int p_, int q_, double *ph, double *th, double *mu, double *var) { sym_true(N == nN && p_ == p && q_ == q, "start values: sizes"); for (int i = 0; i < N; i++) sym_eq(w[i], ow[i], 1e-12, "start values from the differenced series"); start(ph, th, NULL, NULL, mu); *var = 1; }
void stub_USPE_seasonal(double *w, int N, int s_, int p_, int q_, double *ph, double *th) { sym_true(N == nN && p_ == P && q_ == Q && s_ == s, "seasonal start values: sizes"); for (int i = 0; i < N; i++) sym_eq(w[i], ow[i], 1e-12, "start values from the differenced series"); start(NULL, NULL, ph, th, NULL); }
/* b is a known point, or one with a single coordinate moved as for a difference quotient */
static int find(const double *b, double r) { for (int k = nb - 1; k >= 0; k--) { int c = 0, i; for (i = 0; i < K; i++) { double e = fabs(b[i] - base[k][i]); if (e < 1e-12) continue; if (!(e <= r * (fabs(base[k][i]) + (base[k][i] == 0)))) break; c++; } if (i == K && c <= 1) return k; } return -1; }
static double ss(int k) { double v = 0; for (int l = 0; l < L; l++) v += R[k][l] * R[k][l]; return v; }
void stub_avaluem(double *w, int N, int np, int nq, double *f, double *h, int T, double *a) {
  double b[8]; nev++; sym_true(N == nN && np == p + s * P && nq == q + s * Q && T == qd, "residuals: sizes %d %d %d %d", N, np, nq, T);
  for (int i = 0; i < p; i++) b[i] = f[i]; for (int i = 0; i < q; i++) b[p + i] = h[i]; for (int i = 0; i < P; i++) b[p + q + i] = f[(i + 1) * s - 1]; for (int i = 0; i < Q; i++) b[p + q + P + i] = h[(i + 1) * s - 1];
  if (s) { for (int l = 1; l <= np; l++) { double c = 0; for (int i = 0; i <= p; i++) for (int j = 0; j <= P; j++) if (i + s * j == l) c += (i ? -b[i - 1] : 1) * (j ? -b[p + q + j - 1] : 1); sym_eq(f[l - 1], -c, 1e-9, "expanded AR polynomial %d", l); } for (int l = 1; l <= nq; l++) { double c = 0; for (int i = 0; i <= q; i++) for (int j = 0; j <= Q; j++) if (i + s * j == l) c += (i ? -b[p + i - 1] : 1) * (j ? -b[p + q + P + j - 1] : 1); sym_eq(h[l - 1], -c, 1e-9, "expanded MA polynomial %d", l); } }
  double mu = ow[0] - w[0]; if (M) b[K - 1] = mu; for (int i = 0; i < N; i++) sym_eq(w[i], ow[i] - (M ? mu : 0), 1e-9, "one level is subtracted");
  int k = find(b, 1.6e-8);
  if (k < 0) { if (nb >= MB) { printf("too many points\n"); abort(); } k = nb++; memcpy(base[k], b, sizeof b);
    double u = k < nsym ? sym_n("u", k, -4, 4) : k == nsym ? 0.25 : 3 + k; for (int l = 0; l < L; l++) { R[k][l] = k > nsym ? 0 : 0.0; if (k <= nsym) for (int i = 0; i < K; i++) R[k][l] += X[i][l] * ((k == nsym && !bad[0]) ? 0 : (i + 1) / 8.0 / (1 + k)); } R[k][0] += u; R[k][1] -= u; }
  for (int l = 0; l < L; l++) { a[l] = R[k][l]; for (int i = 0; i < K; i++) a[l] -= X[i][l] * (b[i] - base[k][i]); }
}
static void check(const double *ph, const double *th, const double *phs, const double *ths, double mu, double var, const double *vc, const double *res, int rc) {
  int best = 0; double b[8]; for (int i = 0; i < p; i++) b[i] = ph[i]; for (int i = 0; i < q; i++) b[p + i] = th[i]; for (int i = 0; i < P; i++) b[p + q + i] = phs[i]; for (int i = 0; i < Q; i++) b[p + q + P + i] = ths[i]; if (M) b[K - 1] = mu; else sym_eq(mu, 0, 0, "no mean");
  sym_true(rc == 1 || rc == 4, "status %d", rc); best = find(b, 0); sym_true(best >= 0, "the estimates returned were evaluated"); if (best < 0) return;
  for (int k = 0; k < nb; k++) sym_le(ss(best), ss(k), 1e-9, "no point tried has a smaller sum of squares (%d)", k);
  sym_eq(var * (nN - K), ss(best), 1e-6, "innovation variance"); for (int t = 0; t < nN; t++) sym_eq(res[t], R[best][qd - 1 + t], 1e-5, "residual %d at the estimates", t);
  for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { double v = 0; for (int m = 0; m < K; m++) { double g = 0; for (int l = 0; l < L; l++) g += X[m][l] * X[j][l]; v += vc[i * K + m] * g; } sym_eq(v, i == j ? var : 0, 1e-4, "covariance matrix is var * inverse(X'X) %d %d", i, j); }
  if (nb > 1 && K) { double h[8], A[64], n2 = 0, lam = 0; for (int i = 0; i < K; i++) { h[i] = base[1][i] - base[0][i]; for (int j = 0; j < K; j++) { A[i * K + j] = 0; for (int l = 0; l < L; l++) A[i * K + j] += X[i][l] * X[j][l]; } } for (int i = 0; i < K; i++) { double g = 0, r; for (int l = 0; l < L; l++) g += X[i][l] * R[0][l]; r = g; for (int j = 0; j < K; j++) r -= A[i * K + j] * h[j]; if (i == 0) lam = r / (A[0] * h[0]); sym_eq(r, lam * A[i * K + i] * h[i], 1e-4, "first step solves the damped normal equations %d", i); } (void)n2; sym_true(lam > 0 && lam < 0.1, "damping %g", lam); }
}
static void setup(int v) { sym_rseed(v + 7 * K); for (int i = 0; i < K; i++) for (int l = 0; l < L; l++) { X[i][l] = (sym_rnd(9) - 4) / 8.0 + ((l % (K + 1)) == i); } for (int i = 0; i < K; i++) X[i][1] = X[i][0] = 0; nb = nev = 0; bad[0] = v & 1; mu0 = v % 3 == 2 ? 0 : 0.5; for (int i = 0; i < K; i++) b0[i] = i == v % (K + 1) ? 0 : (i % 2 ? 0.25 : 0.375) + i / 16.0; }
#endif
#if PART == 8
static int kind, p, d, q, s, P, D, Q, N, Mm, K, nres, calls; static double *wi, PH[4], TH[4], PS[4], TS[4], mu, va, VC[64], RS[64]; static int RC;
static void out(double *f, double *h, double *fs, double *hs, double *m, double *v, double *vc, double *r) { for (int i = 0; i < p; i++) f[i] = PH[i]; for (int i = 0; i < q; i++) h[i] = TH[i]; for (int i = 0; fs && i < P; i++) fs[i] = PS[i]; for (int i = 0; hs && i < Q; i++) hs[i] = TS[i]; *m = mu; *v = va; for (int i = 0; i < K * K; i++) vc[i] = VC[i]; for (int i = 0; i < nres; i++) r[i] = RS[i]; }
static double lastphi[16];
int stub_nlalsm(double *v, int n, int p_, int de, int q_, double *f, double *h, int m, double *tc, double *var, double eps, double *vc, double *r) {
  calls++; sym_true(n == N && v == wi, "series"); sym_true(eps > 0 && eps < 1e-14, "machine precision");
  if (kind == 2) { sym_true(p_ == calls && de == 0 && q_ == 0 && m == 1, "autoregression of order %d with a mean", calls); for (int i = 0; i < p_; i++) f[i] = i == p_ - 1 ? (lastphi[i] = sym_n("f", i, -1, 1)) : 7; *tc = 1; *var = 1; for (int i = 0; i < (p_ + 1) * (p_ + 1); i++) vc[i] = 0; for (int i = 0; i < n; i++) r[i] = 0; return 1; }
  sym_true(kind == 0 && p_ == p && de == d && q_ == q && m == Mm, "orders"); out(f, h, NULL, NULL, tc, var, vc, r); return RC; }
int stub_nlalsms(double *v, int n, int p_, int de, int q_, double *f, double *h, int s_, int ps, int ds, int qs, double *fs, double *hs, int m, double *tc, double *var, double eps, double *vc, double *r) { calls++; sym_true(kind == 1 && n == N && v == wi && p_ == p && de == d && q_ == q && s_ == s && ps == P && ds == D && qs == Q && m == Mm, "orders"); sym_true(eps > 0 && eps < 1e-14, "machine precision"); out(f, h, fs, hs, tc, var, vc, r); return RC; }
#endif
int main(void) {
  int th = sym_tier(); (void)th;
#if PART == 1
  for (int p = 0; p <= 3; p++) for (int q = 0; q <= 3; q++) for (int c = 0; c < 5; c++) { static const int NN[] = {8, 9, 13, 7, 30}, TT[] = {1, 15, 4, 20, 63}; int N = NN[c], T = TT[c];
    SYM_CASE("backcast residuals p=%d q=%d N=%d T=%d", p, q, N, T) { double w[64], w0[64], f[4], h[4], f0[4], h0[4], *a = malloc(8 * (N + T - 1)), r[160]; sym_rseed(p * 4 + q + 16 * c);
      for (int i = 0; i < p; i++) f[i] = f0[i] = (sym_rnd(9) - 4) / 8.0 / (1 + i) + 1.0 / 32; for (int i = 0; i < q; i++) h[i] = h0[i] = (sym_rnd(9) - 4) / 8.0 / (1 + i) + 1.0 / 32; for (int i = 0; i < N; i++) w[i] = w0[i] = sym_n("w", i, -2, 2); for (int i = 0; i < N + T - 1; i++) a[i] = 77;
      avaluem(w, N, p, q, f, h, T, a); ref(w0, N, p, q, f0, h0, T, r); for (int i = 0; i < N + T - 1; i++) sym_eq(a[i], r[i], 1e-10, "residual %d", i); for (int i = 0; i < N; i++) sym_eq(w[i], w0[i], 0, "series kept"); for (int i = 0; i < p; i++) sym_eq(f[i], f0[i], 0, "phi kept"); for (int i = 0; i < q; i++) sym_eq(h[i], h0[i], 0, "theta kept"); free(a); } }
  for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) if (p + q && p + q < 4 + th) SYM_CASE("backcast residuals, arbitrary coefficients p=%d q=%d", p, q) { int N = 5, T = 3; double w[8], f[2], h[2], a[16], r[16]; sym_rseed(p * 3 + q); for (int i = 0; i < N; i++) w[i] = (sym_rnd(17) - 8) / 8.0; for (int i = 0; i < p; i++) f[i] = sym_n("f", i, -1, 1); for (int i = 0; i < q; i++) h[i] = sym_n("h", i, -1, 1); avaluem(w, N, p, q, f, h, T, a); ref(w, N, p, q, f, h, T, r); for (int i = 0; i < N + T - 1; i++) sym_eq(a[i], r[i], 1e-10, "residual %d", i); }
#elif PART == 2
  for (int se = 0; se <= 1; se++) for (int p = 0; p <= 3; p++) for (int q = 0; q <= 2 + th; q++) for (int v = 0; v < 2; v++) SYM_CASE("start values%s p=%d q=%d %d", se ? " seasonal" : "", p, q, v) {
      int s = se ? 2 + 2 * v : 1, N = 40, K = (p + q + 1) * s; double w[40], f[4], h[4], mu = NAN, var = NAN, c[16], m = 0, g[4]; sym_rseed(p * 5 + q + v * 20); WK = se ? K : p + q + 1; WI = w; WN = N; for (int i = 0; i < N; i++) { w[i] = (sym_rnd(17) - 8) / 8.0 + 1; m += w[i] / N; }
      for (int i = 0; i < 64; i++) C[i] = 99; for (int i = 0; i <= p + q; i++) c[i] = C[i * s] = i == 0 ? 2 : i == 1 + v && q == 0 ? sym("c", 0.5, 0.75) : (sym_rnd(9) - 4) / 16.0 / (1 + i) + (i == 1 ? 0.125 : 0);
      for (int i = 0; i < 4; i++) f[i] = h[i] = NAN; if (se) USPE_seasonal(w, N, s, p, q, f, h); else USPE(w, N, p, q, f, h, &mu, &var);
      double sf = 0, x[8]; x[0] = -1; for (int i = 0; i < p; i++) { sf += f[i]; x[i + 1] = f[i]; } for (int i = 1; i <= p; i++) { double z = c[q + i]; for (int j = 1; j <= p; j++) z -= f[j - 1] * c[abs(q + i - j)]; sym_eq(z, 0, 1e-9, "extended Yule-Walker equation %d", i); }
      if (!se) sym_eq(mu, m * (1 - sf), 1e-9, "constant"); for (int j = 0; j <= q; j++) { g[j] = 0; for (int i = 0; i <= p; i++) for (int l = 0; l <= p; l++) g[j] += x[i] * x[l] * c[abs(j + i - l)]; }
      if (q == 0) { if (!se) { double z = c[0]; for (int i = 0; i < p; i++) z -= c[i + 1] * f[i]; sym_eq(var, z, 1e-9, "innovation variance"); } }
      else if (!se) { for (int j = 0; j <= q; j++) { double z = 0; for (int i = 0; i + j <= q; i++) z += (i ? -h[i - 1] : 1) * (i + j ? -h[i + j - 1] : 1); sym_eq(var * z, g[j], 1.1e-4, "moving average part reproduces the autocovariance %d", j); } }
      else { double z0 = 1; for (int i = 0; i < q; i++) z0 += h[i] * h[i]; for (int j = 1; j <= q; j++) { double z = 0; for (int i = 0; i + j <= q; i++) z += (i ? -h[i - 1] : 1) * -h[i + j - 1]; sym_eq(z * g[0], g[j] * z0, 1e-3, "moving average part reproduces the autocorrelation %d", j); } }
    }
#elif PART == 4
  for (p = 0; p <= 2; p++) for (q = 0; q <= 2; q++) for (int d = 0; d <= 2; d++) for (M = 0; M <= 1; M++) for (int v = 0; v < 4; v++) if ((th || p + q < 4) && (d < 2 || p + q < 2)) SYM_CASE("nonseasonal fit (%d,%d,%d) mean=%d %d", p, d, q, M, v) {
      double y[64], y0[64], f[4], h[4], mu = NAN, var = NAN, vc[64], res[64], t1[64]; int N = 8 + d, n; s = P = Q = 0; K = p + q + M; nN = 8; qd = q + 20 * p; if (qd < 15) qd = 15; L = nN + qd - 1; nsym = v < 2 ? 2 : 3; setup(v);
      for (int i = 0; i < N; i++) y[i] = y0[i] = (sym_rnd(17) - 8) / 4.0; memcpy(t1, y, sizeof t1); n = N; for (int k = 0; k < d; k++) { n--; for (int i = 0; i < n; i++) t1[i] = t1[i + 1] - t1[i]; } memcpy(ow, t1, sizeof t1); for (int i = 0; i < 64; i++) vc[i] = res[i] = NAN;
      int rc = nlalsm(y, N, p, d, q, f, h, M, &mu, &var, ldexp(1, -52), vc, res); for (int i = 0; i < N; i++) sym_eq(y[i], y0[i], 0, "series kept"); check(f, h, NULL, NULL, mu, var, vc, res, rc); }
  for (int o = 0; o < 6 + 4 * th; o++) for (int d = 0; d <= 1; d++) for (int D = 0; D <= 1; D++) for (M = 0; M <= 1; M++) for (int v = 0; v < 2 + th; v++) { static const int O[][5] = {{1, 0, 0, 1, 2}, {0, 1, 1, 0, 3}, {1, 1, 0, 0, 2}, {0, 0, 1, 1, 4}, {1, 0, 1, 0, 3}, {0, 1, 0, 1, 2}, {2, 0, 1, 1, 3}, {1, 1, 1, 1, 3}, {0, 2, 0, 2, 3}, {0, 0, 2, 0, 2}}; p = O[o][0]; q = O[o][1]; P = O[o][2]; Q = O[o][3]; s = O[o][4];
    SYM_CASE("seasonal fit (%d,%d,%d)(%d,%d,%d)%d mean=%d %d", p, d, q, P, D, Q, s, M, v) { double y[64], y0[64], f[4], h[4], fs[4], hs[4], mu = NAN, var = NAN, vc[64], res[64], t1[64]; int N, n; K = p + q + P + Q + M; nN = 9; N = nN + d + s * D; qd = q + s * Q + 20 * (p + s * P); if (qd < 15 + D * s) qd = 15 + D * s; L = nN + qd - 1; nsym = 3; setup(v + 1);
      for (int i = 0; i < N; i++) y[i] = y0[i] = (sym_rnd(17) - 8) / 4.0; memcpy(t1, y, sizeof t1); n = N; if (D) { n -= s; for (int i = 0; i < n; i++) t1[i] = t1[i + s] - t1[i]; } if (d) { n--; for (int i = 0; i < n; i++) t1[i] = t1[i + 1] - t1[i]; } memcpy(ow, t1, sizeof t1); for (int i = 0; i < 64; i++) vc[i] = res[i] = NAN;
      int rc = nlalsms(y, N, p, d, q, f, h, s, P, D, Q, fs, hs, M, &mu, &var, ldexp(1, -52), vc, res); for (int i = 0; i < N; i++) sym_eq(y[i], y0[i], 0, "series kept"); check(f, h, fs, hs, mu, var, vc, res, rc); } }
#elif PART == 8
  for (kind = 0; kind <= 1; kind++) for (p = 0; p <= 2; p++) for (q = 0; q <= 2; q += 1) for (d = 0; d <= 1; d++) for (D = 0; D <= kind; D++) SYM_CASE("method 2 %s (%d,%d,%d) D=%d", kind ? "sarima" : "arima", p, d, q, D) {
      double x[64], x0[64], vc[64], xp[3], am[3], y[64]; N = 14; s = 3; P = kind ? (p + q) % 2 : 0; Q = kind ? p % 2 : 0; RC = 1 + 3 * (p == q); Mm = d + D == 0; K = p + q + P + Q + Mm; nres = N - d - s * D; calls = 0; wi = x; sym_rseed(p + q * 3); for (int i = 0; i < N; i++) x[i] = x0[i] = sym_rnd(9) / 4.0;
      for (int i = 0; i < p; i++) PH[i] = i ? 0.125 : 0.25; for (int i = 0; i < q; i++) TH[i] = i ? -0.125 : 0.25; for (int i = 0; i < P; i++) PS[i] = 0.25; for (int i = 0; i < Q; i++) TS[i] = 0.375; mu = Mm ? sym("mu", -1, 1) : 0; va = sym("va", 0.5, 2); for (int i = 0; i < K * K; i++) VC[i] = sym_n("vc", i, -1, 1); for (int i = 0; i < nres; i++) RS[i] = sym_n("r", i, -1, 1);
      double *f, *h, *fs = NULL, *hs = NULL, *vv, *rs, m, v; int rc, lv; arima_object a = NULL; sarima_object b = NULL;
      if (kind == 0) { a = arima_init(p, d, q, N); arima_setMethod(a, 2); arima_exec(a, x); f = a->phi; h = a->theta; vv = a->vcov; rs = a->res; m = a->mean; v = a->var; rc = a->retval; lv = a->lvcov; arima_vcov(a, vc); } else { b = sarima_init(p, d, q, s, P, D, Q, N); sarima_setMethod(b, 2); sarima_exec(b, x); f = b->phi; h = b->theta; fs = b->PHI; hs = b->THETA; vv = b->vcov; rs = b->res; m = b->mean; v = b->var; rc = b->retval; lv = b->lvcov; sarima_vcov(b, vc); }
      sym_true(calls == 1 && rc == RC && lv == K * K, "status %d, covariance size %d", rc, lv); for (int i = 0; i < p; i++) sym_eq(f[i], PH[i], 0, "phi"); for (int i = 0; i < q; i++) sym_eq(h[i], TH[i], 0, "theta"); for (int i = 0; i < P; i++) sym_eq(fs[i], PS[i], 0, "PHI"); for (int i = 0; i < Q; i++) sym_eq(hs[i], TS[i], 0, "THETA"); sym_eq(m, mu, 0, "mean"); sym_eq(v, va, 0, "variance"); for (int i = 0; i < K * K; i++) { sym_eq(vv[i], VC[i], 0, "covariance"); sym_eq(vc[i], VC[i], 0, "covariance"); } for (int i = 0; i < nres; i++) sym_eq(rs[i], RS[i], 0, "residual %d", i); for (int i = 0; i < N; i++) sym_eq(x[i], x0[i], 0, "series kept");
      if (kind == 0 && q == 0 && d == 0) { arima_predict(a, x, 3, xp, am); memcpy(y, x, sizeof y); for (int t = 0; t < 3; t++) { double z = mu; for (int i = 0; i < p; i++) z += PH[i] * (y[N + t - 1 - i] - mu); y[N + t] = z; sym_eq(xp[t], z, 1e-6, "forecast %d returns to the reported mean", t + 1); } }
      if (a) arima_free(a); if (b) sarima_free(b); }
  for (int m = 1; m <= 6; m += 1 + (m == 3)) SYM_CASE("partial autocorrelations by maximum likelihood, %d lags", m) { double x[20], par[8]; kind = 2; N = 20; calls = 0; wi = x; for (int i = 0; i < N; i++) x[i] = i; pacf_mle(x, N, par, m); sym_true(calls == m, "one fit per lag"); for (int i = 0; i < m; i++) sym_eq(par[i], lastphi[i], 0, "last coefficient %d", i); }
#endif
  return 0;
}
