/* P04: autocovariance / autocorrelation by both methods equal the definition. */
#include "sym.h"
#include "ctsa.h"
#include "stats.h"
static double rmean(const double *x, int N) { double s = 0; for (int i = 0; i < N; i++) s += x[i]; return s / N; }
static void racov(const double *x, int N, double *c, int M) { double m = rmean(x, N); for (int k = 0; k < M; k++) { double s = 0; for (int t = 0; t + k < N; t++) s += (x[t] - m) * (x[t + k] - m); c[k] = s / N; } }
static void fill(double *x, int N, int nsym, double lo, double hi) { sym_rseed(N + 7 * nsym); for (int i = 0; i < N; i++) x[i] = sym_runi(); if (nsym >= N) sym_arr(x, N, "x", lo, hi); else for (int k = 0; k < nsym; k++) { int i = (int)((long)k * N / nsym); x[i] = sym_n("x", i, lo, hi); } }
int main(int argc, char **argv) {
  static const int big[] = {20, 27, 29, 32, 40, 49, 50, 51, 59, 64, 79, 100, 120, 128, 200, 301, 512};
  for (int bi = -12; bi < (int)(sizeof big / sizeof *big); bi++) {
    int N = bi < 0 ? bi + 14 : big[bi]; if (N > 200 && !sym_tier()) continue;
    int nsym = N <= 13 ? N : N <= 64 ? 6 : 4;
    for (int mm = 0; mm < 3; mm++) {
      int M = mm == 0 ? N : mm == 1 ? (N + 1) / 2 : 1; if (mm == 0 && N > 150) M = 60;
      SYM_CASE("acvf N=%d M=%d", N, M) {
        double *x = malloc(8 * N), *c = malloc(8 * M), *d = malloc(8 * M), *r = malloc(8 * M), *keep = malloc(8 * N); fill(x, N, nsym, -1, 1); memcpy(keep, x, 8 * N);
        racov(x, N, r, M);
        acvf(x, N, c, M); for (int k = 0; k < M; k++) sym_eq(c[k], r[k], 1e-8, "acvf[%d]", k);
        acvf_opt(x, N, 0, d, M); for (int k = 0; k < M; k++) sym_eq(d[k], r[k], 1e-8, "acvf_opt direct[%d]", k);
        memset(d, 0, 8 * M); acvf_opt(x, N, 1, d, M); for (int k = 0; k < M; k++) sym_eq(d[k], r[k], 1e-8, "acvf_opt fft[%d]", k);
        sym_eq(var(x, N), r[0], 1e-10, "var = lag 0"); sym_eq(mean(x, N), rmean(x, N), 1e-12, "mean");
        for (int i = 0; i < N; i++) sym_eq(x[i], keep[i], 0, "input preserved %d", i);
      }
    }
    /* autocorrelation: c_k / c_0 (c_0 > 0 enforced by a fixed spread) */
    if (N <= 40) SYM_CASE("acf N=%d", N) {
      int M = N; double *x = malloc(8 * N), *r = malloc(8 * M), *c = malloc(8 * M), *d = malloc(8 * M), *e = malloc(8 * M);
      sym_rseed(N); for (int i = 0; i < N; i++) x[i] = sym_runi(); int ns = N < 4 ? N - 1 : 3; x[N - 1] = 3.0; for (int k = 0; k < ns; k++) x[k] = sym_n("x", k, -1, 1);
      double *fc = malloc(8 * M); acvf(x, N, r, M); acvf_opt(x, N, 1, fc, M);
      acvf(x, N, c, M); acvf2acf(c, M); autocorr(x, N, d, M); auto_fft_object o = auto_fft_init(N); autocorr_fft(o, x, e, M);
      sym_eq(c[0], 1, 0, "acf0"); sym_eq(d[0], 1, 0, "autocorr0"); sym_eq(e[0], 1, 0, "autocorr_fft0");
      for (int k = 1; k < M; k++) { sym_eq(c[k] * r[0], r[k], 1e-8, "acvf2acf[%d]", k); sym_eq(d[k] * r[0], r[k], 1e-8, "autocorr[%d]", k); sym_eq(e[k] * fc[0], fc[k], 1e-8, "autocorr_fft[%d]", k); }
    }
  }
  /* any data: |acf| <= 1, i.e. c_k^2 <= c_0^2 ; lag-0 nonnegative ; shift and scale behaviour */
  for (int N = 2; N <= 4; N++) SYM_CASE("bound N=%d", N) {
    double x[8], c[8]; sym_arr(x, N, "x", -1, 1); acvf(x, N, c, N); for (int k = 1; k < N; k++) { sym_le(c[k], c[0], 1e-9, "c[%d]<=c0", k); sym_le(-c[k], c[0], 1e-9, "-c[%d]<=c0", k); }
  }
  for (int N = 3; N <= 30; N += 9) SYM_CASE("equivariance N=%d", N) {
    double *x = malloc(8 * N), *y = malloc(8 * N), *c = malloc(8 * N), *d = malloc(8 * N); fill(x, N, N < 8 ? N : 5, -1, 1); double s = sym("shift", -10, 10), k = sym("scale", -4, 4); for (int i = 0; i < N; i++) y[i] = k * x[i] + s;
    for (int m = 0; m < 2; m++) { acvf_opt(x, N, m, c, N); acvf_opt(y, N, m, d, N); for (int i = 0; i < N; i++) sym_eq(d[i], k * k * c[i], 1e-6, "method %d lag %d", m, i); }
  }
  return 0;
}
