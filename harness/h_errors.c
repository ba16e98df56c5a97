/* P21: forecast accuracy measures equal their definitions. */
#include "sym.h"
#include "errors.h"
#include "autoutils.h"
int main(int argc, char **argv) {
  static const int Ns[] = {1, 2, 3, 4, 5, 8, 13, 24, 60, 200};
  for (int ni = 0; ni < 10; ni++) {
    int N = Ns[ni], ns = N <= 8 ? N : 6;
    SYM_CASE("mean errors N=%d", N) {
      double *p = malloc(8 * N), *a = malloc(8 * N); sym_rseed(N); for (int i = 0; i < N; i++) { p[i] = sym_runi(); a[i] = sym_runi(); } for (int k = 0; k < ns; k++) { int i = (int)((long)k * N / ns); p[i] = sym_n("p", i, -2, 2); a[i] = sym_n("a", i, -2, 2); }
      double s = 0, q = 0, f = 0; for (int i = 0; i < N; i++) { double e = a[i] - p[i]; s += e; q += e * e; }
      sym_eq(me(p, a, N) * N, s, 1e-10, "ME"); sym_eq(mse(p, a, N) * N, q, 1e-10, "MSE"); double r = rmse(p, a, N); sym_eq(r * r * N, q, 1e-9, "RMSE^2"); sym_le(0, r, 0, "RMSE>=0");
      for (int i = 0; i < N; i++) f += fabs(a[i] - p[i]); sym_eq(mae(p, a, N) * N, f, 1e-10, "MAE"); sym_eq(me(a, a, N), 0, 0, "perfect ME"); sym_eq(mse(a, a, N), 0, 0, "perfect MSE"); sym_eq(mae(a, a, N), 0, 0, "perfect MAE");
      if (N <= 5) { sym_eq(me(a, p, N), -me(p, a, N), 1e-12, "ME antisymmetric"); sym_eq(mae(a, p, N), mae(p, a, N), 1e-12, "MAE symmetric"); double c = sym("c", -2, 2), *pc = malloc(8 * N), *ac = malloc(8 * N); for (int i = 0; i < N; i++) { pc[i] = p[i] + c; ac[i] = a[i] + c; } sym_eq(mse(pc, ac, N), mse(p, a, N), 1e-10, "MSE shift"); }
    }
    for (int v = 0; v < 2; v++) SYM_CASE("percentage errors N=%d %s", N, v ? "actuals" : "forecasts") { /* actual away from zero, either sign */
      double *p = malloc(8 * N), *a = malloc(8 * N), f = 0, g = 0; sym_rseed(N + 50); for (int i = 0; i < N; i++) { p[i] = sym_runi(); a[i] = 1.5 + sym_runi(); if (i & 1) a[i] = -a[i]; }
      int k2 = N < 6 ? N : 6; for (int k = 0; k < k2; k++) { int i = (int)((long)k * N / k2); if (v && k < 2) a[i] = (k & 1) ? sym_n("a", i, -4, -0.25) : sym_n("a", i, 0.25, 4); else if (!v) p[i] = sym_n("p", i, -2, 2); }
      for (int i = 0; i < N; i++) { double e = (a[i] - p[i]) * 100 / a[i]; f += e; g += fabs(e); }
      sym_eq(mpe(p, a, N) * N, f, 1e-7, "MPE"); sym_eq(mape(p, a, N) * N, g, 1e-7, "MAPE"); sym_le(0, mape(p, a, N), 0, "MAPE>=0");
    }
    for (int L = 2; L <= 30; L += L < 6 ? 2 : 12) SYM_CASE("MASE N=%d L=%d", N, L) {
      double *p = malloc(8 * N), *a = malloc(8 * N), *t = malloc(8 * L), d = 0, s = 0; sym_rseed(N + L); for (int i = 0; i < N; i++) { p[i] = sym_runi(); a[i] = sym_runi(); } for (int i = 0; i < L; i++) t[i] = sym_runi(); p[0] = sym("p", -2, 2); if (N > 1) a[N - 1] = sym("a", -2, 2); t[0] = sym("t0", -1, 1); if (L > 3) t[L - 2] = sym("t1", -1, 1); t[L - 1] = 3;
      for (int i = 1; i < L; i++) d += fabs(t[i] - t[i - 1]); for (int i = 0; i < N; i++) s += fabs(a[i] - p[i]);
      double m = mase(p, a, N, t, L); sym_eq(m * N * d, s * (L - 1), 1e-7, "MASE");
    }
  }
  return 0;
}
