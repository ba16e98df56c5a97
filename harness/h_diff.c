/* P01: ordinary and seasonal differencing, their polynomials, polynomial product, cumulative sums. */
#include "sym.h"
#include "talg.h"
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
/* reference: apply x_t - x_{t-s} literally, D times, on a copy */
static int rdiff(const double *x, int N, int D, int s, double *o) {
  double *t = malloc(8 * (N + 1)); memcpy(t, x, 8 * N); int n = N;
  for (int k = 0; k < D; k++) { for (int i = 0; i + s < n; i++) t[i] = t[i + s] - t[i]; n -= s; }
  memcpy(o, t, 8 * n); free(t); return n;
}
static void fill(double *x, int N, int nsym) { sym_rseed(N * 31 + nsym); for (int i = 0; i < N; i++) x[i] = sym_runi(); if (nsym >= N) sym_arr(x, N, "x", -1, 1); else for (int k = 0; k < nsym; k++) { int i = (int)((long)k * N / nsym); x[i] = sym_n("x", i, -1, 1); } }
int main(int argc, char **argv) {
  for (int d = 0; d <= 8; d++) SYM_CASE("deld d=%d", d) {
    double *c = malloc(8 * (d + 1)); deld(d, c); for (int k = 0; k <= d; k++) sym_eq(c[k], (k & 1 ? -1 : 1) * binom(d, k), 0, "coef %d", k);
  }
  for (int D = 0; D <= 4; D++) for (int s = 1; s <= 25; s++) SYM_CASE("delds D=%d s=%d", D, s) {
    double *c = malloc(8 * (D * s + 1)); delds(D, s, c); for (int k = 0; k <= D * s; k++) sym_eq(c[k], k % s ? 0 : (k / s & 1 ? -1 : 1) * binom(D, k / s), 0, "coef %d", k);
  }
  static const int Ns[] = {1, 2, 3, 5, 8, 12, 17, 30, 48, 60, 101, 200};
  for (int ni = 0; ni < 12; ni++) {
    int N = Ns[ni], ns = 60; if (sym_tier()) ns = 200;
    for (int d = 0; d <= 6 && d <= N; d++) SYM_CASE("diff N=%d d=%d", N, d) {
      double *x = malloc(8 * N), *o = malloc(8 * (N - d) + 1), *r = malloc(8 * N + 8), *k = malloc(8 * N); fill(x, N, ns); memcpy(k, x, 8 * N);
      int n = diff(x, N, d, o); sym_true(n == N - d, "length %d", n); rdiff(x, N, d, 1, r);
      for (int i = 0; i < N - d; i++) sym_eq(o[i], r[i], 1e-12, "diff[%d]", i);
      for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved %d", i);
      if (d == 1 && N > 1) { /* integrating back: x_t = x_0 + cumsum(diff)_{t-1} */
        double *c = malloc(8 * (N - 1)); cumsum(o, N - 1, c); for (int t = 1; t < N; t++) sym_eq(x[0] + c[t - 1], x[t], 1e-11, "undiff %d", t);
      }
    }
    for (int D = 0; D <= 3; D++) for (int s = 1; s <= 24; s += s < 4 ? 1 : s == 4 ? 3 : s == 7 ? 5 : 12) if (D * s <= N) SYM_CASE("diffs N=%d D=%d s=%d", N, D, s) {
      double *x = malloc(8 * N), *o = malloc(8 * (N - D * s) + 1), *r = malloc(8 * N + 8), *k = malloc(8 * N); fill(x, N, ns); memcpy(k, x, 8 * N);
      int n = diffs(x, N, D, s, o); sym_true(n == N - D * s, "length %d", n); rdiff(x, N, D, s, r);
      for (int i = 0; i < N - D * s; i++) sym_eq(o[i], r[i], 1e-12, "diffs[%d]", i);
      for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved %d", i);
      /* differencing commutes and removes a seasonal pattern / polynomial trend */
      if (D && N - D * s > 1) {
        double *a = malloc(8 * N), *b = malloc(8 * N), *e = malloc(8 * N); diff(o, n, 1, a); int n1 = diff(x, N, 1, b); diffs(b, n1, D, s, e);
        for (int i = 0; i < n - 1; i++) sym_eq(a[i], e[i], 1e-11, "commute %d", i);
      }
      double *csx = malloc(8 * N), *rs = malloc(8 * N); cumsum(x, N, csx); for (int i = 0; i < N; i++) rs[i] = (i ? rs[i - 1] : 0) + x[i]; for (int i = 0; i < N; i++) sym_eq(csx[i], rs[i], 1e-11, "cumsum %d", i);
    }
  }
  for (int s = 2; s <= 12; s += 5) for (int D = 1; D <= 2; D++) SYM_CASE("annihilation s=%d D=%d", s, D) {
    int N = 3 * s + 3; double *x = malloc(8 * N), *o = malloc(8 * N), *p = malloc(8 * s); sym_arr(p, s, "p", -1, 1); double a = sym("a", -1, 1), b = sym("b", -1, 1);
    for (int t = 0; t < N; t++) x[t] = p[t % s] + a * t; int n = diffs(x, N, D, s, o); for (int i = 0; i < n; i++) sym_eq(o[i], D == 1 ? a * s : 0, 1e-10, "seasonal+trend %d", i);
    for (int t = 0; t < N; t++) x[t] = a + b * t; n = diff(x, N, D, o); for (int i = 0; i < n; i++) sym_eq(o[i], D == 1 ? b : 0, 1e-10, "trend %d", i);
  }
  for (int la = 1; la <= 7; la++) for (int lb = 1; lb <= 7; lb++) SYM_CASE("poly %d x %d", la, lb) {
    double *a = malloc(8 * la), *b = malloc(8 * lb), *c = malloc(8 * (la + lb - 1)), *e = malloc(8 * (la + lb - 1)); sym_arr(a, la, "a", -1, 1); sym_arr(b, lb, "b", -1, 1);
    int n = poly(a, b, c, la, lb); sym_true(n == la + lb - 1, "length"); double z = sym("z", -1, 1);
    for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < la; i++) if (k - i >= 0 && k - i < lb) s += a[i] * b[k - i]; sym_eq(c[k], s, 1e-12, "coef %d", k); }
    poly(b, a, e, lb, la); for (int k = 0; k < n; k++) sym_eq(c[k], e[k], 1e-12, "commutes %d", k);
    double pa = 0, pb = 0, pc = 0; for (int i = la - 1; i >= 0; i--) pa = pa * z + a[i]; for (int i = lb - 1; i >= 0; i--) pb = pb * z + b[i]; for (int i = n - 1; i >= 0; i--) pc = pc * z + c[i];
    if (la + lb <= 9) sym_eq(pc, pa * pb, 1e-10, "evaluates to the product");
  }
  return 0;
}
