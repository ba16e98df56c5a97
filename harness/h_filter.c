/* P19: moving averages, exponential smoothing, moving-average deseasonalisation. */
#include "sym.h"
#include "talg.h"
static double at(const double *x, int N, int i) { return x[i < 0 ? 0 : i >= N ? N - 1 : i]; }
static double centre(const double *x, int N, int w, int i) { /* centred MA of window w at i; even w: half weights at both ends */
  int q = w / 2; double s = 0; if (w & 1) { for (int j = -q; j <= q; j++) s += at(x, N, i + j); } else { s = 0.5 * (at(x, N, i - q) + at(x, N, i + q)); for (int j = -q + 1; j < q; j++) s += at(x, N, i + j); } return s / w;
}
static void fill(double *x, int N, int nsym) { sym_rseed(N * 31 + nsym); for (int i = 0; i < N; i++) x[i] = sym_runi(); if (nsym >= N) sym_arr(x, N, "x", -1, 1); else for (int k = 0; k < nsym; k++) { int i = (int)((long)k * N / nsym); x[i] = sym_n("x", i, -1, 1); } }
int main(int argc, char **argv) {
  static const int Ns[] = {1, 2, 3, 4, 5, 7, 10, 16, 25, 40, 75, 120};
  int cap = sym_tier() ? 120 : 40;
  for (int ni = 0; ni < 12; ni++) for (int w = 1; w <= 25; w += (w < 9 ? 1 : w < 13 ? 3 : 6)) {
    int N = Ns[ni], q = w / 2;
    SYM_CASE("mafilter N=%d w=%d", N, w) {
      double *x = malloc(8 * N), *o = malloc(8 * N), *p = malloc(8 * N), *k = malloc(8 * N); fill(x, N, cap); memcpy(k, x, 8 * N);
      mafilter(x, N, w, o); detrend_ma(x, N, w, p);
      for (int i = 0; i < N; i++) { sym_eq(o[i], centre(x, N, w, i), 1e-12, "mafilter[%d]", i); sym_eq(p[i], centre(x, N, w, i), 1e-12, "detrend_ma[%d]", i); }
      if (w & 1) { double *wt = malloc(8 * w); sym_arr(wt, w, "w", -1, 1); mafilter_wt(x, N, wt, w, o); for (int i = 0; i < N; i++) { double s = 0; for (int j = -q; j <= q; j++) s += wt[j + q] * at(x, N, i + j); sym_eq(o[i], s, 1e-12, "mafilter_wt[%d]", i); }
        for (int j = 0; j < w; j++) wt[j] = 1.0 / w; mafilter_wt(x, N, wt, w, o); for (int i = 0; i < N; i++) sym_eq(o[i], p[i], 1e-12, "equal weights = mafilter [%d]", i); }
      for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved %d", i);
    }
    if (N >= w && N > 2 * q) SYM_CASE("mafilter2 N=%d w=%d", N, w) {
      double *x = malloc(8 * N), *o = malloc(8 * N); fill(x, N, cap); mafilter2(x, N, w, o);
      for (int i = 0; i < N; i++) { if (i < q || i >= N - q) sym_eq(o[i], x[i], 0, "edge %d untouched", i); else sym_eq(o[i], centre(x, N, w, i), 1e-12, "mafilter2[%d]", i); }
    }
    if (w >= 2 && N >= w + 2 * q) SYM_CASE("deseason_ma N=%d s=%d", N, w) {
      double *x = malloc(8 * N), *o = malloc(8 * N), *t = malloc(8 * N), *m = calloc(w, 8); int *c = calloc(w, sizeof(int)); fill(x, N, cap); deseason_ma(x, N, w, o);
      for (int i = q; i < N - q; i++) { m[i % w] += x[i] - centre(x, N, w, i); c[i % w]++; } double g = 0; for (int k = 0; k < w; k++) { m[k] /= c[k]; g += m[k] / w; }
      double sum = 0; for (int i = 0; i < N; i++) { sym_eq(o[i], x[i] - (m[i % w] - g), 1e-11, "deseason_ma[%d]", i); if (i < w) sum += x[i] - o[i]; }
      sym_eq(sum, 0, 1e-11, "removed seasonal sums to zero");
      /* seasonal pattern + linear trend: exactly the pattern is removed */
      double *p = malloc(8 * w), a = sym("a", -1, 1), b = sym("b", -1, 1), pm = 0; sym_arr(p, w, "p", -1, 1); for (int k = 0; k < w; k++) pm += p[k] / w;
      for (int i = 0; i < N; i++) x[i] = a + b * i + p[i % w]; deseason_ma(x, N, w, o); for (int i = 0; i < N; i++) sym_eq(o[i], a + b * i + pm, 1e-10, "pattern removed %d", i);
    }
  }
  for (int N = 1; N <= 60; N += N < 8 ? 1 : 13) SYM_CASE("expfilter N=%d", N) {
    double *x = malloc(8 * N), *o = malloc(8 * N); fill(x, N, 60); expfilter(x, N, 0.3, o); double r = x[0]; for (int i = 0; i < N; i++) { if (i) r = r + 0.3 * (x[i] - r); sym_eq(o[i], r, 1e-12, "fixed alpha [%d]", i); }
    if (N <= 12) { double al = sym("alpha", 0, 1); expfilter(x, N, al, o); sym_eq(o[0], x[0], 0, "starts at x0"); for (int i = 1; i < N; i++) sym_eq(o[i], al * x[i] + (1 - al) * o[i - 1], 1e-12, "recursion [%d]", i);
      expfilter(x, N, 1.0, o); for (int i = 0; i < N; i++) sym_eq(o[i], x[i], 0, "alpha 1 is identity %d", i); expfilter(x, N, 0.0, o); for (int i = 0; i < N; i++) sym_eq(o[i], x[0], 0, "alpha 0 is constant %d", i); }
    if (N <= 9) { double s = 0; for (int i = 0; i < N; i++) s += x[i] * x[i]; double n = norm2(x, N); sym_eq(n * n, s, 1e-11, "norm2"); sym_le(0, n, 0, "norm2 >= 0"); }
  }
  return 0;
}
