/* P18: robustness weights (bisquare of residual over six median absolute deviations) and partial sorting. */
#include "sym.h"
#include "stl.h"
static double *sorted(const double *a, int n) { double *s = malloc(8 * n); for (int i = 0; i < n; i++) { int j = i; double v = a[i]; while (j > 0 && s[j - 1] > v) s[j] = s[j - 1], j--; s[j] = v; } return s; }
static void rw(int N, int nsym, int seed, int both) { SYM_CASE("weights N=%d symbolic %d seed %d signs %d", N, nsym, seed, both) {
  double *y = malloc(8 * N), *f = malloc(8 * N), *w = malloc(8 * N), *k = malloc(8 * N), *r = malloc(8 * N); sym_rseed(seed * 37 + N); for (int i = 0; i < N; i++) { f[i] = sym_rnd(64) / 16.0; y[i] = f[i] + (i % 3 == 2 ? -1 : 1) * (1 + sym_rnd(i % 5 == 4 ? 200 : 24)) / 16.0; }
  for (int i = 0; i < nsym; i++) { int p = N <= nsym ? i : (2 * i + 1) * N / (2 * nsym); y[p] = f[p] + sym_n("r", p, both ? -1.5 : 0.125, 1.5); } memcpy(k, y, 8 * N);
  for (int i = 0; i < N; i++) r[i] = fabs(y[i] - f[i]); double *s = sorted(r, N), c = 3 * (s[N / 2] + s[N - 1 - N / 2]); stlrwt_(y, &N, f, w);
  for (int i = 0; i < N; i++) { sym_eq(y[i], k[i], 0, "series kept"); if (fabs(r[i] - 0.999 * c) < 1e-9 || fabs(r[i] - 0.001 * c) < 1e-9) continue; double e = r[i] <= 0.001 * c ? 1 : r[i] <= 0.999 * c ? (1 - (r[i] / c) * (r[i] / c)) * (1 - (r[i] / c) * (r[i] / c)) : 0; sym_eq(w[i], e, 1e-7, "weight %d", i); }
  free(y); free(f); free(w); free(k); free(r); free(s); } }
static void ps(int N, int nsym, int i1, int i2, int seed) { SYM_CASE("partial sort N=%d symbolic %d places %d %d seed %d", N, nsym, i1, i2, seed) {
  double *a = malloc(8 * N), *k = malloc(8 * N); int ind[2] = {i1, i2}; sym_rseed(seed * 11 + N); for (int i = 0; i < N; i++) a[i] = sym_rnd(seed % 2 ? 9 : 640) / (seed % 2 ? 4.0 : 64.0); for (int i = 0; i < nsym; i++) { int p = N <= nsym ? i : (2 * i + 1) * N / (2 * nsym); a[p] = sym_n("a", p, 0, 3); } memcpy(k, a, 8 * N);
  psort_(a, N, ind, i1 == i2 ? 1 : 2); double *s = sorted(k, N), *q = sorted(a, N); for (int i = 0; i < N; i++) sym_eq(q[i], s[i], 0, "values kept (order statistic %d)", i); sym_eq(a[i1 - 1], s[i1 - 1], 0, "order statistic %d", i1); sym_eq(a[i2 - 1], s[i2 - 1], 0, "order statistic %d", i2); free(a); free(k); free(s); free(q); } }
int main(int argc, char **argv) { int t = sym_tier();
  for (int N = 2; N <= (t ? 5 : 4); N++) { rw(N, N, 1, 0); if (N < 4) rw(N, N, 2, 1); for (int a = 1; a <= N; a++) for (int b = a; b <= N; b++) ps(N, N, a, b, 2); }
  static const int Ns[] = {5, 6, 9, 10, 11, 12, 13, 15, 20, 24, 25, 31, 40, 47, 60, 101}; for (int i = 0; i < (t ? 16 : 13); i++) for (int s = 0; s < (t ? 8 : 4); s++) { rw(Ns[i], t && Ns[i] < 13 && s < 2 ? 2 : 1, s, s % 2); int m = Ns[i] / 2 + 1; ps(Ns[i], (s + i) % 2 + 1, Ns[i] - m + 1, m, s); ps(Ns[i], 1, 2, Ns[i] - 1, s); }
  return 0; }
