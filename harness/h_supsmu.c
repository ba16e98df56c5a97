/* P18: super smoother against direct weighted local regressions (fixed span; automatic span by smoothed cross-validated residuals). */
#include "sym.h"
#include "talg.h"
static double XX[200]; 
static void sm(int n, const double *x, const double *y, const double *w, double span, int per, double eps2, double *o, double *res) {
  int b = (int)(span * .5 * n + .5); if (b < 2) b = 2; for (int j = 0; j < n; j++) { int l = j - b, h = j + b; if (per != 2) { if (h > n - 1) l -= h - (n - 1), h = n - 1; if (l < 0) h -= l, l = 0; }
    double sw = 0, mx = 0, my = 0, v = 0, c = 0; for (int i = l; i <= h; i++) { int q = (i + n) % n; double xx = x[q] + (i < 0 ? -1 : i >= n ? 1 : 0); sw += w[q]; mx += w[q] * xx; my += w[q] * y[q]; } mx /= sw; my /= sw; for (int i = l; i <= h; i++) { int q = (i + n) % n; double xx = x[q] + (i < 0 ? -1 : i >= n ? 1 : 0); v += w[q] * (xx - mx) * (xx - mx); c += w[q] * (xx - mx) * (y[q] - my); }
    int lin = v > eps2; o[j] = my + (lin ? c / v * (x[j] - mx) : 0); if (res) { double a = 1 - w[j] * (1 / sw + (lin ? (x[j] - mx) * (x[j] - mx) / v : 0)); res[j] = a > 0 ? fabs(y[j] - o[j]) / a : j ? res[j - 1] : 0; } }
  for (int j = 0; j < n;) { int e = j; double s = 0, q = 0; while (e < n && x[e] == x[j]) s += w[e] * o[e], q += w[e], e++; for (int i = j; i < e; i++) o[i] = e - j > 1 ? s / q : o[i]; j = e; } }
static int bw(double span, int n) { int b = (int)(span * .5 * n + .5); return b < 2 ? 2 : b; }
static void go(int n, int per, int xt, int wt, double span, int nsym) { SYM_CASE("smoother N=%d %s x %d weights %d span %g", n, per == 2 ? "periodic" : "interval", xt, wt, span) {
  double *x = malloc(8 * n), *y = malloc(8 * n), *w = malloc(8 * n), *o = malloc(8 * n), *e = malloc(8 * n), *k = malloc(8 * n); sym_rseed(n + xt); for (int i = 0; i < n; i++) { x[i] = xt == 0 ? i : xt == 1 ? (i + i / 3) / 2.0 : xt == 2 ? i / 2 : 3; if (per == 2) x[i] = (i + 1) / 64.0; w[i] = wt ? (1 + (i * 5) % 7) / 4.0 : 1; y[i] = (sym_rnd(65) - 32) / 16.0; }
  if (nsym >= n) sym_arr(y, n, "y", -2, 2); else for (int i = 0; i < nsym; i++) { int p = (2 * i + 1) * n / (2 * nsym); y[p] = sym_n("y", p, span > 0 ? -2 : 0, span > 0 ? 2 : 0.5); } memcpy(k, y, 8 * n);
  supsmu(x, n, y, wt ? w : NULL, per, span, -1.0, o);
  int i0 = n / 4 - 1, j0 = 3 * (n / 4) - 1; double sc = x[j0] - x[i0]; while (xt < 3 && sc <= 0) { if (j0 < n - 1) j0++; if (i0 > 0) i0--; sc = x[j0] - x[i0]; } double e2 = (.001 * sc) * (.001 * sc);
  if (x[n - 1] <= x[0]) { double s = 0, q = 0; for (int i = 0; i < n; i++) s += w[i] * y[i], q += w[i]; for (int i = 0; i < n; i++) e[i] = s / q; }
  else if (span > 0) sm(n, x, y, w, span, per, e2, e, NULL);
  else { static const double SP[3] = {.05f, .2f, .5f}; double *f[3], *r[3], *t = malloc(8 * n), *b = malloc(8 * n); for (int q = 0; q < 3; q++) { f[q] = malloc(8 * n); r[q] = malloc(8 * n); sm(n, x, y, w, SP[q], per, e2, f[q], t); sm(n, x, t, w, SP[1], per, e2, r[q], NULL); }
    for (int j = 0; j < n; j++) { int m = 0; for (int q = 0; q < 3; q++) for (int v = 0; v < q; v++) if (bw(SP[q], n) != bw(SP[v], n)) sym_assume(!(fabs(r[q][j] - r[v][j]) < 1e-7)); for (int q = 1; q < 3; q++) if (r[q][j] < r[m][j]) m = q; t[j] = SP[m]; } sm(n, x, t, w, SP[1], per, e2, b, NULL);
    for (int j = 0; j < n; j++) { double s = b[j]; if (s < SP[0]) s = SP[0]; if (s > SP[2]) s = SP[2]; double g = s - SP[1]; t[j] = g < 0 ? (1 + g / (SP[1] - SP[0])) * f[1][j] - g / (SP[1] - SP[0]) * f[0][j] : (1 - g / (SP[2] - SP[1])) * f[1][j] + g / (SP[2] - SP[1]) * f[2][j]; } sm(n, x, t, w, SP[0], per, e2, e, NULL); for (int q = 0; q < 3; q++) free(f[q]), free(r[q]); free(t); free(b); }
  for (int i = 0; i < n; i++) { sym_eq(o[i], e[i], 1e-7, "smoothed value %d", i); sym_eq(y[i], k[i], 0, "input kept"); }
  free(x); free(y); free(w); free(o); free(e); free(k); } }
int main(int argc, char **argv) { int t = sym_tier(); (void)XX; static const int Ns[] = {5, 6, 8, 9, 12, 17, 24, 40}; static const double sp[] = {.05f, .2f, .5, .3};
  for (int i = 0; i < 8; i++) for (int per = 1; per < 3; per++) for (int xt = 0; xt < (per == 2 ? 1 : 4); xt++) for (int wt = 0; wt < 2; wt++) { for (int s = 0; s < 4; s++) go(Ns[i], per, xt, wt, sp[s], Ns[i] <= 9 ? Ns[i] : 4); if (t || (i + wt + xt) % 2 == 0) go(Ns[i], per, xt, wt, 0, Ns[i] > 20 ? 1 : 1); }
  return 0; }
