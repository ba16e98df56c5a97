/* P18: multiple seasonal decomposition (mstl, modstl): order of periods, iterations, options and bookkeeping.
 * The single-period STL, the super smoother and the Box-Cox transform are replaced by stand-ins returning arbitrary values. */
#include "sym.h"
#include "seastest.h"
#define MC 12
static int N, nc, sw, ns, nbc; static double ys[60], lam; static double S[MC][60], T[MC][60], seas[4][60], cur[60]; static int ord[4], nord, it;
static double smo[60];
void stub_stl(double *x, int n, int f, const char *type, int *s_window, int *a1, int *a2, int *a3, int *a4, int *a5, int *a6, int *a7, int *a8, int *rob, int *in, int *out, double *se, double *tr, double *re) {
  sym_true(nc < it * nord && n == N, "stl call %d of %d", nc, it * nord); if (nc >= it * nord) return; int q = nc % nord; sym_true(f == ord[q], "call %d has period %d", nc, ord[q]); sym_true(strcmp(type, "period") && s_window && *s_window == sw, "seasonal window"); sym_true((!rob || !*rob) && !a1 && !a2 && !a3 && !a4 && !a5 && !a6 && !a7 && !a8 && !in && !out, "default options");
  for (int i = 0; i < n; i++) { double e = ys[i]; for (int k = 0; k < nord; k++) if (k != q) e -= seas[k][i]; sym_eq(x[i], e, 1e-9, "call %d input %d", nc, i); }
  for (int i = 0; i < n; i++) { seas[q][i] = se[i] = S[nc][i]; cur[i] = tr[i] = T[nc][i]; re[i] = 77; } nc++; }
void stub_supsmu(double *x, int n, double *y, double *w, int per, double span, double alpha, double *oup) { ns++; sym_true(n == N && !w && per == 1 && span == 0 && alpha <= 0, "smoother options"); for (int i = 0; i < n; i++) { if (i) sym_eq(x[i] - x[i - 1], 1, 1e-12, "time axis"); sym_eq(y[i], ys[i], 1e-9, "smoother input %d", i); oup[i] = smo[i]; } }
double stub_boxcox(double *x, int n, double *l, double *y) { nbc++; sym_true(n == N && l && *l == lam, "lambda"); for (int i = 0; i < n; i++) y[i] = ys[i] = x[i] * 0.5 + 0.25 * lam; return lam; }
static void prep(double *x, int n, int bc) { N = n; nc = ns = nbc = 0; lam = 0.5; for (int i = 0; i < n; i++) { x[i] = i % 5 + (i < 8 ? sym_n("x", i, -1, 1) : 0.5 * (i % 3)); ys[i] = x[i]; smo[i] = i < 6 ? sym_n("g", i, -1, 1) : i / 16.0; } for (int k = 0; k < 4; k++) for (int i = 0; i < n; i++) seas[k][i] = 0; for (int k = 0; k < MC; k++) for (int i = 0; i < n; i++) { char b[16]; snprintf(b, 16, "s%d", k); S[k][i] = (i + k) % 4 == 0 && i < 12 ? sym_n(b, i, -1, 1) : (i * (k + 2)) % 7 / 8.0; snprintf(b, 16, "t%d", k); T[k][i] = (i + k) % 5 == 0 && i < 12 ? sym_n(b, i, -1, 1) : (i * (k + 3)) % 5 / 4.0; } }
static void ms(int n, int nf, int f0, int f1, int f2, int win, int iter, int bc) { SYM_CASE("mstl N=%d periods %d: %d %d %d window %d iterations %d boxcox %d", n, nf, f0, f1, f2, win, iter, bc) {
  double x[60], k[60], t[60], r[60], o[4][60], *po[4]; int f[3] = {f0, f1, f2}, keep[3]; prep(x, n, bc); memcpy(k, x, 8 * n); nord = 0; for (int i = 0; i < nf; i++) if (f[i] < n / 2) { int p = nord++; while (p > 0 && ord[p - 1] > f[i]) ord[p] = ord[p - 1], p--; ord[p] = f[i]; } it = iter < 0 ? 2 : iter; sw = win < 0 ? 13 : win; memcpy(keep, f, sizeof f); for (int i = 0; i < 4; i++) { po[i] = o[i]; for (int j = 0; j < 60; j++) o[i][j] = 55; }
  int NS = nf; mstl(x, n, f, &NS, win < 0 ? NULL : &win, bc ? &lam : NULL, iter < 0 ? NULL : &iter, po, t, r); sym_true(NS == nord, "%d periods used", NS); sym_true(nbc == bc, "box-cox"); for (int i = 0; i < n; i++) sym_eq(x[i], k[i], 0, "series kept");
  if (nord) { sym_true(nc == it * nord && ns == 0, "%d stl calls", nc); for (int i = 0; i < n; i++) { double s = 0; for (int q = 0; q < nord; q++) { sym_eq(po[q][i], seas[q][i], 1e-9, "seasonal %d [%d]", q, i); s += seas[q][i]; } sym_eq(t[i], cur[i], 1e-9, "trend %d", i); sym_eq(r[i], ys[i] - s - cur[i], 1e-9, "remainder %d", i); } for (int q = 0; q < nord; q++) sym_true(f[q] == ord[q], "reported period %d", q); }
  else { sym_true(nc == 0 && ns == 1, "smoothed"); for (int i = 0; i < n; i++) { sym_eq(t[i], smo[i], 1e-9, "trend %d", i); sym_eq(r[i], ys[i] - smo[i], 1e-9, "remainder %d", i); } } } }
static void mod(int n, int f, int win, int bc) { SYM_CASE("modstl N=%d f=%d window %d boxcox %d", n, f, win, bc) { double x[60], k[60], t[60], r[60], s[60]; prep(x, n, bc); memcpy(k, x, 8 * n); nord = 1; ord[0] = f; it = 1; sw = win < 0 ? 13 : win; modstl(x, n, f, win < 0 ? NULL : &win, bc ? &lam : NULL, s, t, r); sym_true(nbc == bc, "box-cox"); for (int i = 0; i < n; i++) sym_eq(x[i], k[i], 0, "series kept");
  if (f > 1) { sym_true(nc == 1 && ns == 0, "one stl"); for (int i = 0; i < n; i++) { sym_eq(s[i], S[0][i], 0, "seasonal %d", i); sym_eq(t[i], T[0][i], 0, "trend %d", i); sym_eq(r[i], 77, 0, "remainder %d", i); } } else { sym_true(nc == 0 && ns == 1, "smoothed"); for (int i = 0; i < n; i++) { sym_eq(s[i], 0, 0, "no season"); sym_eq(t[i], smo[i], 0, "trend"); sym_eq(r[i], ys[i] - smo[i], 1e-9, "remainder"); } } } }
int main(int argc, char **argv) {
  for (int bc = 0; bc < 2; bc++) for (int w = -1; w < 10; w += 8) { for (int it_ = -1; it_ < 4; it_++) if (it_) { ms(20, 1, 4, 0, 0, w, it_, bc); ms(20, 2, 4, 3, 0, w, it_, bc); ms(21, 3, 7, 3, 5, w, it_, bc); ms(20, 3, 12, 6, 2, w, it_, bc); ms(20, 2, 3, 10, 0, w, it_, bc); ms(20, 2, 5, 40, 0, w, it_, bc); } ms(20, 1, 10, 0, 0, w, -1, bc); ms(9, 2, 7, 4, 0, w, 1, bc); mod(20, 4, w, bc); mod(20, 1, w, bc); mod(15, 7, w, bc); }
  return 0; }
