/* P24: minimisers on objectives with arbitrary values: every evaluation returns an arbitrary number (the same one for the
 * same point), so nothing about smoothness or shape is assumed. */
#include "sym.h"
#include "neldermead.h"
#include "brent.h"
#include "lnsrchmp.h"
#include "newtonmin.h"
#include "secant.h"
#include "conjgrad.h"
#include "optimc.h"
#ifndef PART
#define PART 1
#endif
#define MX 400
static int fix0, n, ne, symn, ngr; static double P[MX][32], F[MX], *prm = F; static double lo, hi, ga[4], gb[4];
static int find(const double *x) { for (int k = 0; k < ne; k++) { int i; for (i = 0; i < n; i++) if (!(fabs(x[i] - P[k][i]) <= 1e-9)) break; if (i == n) return k; } return -1; }
static double obj(double *x, int N, void *p) {
  sym_true(N == n && p == prm, "arguments of the objective"); int k = find(x); if (k >= 0) return F[k]; if (ne >= MX) { printf("too many evaluations\n"); abort(); }
  memcpy(P[ne], x, 8 * n); F[ne] = fix0 && ne == 0 ? 0 : ne < symn ? sym_n("f", ne, lo, hi) : (double)((ne * 37) % 101) / 32 - 1.5; return F[ne++];
}
static double obj1(double x, void *p) { return obj(&x, 1, p); }
static void grd(double *x, int N, double *g, void *p) { sym_true(N == n && p == prm, "arguments of the gradient"); ngr++; for (int i = 0; i < n; i++) g[i] = ga[i] * x[i] + gb[i]; }
static void best(const double *x, int from, const char *w) { int k = find(x); sym_true(k >= 0, "%s: the point returned was evaluated", w); if (k >= 0) for (int j = 0; j < ne; j++) sym_le(F[k], F[j], 0, "%s: no evaluated point is better (%d)", w, j); }
static int dsym, dset; static double mn[4], A2[16], GS[MX]; static double qobj(double *x, int N, void *p) { double r = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r += 0.5 * A2[i * n + j] * (x[i] - mn[i]) * (x[j] - mn[j]); return r; } static void qgr(double *x, int N, double *o, void *p) { for (int i = 0; i < n; i++) { o[i] = 0; for (int j = 0; j < n; j++) o[i] += A2[i * n + j] * (x[j] - mn[j]); } }
static custom_function qf = {qobj, F}; static custom_gradient qg = {qgr, F}; static int hasg[MX];
static void grs(double *x, int N, double *o, void *p) { int k = find(x); sym_true(k >= 0, "gradient where evaluated"); if (k < 0) k = 0; if (!hasg[k]) { hasg[k] = 1; GS[k] = k == 1 && dsym ? sym_n("d", k, -1, 1) : (double)((k * 5 + dset * 3) % 9 - 4) / 8; } *o = GS[k]; }
static double *WX, *WXF, WMS; static int WM, WRC; static custom_function *WF; static custom_gradient *WG;
#if PART == 64
static int took(int m, custom_function *f, custom_gradient *g, double *x, int N, double *dx, double mst, int mi, double *xf) { sym_true(WM < 0, "one algorithm"); WM = m; sym_true(f == WF && x == WX && N == n, "objective, start and dimension"); if (m) sym_true(g == WG, "gradient"); if (m != 0 && m != 2 && m != 3) sym_eq(mst, WMS, 0, "step limit"); for (int i = 0; i < n; i++) { sym_eq(dx[i], 1, 0, "unit scales"); xf[i] = i + 7; } sym_true(mi >= 200 * n, "iterations allowed"); return WRC; }
static void tol(double v, const char *w) { sym_true(v > 0 && v < 1e-4, "%s small: %g", w, v); }
int stub_nel_min(custom_function *f, double *x, int N, double *dx, double fs, int mi, int *ni, double eps, double *xf) { tol(eps, "tolerance"); return took(0, f, NULL, x, N, dx, 0, mi, xf); }
int stub_newton_min_func(custom_function *f, custom_gradient *g, double *x, int N, double *dx, double fs, double ms, int mi, int *ni, double eps, double gt, double st, double *xf) { tol(eps, "eps"); tol(gt, "gtol"); tol(st, "stol"); return took(1, f, g, x, N, dx, ms, mi, xf); }
int stub_newton_min_trust(custom_function *f, custom_gradient *g, double *x, int N, double *dx, double fs, double de, int me, int mi, int *ni, double eps, double gt, double st, double *xf) { tol(eps, "eps"); tol(gt, "gtol"); tol(st, "stol"); sym_true(me == 0 || me == 1, "step kind"); return took(2 + me, f, g, x, N, dx, 0, mi, xf); }
int stub_conjgrad_min_lin(custom_function *f, custom_gradient *g, double *x, int N, double *dx, double ms, int mi, int *ni, double eps, double gt, double ft, double xt, double *xf) { tol(eps, "eps"); tol(gt, "gtol"); tol(ft, "ftol"); tol(xt, "xtol"); return took(4, f, g, x, N, dx, ms, mi, xf); }
int stub_bfgs_min(custom_function *f, custom_gradient *g, double *x, int N, double *dx, double fs, double ms, int mi, int *ni, double eps, double gt, double st, double *xf) { tol(eps, "eps"); tol(gt, "gtol"); tol(st, "stol"); return took(5, f, g, x, N, dx, ms, mi, xf); }
int stub_bfgs_l_min(custom_function *f, custom_gradient *g, double *x, int N, int m, double *dx, double fs, double ms, int mi, int *ni, double eps, double gt, double ft, double xt, double *xf) { tol(eps, "eps"); tol(gt, "gtol"); tol(ft, "ftol"); tol(xt, "xtol"); sym_true(m >= 1, "memory"); return took(6, f, g, x, N, dx, ms, mi, xf); }
int stub_bfgs_min2(custom_function *f, custom_gradient *g, double *x, int N, int m, double *dx, double fs, double ms, int mi, int *ni, double eps, double gt, double ft, double xt, double *xf) { tol(eps, "eps"); tol(gt, "gtol"); tol(ft, "ftol"); tol(xt, "xtol"); return took(7, f, g, x, N, dx, ms, mi, xf); }
#endif
int main(int argc, char **argv) {
  int t = sym_tier(); fix0 = PART == 4 || PART == 1; custom_function f = {obj, F}; custom_gradient g = {grd, F}; custom_funcuni u = {obj1, F}; (void)g; (void)f; (void)u;
#if PART == 1
  for (n = 1; n <= 3; n++) for (int it = 0; it <= (n == 1 ? 4 : 3 + t); it++) for (int e = 0; e < 3; e++) {
    if (n == 3 && (it > 2 + t || (e && !t))) continue;
    SYM_CASE("Nelder-Mead n=%d iterations=%d tolerance %d", n, it, e) {
      double x[4], x0[4], dx[4], xf[4]; static const double E[] = {-1, 0.5, 0.9}; int niter = -1, rc; lo = -1; hi = 1; ne = 0; symn = n + 2 + (n == 1 ? 2 * it + 1 : n == 2 ? it + t : it); if (symn > (e ? n + 3 : 7) + t) symn = (e ? n == 1 ? 4 : 3 : 8 - n) + t; sym_rseed(n * 10 + e);
      for (int i = 0; i < n; i++) { x[i] = x0[i] = sym_rnd(9) / 4.0 - 1; dx[i] = sym_rnd(3) * 0.5 + 0.5; xf[i] = NAN; }
      rc = nel_min(&f, x, n, dx, 1.0, it, &niter, E[e], xf); sym_true(niter >= 0 && niter <= it, "iterations %d", niter); sym_true(rc == (niter >= it ? 4 : 1), "code %d", rc);
      for (int i = 0; i < n; i++) sym_eq(x[i], x0[i], 0, "start kept"); if (ne) best(xf, 0, "simplex"); else for (int i = 0; i < n; i++) sym_eq(xf[i], x0[i], 0, "no iteration: start returned");
      if (rc == 1) for (int i = 0; i < n; i++) for (int s = -1; s <= 1; s += 2) { double y[4]; memcpy(y, xf, 32); y[i] += s * 1e-3 * dx[i]; sym_true(find(y) >= 0, "neighbour %d %d of the result compared", i, s); }
    } }
#elif PART == 2
  for (int k = 0; k < 4; k++) for (int e = 0; e < 3 + t; e++) SYM_CASE("line minimisation %d %d", k, e) {
      static const double A[] = {0, -2, -1, 0.5}, B[] = {1, 1, 1.5, 0.75}, T[] = {0.25, 0.12, 0.07, 0.04}; double x = NAN, v, a = A[k], b = B[k], w = b - a, tol; n = 1; ne = 0; lo = -1; hi = 1; symn = 5 + t;
      v = brent_local_min(&u, a, b, T[e] * w, ldexp(1, -52), &x); tol = 2 * (T[e] * w + 1e-12); best(&x, 0, "interval"); int q = find(&x); sym_eq(v, F[q], 0, "value returned");
      double l = a, r = b; for (int j = 0; j < ne; j++) { sym_true(P[j][0] >= a - 1e-12 && P[j][0] <= b + 1e-12, "evaluated inside the interval"); if (j != q && P[j][0] < x && P[j][0] > l) l = P[j][0]; if (j != q && P[j][0] > x && P[j][0] < r) r = P[j][0]; }
      sym_true(x - l <= tol && r - x <= tol, "bracketed within the tolerance: %g %g", x - l, r - x); }
  for (int e = 0; e < 2 + t; e++) SYM_CASE("fminbnd %d", e) { n = 1; ne = 0; lo = -1; hi = 1; symn = 2 + e; double a = -0.5 - e, b = 2, x = fminbnd(&u, a, b), l = a, r = b; best(&x, 0, "fminbnd"); int q = find(&x); (void)q; (void)l; (void)r; }
#elif PART == 4
  for (n = 1; n <= 2; n++) for (int k = 0; k < 6; k++) for (int m = 0; m < 3; m++) if (m != 1 || t || (n == 1 && k == 2)) SYM_CASE("backtracking n=%d %d %d", n, k, m) {
      double x0[4], xi[4], j[4], p[4], dx[4], x[4], s = 0, len = 0, mx = m == 2 ? 0.25 : 100, st, sl = 0; int rc; ne = 0; symn = 3; lo = -1; hi = 1; sym_rseed(n * 10 + k);
      for (int i = 0; i < n; i++) { x0[i] = xi[i] = sym_rnd(9) / 4.0 - 1; j[i] = sym_rnd(9) / 4.0 - 1.125; p[i] = -j[i] * (1 + sym_rnd(3)); dx[i] = ldexp(1, sym_rnd(3) - 1); x[i] = NAN; s += j[i] * p[i]; len += dx[i] * dx[i] * p[i] * p[i]; } (void)s; (void)len;
      st = m == 0 ? 1.2 : m == 1 ? 0.6 : 0.2; rc = lnsrch(&f, xi, j, p, n, dx, mx, st, x); len = 0; for (int i = 0; i < n; i++) { sym_eq(xi[i], x0[i], 0, "start kept"); sl += j[i] * (x[i] - xi[i]); len += dx[i] * dx[i] * (x[i] - xi[i]) * (x[i] - xi[i]); }
      sym_true(rc == 0 || rc == 1, "status %d", rc); sym_le(len, mx * mx, 1e-9, "step length limit"); if (rc == 0) { int q = find(x); sym_true(q >= 0, "point returned was evaluated"); if (q >= 0) sym_le(F[q], F[0] + 1e-4 * sl, 1e-12, "sufficient decrease"); sym_le(sl, 0, 1e-12, "descent"); } else for (int i = 0; i < n; i++) sym_eq(x[i], xi[i], 0, "no step"); }
#elif PART == 8 /* gradient methods never end worse than they started */
  for (n = 1; n <= 2; n++) for (int me = 0; me < 4; me++) for (int k = 0; k < 4; k++) for (int it = 1; it <= 1 + t; it++) if (t || me < 3 || k != 2) SYM_CASE("descent method %d n=%d %d iterations=%d", me, n, k, it) {
      static const char *W[] = {"newton line search", "hook step", "double dogleg", "bfgs"}; double x[4], x0[4], dx[4], d0[4], xf[4]; int ni = -1, rc; ne = 0; fix0 = 1; symn = me == 3 || (me == 0 && n == 2) ? 2 : 3; lo = -0.75; hi = 0.75; sym_rseed(n * 10 + k);
      for (int i = 0; i < n; i++) { x[i] = x0[i] = sym_rnd(9) / 4.0 - 1.125; dx[i] = d0[i] = ldexp(1, sym_rnd(3) - 1); ga[i] = 1 + sym_rnd(3); gb[i] = sym_rnd(9) / 4.0 - 1.0; xf[i] = NAN; }
      double ep = ldexp(1, -40), gt = 0.01, st = 0.5; if (me == 0) rc = newton_min_func(&f, &g, x, n, dx, 1.0, 50, it, &ni, ep, gt, st, xf); else if (me < 3) rc = newton_min_trust(&f, &g, x, n, dx, 1.0, k & 1 ? -1 : 0.5, me - 1, it, &ni, ep, gt, st, xf); else rc = bfgs_min(&f, &g, x, n, dx, 1.0, 50, it, &ni, ep, gt, st, xf);
      sym_true(ni >= 0 && ni <= it, "iterations"); sym_true(rc == 1 || rc == 2 || rc == 3 || rc == 4, "%s status %d", W[me], rc); sym_true(rc != 4 || ni == it, "limit"); int q = find(xf); sym_true(q >= 0, "%s: the point returned was evaluated", W[me]); if (q >= 0) sym_le(F[q], F[0], 0, "%s: not worse than the start", W[me]);
      if (rc == 1) for (int i = 0; i < n; i++) { double v = (ga[i] * xf[i] + gb[i]); sym_le(fabs(v), 0.01 * (1 / fmin(1, 2 * d0[i]) + 1), 1e-9, "%s: converged means a small gradient", W[me]); }
      for (int i = 0; i < n; i++) { sym_eq(x[i], x0[i], 1e-15, "start kept"); sym_eq(dx[i], d0[i], 0, "scales kept"); } }
#elif PART == 16 /* strictly convex quadratics with an arbitrary minimiser */
  for (n = 1; n <= 2 + t; n++) for (int k = 0; k < 6; k++) if (t || n + k != 4) SYM_CASE("newton quadratic n=%d %d", n, k) {
      double x[4], xf[4], v = 0; int rc; sym_rseed(n * 10 + k); for (int i = 0; i < n; i++) { x[i] = sym_rnd(9) / 4.0 - 1.125; mn[i] = i == k % n ? sym_n("s", i, -2, 2) : 0.25 * k - 1; xf[i] = NAN; } for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A2[i * n + j] = A2[j * n + i] = i == j ? 1 + sym_rnd(5) / 2.0 : sym_rnd(5) / 16.0 - 0.125; rc = fminunc(&qf, &qg, n, x, 100, 1, xf); (void)v;
      sym_true(rc == 1 || rc == 2 || rc == 3 || rc == 6, "converged %d", rc); for (int i = 0; i < n; i++) sym_eq(xf[i], mn[i], 5e-4, "minimiser %d", i); }
#elif PART == 32 /* More-Thuente */
  for (int it = 1; it <= 2 + t; it++) for (int k = 0; k < 8; k++) for (int e = 0; e < 2; e++) SYM_CASE("More-Thuente evaluations=%d %d %d", it, k, e) {
      double xi, x0, x = NAN, f0, fv, j, j0, p, st, d = 1; int rc; n = 1; ne = 0; fix0 = 1; dsym = it == 1; dset = 2 * k + e; symn = 2 + t; lo = -1; hi = 1; memset(hasg, 0, sizeof hasg); sym_rseed(k); xi = x0 = sym_rnd(9) / 4.0 - 1; j = j0 = k & 1 ? 1 : -0.5; p = k & 1 ? -0.75 : 1; st = k & 2 ? 1 : 0.5; f0 = fv = obj(&xi, 1, F); custom_gradient gg = {grs, F};
      rc = lnsrchmt(&f, &gg, &xi, &fv, &j, &st, &p, 1, &d, e ? 1.25 : 100, it, 1e-8, e ? 0.125 : 0.01, 0.5, 0.0625, &x); sym_eq(xi, x0, 0, "start kept"); int q = find(&x); sym_true(q >= 0, "point was evaluated"); sym_true(rc >= 1 && rc <= 6, "status %d", rc); if (q >= 0) { sym_eq(fv, F[q], 0, "value at the point"); sym_eq(j, GS[q], 0, "gradient at the point"); double ft = e ? 0.125 : 0.01; if (rc == 1 || rc == 5) sym_le(F[q], f0 + ft * (x - xi) * j0, 1e-12, "sufficient decrease"); if (rc == 1) { sym_le(j * p, -0.5 * j0 * p, 1e-12, "curvature"); sym_le(-j * p, -0.5 * j0 * p, 1e-12, "curvature"); } if (rc == 3 || rc == 2 || rc == 6) sym_le(F[q], f0, 0, "not worse"); } }
#elif PART == 64 /* methods of fminunc */
  for (int m = 0; m < 8; m++) for (n = 1; n <= 25; n += 4) for (int gi = 0; gi < 2; gi++) SYM_CASE("fminunc method %d n=%d %d", m, n, gi) { double x[32], xf[32], ms = sym("ms", 0, 5); static const int RC[] = {0, 1, 2, 3, 4, 6, 15}; WX = x; WXF = xf; WMS = ms; WM = -1; WRC = RC[(m + n) % 7]; WF = &f; WG = gi ? &g : NULL; for (int i = 0; i < n; i++) { x[i] = i * 0.5; xf[i] = NAN; } int rc = fminunc(&f, WG, n, x, ms, m, xf); sym_true(rc == WRC, "status handed on"); sym_true(WM == m, "algorithm %d for method %d", WM, m); for (int i = 0; i < n; i++) { sym_eq(xf[i], i + 7, 0, "result"); sym_eq(x[i], i * 0.5, 0, "start kept"); } WM = -1; if (m == 0) { rc = fminsearch(&f, n, x, xf); sym_true(rc == WRC && WM == 0, "fminsearch"); } }
#endif
  return 0;
}
