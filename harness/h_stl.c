/* P18: STL decomposition against an independent implementation of the published algorithm (loess, cycle-subseries smoothing, low-pass filter).
 * The robustness weights between outer passes are replaced by given weights (stlrwt_ is checked on its own in h_stlrw.c). */
#include "sym.h"
#include "seastest.h"
#include "talg.h"
#include "stl.h"
static int nw; static double W[16][120]; static double *Fit[16]; static int nfit;
int stub_stlrwt_(double *y, int *n, double *fit, double *rw) { sym_true(nw < 16, "robust passes"); Fit[nw] = malloc(8 * *n); memcpy(Fit[nw], fit, 8 * *n); for (int i = 0; i < *n; i++) rw[i] = W[nw][i]; nw++; return 0; }
/* loess fit of y[0..n-1] (abscissae 1..n) at x using the window l..r (1-based), weights rw may be NULL; returns 0 when all weights vanish */
static int est(const double *y, int n, int q, int deg, double x, int l, int r, const double *rw, double *out) {
  double h = fmax(x - l, r - x), w[400], s = 0; if (q > n) h += (q - n) / 2; for (int j = l; j <= r; j++) { double d = fabs(j - x); w[j] = 0; if (d <= .999 * h) { w[j] = d <= .001 * h ? 1 : pow(1 - (d / h) * (d / h) * (d / h), 3); if (rw) w[j] *= rw[j - 1]; s += w[j]; } }
  if (s <= 0) return 0; double m = 0, v = 0; for (int j = l; j <= r; j++) w[j] /= s, m += w[j] * j; for (int j = l; j <= r; j++) v += w[j] * (j - m) * (j - m);
  *out = 0; int lin = deg && h > 0 && sqrt(v) > .001 * (n - 1); for (int j = l; j <= r; j++) *out += w[j] * (lin ? 1 + (x - m) / v * (j - m) : 1) * y[j - 1]; return 1; }
static void win(int n, int q, int x, int *l, int *r) { if (q >= n) { *l = 1; *r = n; return; } int h = (q + 1) / 2; *l = x - h + 1; if (*l < 1) *l = 1; if (*l > n - q + 1) *l = n - q + 1; *r = *l + q - 1; }
static void ess(const double *y, int n, int q, int deg, int jump, const double *rw, double *o) {
  if (n < 2) { o[0] = y[0]; return; } if (jump > n - 1) jump = n - 1; int last = 1; for (int i = 1; i <= n; i += jump) { int l, r; win(n, q, i, &l, &r); if (!est(y, n, q, deg, i, l, r, rw, &o[i - 1])) o[i - 1] = y[i - 1]; last = i; }
  if (last != n) { int l, r; win(n, q, last, &l, &r); if (!est(y, n, q, deg, n, l, r, rw, &o[n - 1])) o[n - 1] = y[n - 1]; } /* last point from the last window used */
  for (int i = 1; i < n; i += jump) { int e = i + jump > n ? n : i + jump; for (int j = i + 1; j < e; j++) o[j - 1] = o[i - 1] + (o[e - 1] - o[i - 1]) * (j - i) / (double)(e - i); } }
static void ma(const double *x, int n, int k, double *o) { for (int i = 0; i + k <= n; i++) { o[i] = 0; for (int j = 0; j < k; j++) o[i] += x[i + j]; o[i] /= k; } }
static void inner(const double *y, int N, int f, int ns, int nt, int nl, int ds, int dt, int dl, int js, int jt, int jl, int ni, const double *rw, double *S, double *T) {
  double *C = malloc(8 * (N + 2 * f)), *A = malloc(8 * (N + 2 * f)), *B = malloc(8 * (N + 2 * f)), *L = malloc(8 * (N + 2 * f)); double u[120], v[122], q[120];
  for (int it = 0; it < ni; it++) { for (int p = 0; p < f; p++) { int k = 0; for (int i = p; i < N; i += f, k++) { u[k] = y[i] - T[i]; if (rw) q[k] = rw[i]; } ess(u, k, ns, ds, js, rw ? q : NULL, v + 1); int r = ns < k ? ns : k; if (!est(u, k, ns, ds, 0, 1, r, rw ? q : NULL, &v[0])) v[0] = v[1]; if (!est(u, k, ns, ds, k + 1, k - r + 1, k, rw ? q : NULL, &v[k + 1])) v[k + 1] = v[k]; for (int m = 0; m < k + 2; m++) C[m * f + p] = v[m]; }
    ma(C, N + 2 * f, f, A); ma(A, N + f + 1, f, B); ma(B, N + 2, 3, A); ess(A, N, nl, dl, jl, NULL, L); for (int i = 0; i < N; i++) S[i] = C[f + i] - L[i]; for (int i = 0; i < N; i++) A[i] = y[i] - S[i]; ess(A, N, nt, dt, jt, rw, T); }
  free(C); free(A); free(B); free(L); }
static int odd(double x) { int v = (int)x; return v % 2 ? v : v + 1; }
static void fill(double *x, int N, int nsym) { sym_rseed(N * 13 + nsym); for (int i = 0; i < N; i++) x[i] = (sym_rnd(65) - 32) / 16.0; if (nsym >= N) sym_arr(x, N, "x", -2, 2); else for (int k = 0; k < nsym; k++) { int i = (int)((long)(2 * k + 1) * N / (2 * nsym)); x[i] = sym_n("x", i, -2, 2); } }
/* options -1: default (NULL) */
static void stlcase(int N, int f, int per, int sw, int sd, int tw, int td, int lw, int ld, int sj, int tj, int lj, int rob, int in, int out, int wp, int nsym) {
  SYM_CASE("stl N=%d f=%d %s s %d/%d t %d/%d l %d/%d jumps %d %d %d robust %d inner %d outer %d weights %d", N, f, per ? "period" : "window", sw, sd, tw, td, lw, ld, sj, tj, lj, rob, in, out, wp) {
    double *x = malloc(8 * N), *k = malloc(8 * N), *s = malloc(8 * N), *t = malloc(8 * N), *r = malloc(8 * N), *S = malloc(8 * N), *T = malloc(8 * N); fill(x, N, nsym); memcpy(k, x, 8 * N); nw = nfit = 0; for (int a = 0; a < 16; a++) for (int i = 0; i < N; i++) { int h = (i * 7 + a * 5 + wp * 3) % 11; W[a][i] = wp == 0 ? 1 : wp == 1 ? (h < 2 ? 0 : (h + 4) / 16.0) : i / f % 2 == 0 && i % f == 1 ? 0 : wp == 3 && i < N / 2 ? 0 : (h + 1) / 16.0; }
#define P(v) ((v) < 0 ? NULL : &v)
    stl(x, N, f, per ? "period" : "null", P(sw), P(sd), P(tw), P(td), P(lw), P(ld), P(sj), P(tj), P(lj), P(rob), P(in), P(out), s, t, r);
    int ns = per ? 10 * N + 1 : sw, ds = per || sd < 0 ? 0 : sd, nt = tw < 0 ? odd(ceil(1.5 * f / (1 - 1.5 / ns))) : tw, dt = td < 0 ? 1 : td, nl = lw < 0 ? odd(f) : lw, dl = ld < 0 ? dt : ld, js = sj < 0 ? (int)ceil(ns / 10.0) : sj, jt = tj < 0 ? (int)ceil(nt / 10.0) : tj, jl = lj < 0 ? (int)ceil(nl / 10.0) : lj, rb = rob > 0, ni = in < 0 ? (rb ? 1 : 2) : in, no = out < 0 ? (rb ? 15 : 0) : out;
    ns = odd(ns < 3 ? 3 : ns); nt = odd(nt < 3 ? 3 : nt); nl = odd(nl < 3 ? 3 : nl); for (int i = 0; i < N; i++) T[i] = 0; for (int p = 0; p <= no; p++) { inner(x, N, f, ns, nt, nl, ds, dt, dl, js, jt, jl, ni, p ? W[p - 1] : NULL, S, T); if (p < no && p < nw) for (int i = 0; i < N; i++) sym_eq(Fit[p][i], S[i] + T[i], 1e-7, "fit after pass %d [%d]", p, i); }
    sym_true(nw == no, "%d robustness passes, asked for %d", nw, no);
    if (per) for (int p = 0; p < f; p++) { double m = 0; int c = 0; for (int i = p; i < N; i += f) m += S[i], c++; for (int i = p; i < N; i += f) S[i] = m / c; }
    for (int i = 0; i < N; i++) { sym_eq(x[i], k[i], 0, "series kept"); sym_eq(s[i], S[i], 1e-7, "seasonal %d", i); sym_eq(t[i], T[i], 1e-7, "trend %d", i); sym_eq(s[i] + t[i] + r[i], x[i], 1e-9, "components add up %d", i); }
    for (int i = 0; i < nw; i++) free(Fit[i]); free(x); free(k); free(s); free(t); free(r); free(S); free(T);
  }
}
static void shcase(int N, int f) { SYM_CASE("seasonal dummies N=%d f=%d", N, f) { double *x = calloc(N, 8); int r, c; double *d = seasdummy(x, N, f, &r, &c); sym_true(r == f - 1 && c == N, "shape %d x %d", r, c); double pi = acos(-1.0), a = sym("a", 0, 1); for (int j = 0; j < f - 1; j++) for (int i = 0; i < N; i++) sym_eq(a * d[j * N + i], a * (j % 2 ? sin(2 * pi * (j / 2 + 1) * (i + 1) / f) : cos(2 * pi * (j / 2 + 1) * (i + 1) / f)), 1e-7, "dummy %d at %d", j, i); free(x); free(d); } }
int main(int argc, char **argv) { int th = sym_tier();
  static const int F[] = {2, 3, 4, 7, 12}; static const int D = -1;
  for (int a = 0; a < 5; a++) for (int v = 0; v < (th ? 6 : 3); v++) { int f = F[a], N = f * (v % 3 + 2) + (v * 3 + a) % f; if (N < 9) N = 9 + v; int ns = N <= 14 ? N : th ? 6 : 4;
    stlcase(N, f, 1, D, D, D, D, D, D, D, D, D, D, D, D, 0, ns); stlcase(N, f, 0, 7, D, D, D, D, D, D, D, D, D, D, D, 0, ns); stlcase(N, f, 0, 13, 1, D, D, D, D, D, D, D, 0, D, D, 0, ns); stlcase(N, f, 0, 7, 0, D, 0, D, 1, D, D, D, D, D, D, 0, ns); stlcase(N, f, 1, D, 1, D, D, D, D, D, D, D, D, D, D, 0, ns);
    stlcase(N, f, 0, 5, 1, D, D, D, D, 1, 1, 1, D, 3, D, 0, ns); stlcase(N, f, 0, 10, 1, 10, D, 10, D, D, D, D, D, D, D, 0, ns); stlcase(N, f, 0, 4, 1, 2 * f, 1, f + 2, 0, 2, 3, 4, D, D, D, 0, ns); stlcase(N, f, 0, 3, D, 5, D, 3, D, 1, 2, 2, D, 1, 0, 0, ns); stlcase(N, f, 1, D, D, 2 * N + 1, D, N, D, D, 1, N, D, D, D, 0, ns); stlcase(N, f, 0, 13, 1, N - 1, 1, D, D, D, 4, D, D, D, D, 0, ns);
    for (int wp = 0; wp < 4; wp++) { stlcase(N, f, wp % 2, wp % 2 ? D : 7, D, D, D, D, D, D, D, D, 1, D, th ? D : 2, wp, ns); stlcase(N, f, 0, 9, wp % 2, D, wp < 2, D, D, D, wp % 3 ? D : 1, 2, wp < 2 ? D : 0, 2, 1 + wp % 2, wp, ns); } stlcase(N, f, v % 2, 7, D, D, D, D, D, D, D, D, 1, D, D, 1, th ? ns : 2); }
  for (int f = 2; f < 9; f++) shcase(f + 4, f);
  return 0; }
