/* P27: interpolation, grids, order statistics and sums; resampling, boundary extension and circular shifts. */
#include "sym.h"
#include "talg.h"
#include "matrix.h"
#include "wtmath.h"
#include "stats.h"
int main(int argc, char **argv) {
  int th = sym_tier();
  for (int N = 2; N <= (th ? 8 : 6); N++) for (int shuf = 0; shuf < 2; shuf++) SYM_CASE("interpolate N=%d %s", N, shuf ? "unsorted" : "sorted") {
    double *x = malloc(8 * N), *y = malloc(8 * N), *xs = malloc(8 * N), *kx = malloc(8 * N), *ky = malloc(8 * N); int *pi = malloc(4 * N); sym_rseed(N + shuf); double c = -1; for (int i = 0; i < N; i++) { c += 0.25 + sym_rnd(8) / 8.0; xs[i] = c; }
    for (int i = 0; i < N; i++) pi[i] = i; if (shuf) for (int i = N - 1; i > 0; i--) { int j = sym_rnd(i + 1), t = pi[i]; pi[i] = pi[j]; pi[j] = t; } sym_arr(y, N, "y", -2, 2); for (int i = 0; i < N; i++) x[pi[i]] = xs[i]; memcpy(kx, x, 8 * N); memcpy(ky, y, 8 * N);
    double z = sym("z", xs[0] - 1, xs[N - 1] + 1), r = interpolate_linear(x, y, N, z), e; 
    if (z <= xs[0]) e = y[pi[0]]; else if (z >= xs[N - 1]) e = y[pi[N - 1]]; else { int i = 0; while (i < N - 2 && z > xs[i + 1]) i++; e = y[pi[i]] + (z - xs[i]) / (xs[i + 1] - xs[i]) * (y[pi[i + 1]] - y[pi[i]]); }
    sym_eq(r, e, 1e-9, "interpolated value"); for (int i = 0; i < N; i++) { sym_eq(x[i], kx[i], 0, "x kept"); sym_eq(y[i], ky[i], 0, "y kept"); }
    for (int k = 0; k < N; k++) sym_eq(interpolate_linear(x, y, N, x[k]), y[k], 1e-9, "knot %d", k);
    if (!shuf) { double zo[3] = {z, xs[N / 2], 0.5 * (xs[0] + xs[1])}, yo[3]; approx(x, y, N, zo, yo, 3); sym_eq(yo[0], e, 1e-9, "approx arbitrary"); sym_eq(yo[1], y[N / 2], 1e-9, "approx knot"); sym_eq(yo[2], 0.5 * (y[0] + y[1]), 1e-9, "approx midpoint"); }
  }
  for (int N = 2; N <= 40; N = N < 8 ? N + 1 : N * 2) SYM_CASE("linspace N=%d", N) { double *x = malloc(8 * N), lo = sym("lo", -10, 10), hi = sym("hi", -10, 10); linspace(x, N, lo, hi); for (int i = 0; i < N; i++) sym_eq(x[i] * (N - 1), lo * (N - 1 - i) + hi * i, 1e-8, "grid %d", i); sym_eq(x[0], lo, 0, "first"); sym_eq(x[N - 1], hi, 0, "last"); }
  for (int N = 1; N <= (th ? 6 : 5); N++) SYM_CASE("sort N=%d", N) {
    double *v = malloc(8 * N), *k = malloc(8 * N); int *p = malloc(4 * N), *q = malloc(4 * N), *seen = calloc(N, 4); sym_arr(v, N, "v", -1, 1); memcpy(k, v, 8 * N);
    sort1d(v, N, p); sort1d_ascending(v, N, q); for (int i = 0; i < N; i++) { sym_true(p[i] >= 0 && p[i] < N && q[i] >= 0 && q[i] < N, "index range"); seen[p[i]] |= 1; seen[q[i]] |= 2; sym_eq(v[i], k[i], 0, "values kept"); } for (int i = 0; i < N; i++) sym_true(seen[i] == 3, "permutation %d", i);
    for (int i = 0; i + 1 < N; i++) { sym_le(v[p[i + 1]], v[p[i]], 0, "descending %d", i); sym_le(v[q[i]], v[q[i + 1]], 0, "ascending %d", i); }
  }
  for (int N = 1; N <= (th ? 8 : 6); N++) SYM_CASE("extremes N=%d", N) {
    double *v = malloc(8 * N), lo, hi; sym_arr(v, N, "v", -1, 1); arrayminmax(v, N, &lo, &hi); double mx = array_max(v, N), mn = array_min(v, N); int a = 0, b = 0, c = 0, d = 0;
    for (int i = 0; i < N; i++) { sym_le(lo, v[i], 0, "min %d", i); sym_le(v[i], hi, 0, "max %d", i); sym_le(mn, v[i], 0, "array_min %d", i); sym_le(v[i], mx, 0, "array_max %d", i); a |= lo == v[i]; b |= hi == v[i]; c |= mn == v[i]; d |= mx == v[i]; }
    sym_true(a && b && c && d, "extremes attained");
  }
  for (int N = 1; N <= 5; N++) SYM_CASE("max abs N=%d", N) { double *v = malloc(8 * N); sym_arr(v, N, "v", -1, 1); double m = array_max_abs(v, N); int hit = 0; for (int i = 0; i < N; i++) { sym_le(fabs(v[i]), m, 1e-15, "bound %d", i); hit |= m == v[i] || m == -v[i]; } sym_true(hit, "attained"); }
  static const int NN[] = {2, 3, 5, 8, 13, 40, 100};
  for (int a = 0; a < 7; a++) SYM_CASE("mean variance N=%d", NN[a]) { int N = NN[a]; double *v = malloc(8 * N), s = 0, q = 0; sym_rseed(N); for (int i = 0; i < N; i++) v[i] = sym_runi(); if (N <= 13) sym_arr(v, N, "v", -1, 1); else for (int i = 0; i < 5; i++) v[i * (N / 5)] = sym_n("v", i, -1, 1); double m = mean(v, N), w = var(v, N); for (int i = 0; i < N; i++) s += v[i]; sym_eq(m * N, s, 1e-9, "mean"); for (int i = 0; i < N; i++) q += (v[i] - s / N) * (v[i] - s / N); sym_eq(w * N, q, 1e-9, "variance"); sym_eq(l2norm(v, N) * l2norm(v, N), q + s * s / N, 1e-8, "norm"); }
  for (int N = 2; N <= 9; N++) for (int l = 0; l < N && l <= 5; l++) SYM_CASE("ppsum N=%d l=%d", N, l) { double *u = malloc(8 * N), s0 = sym("s", -1, 1), s = s0, e = 0; sym_arr(u, N, "u", -1, 1); ppsum(u, N, l, &s); for (int i = 1; i <= l; i++) for (int j = i; j < N; j++) e += 2 * (1 - i / (l + 1.0)) * u[j] * u[j - i] / N; sym_eq(s, s0 + e, 1e-10, "Bartlett sum"); }
  for (int N = 1; N <= (th ? 12 : 8); N++) for (int M = 0; M <= 5; M++) for (int w = 0; w < 2; w++) SYM_CASE("resample N=%d M=%d %s", N, M, w ? "wtmath" : "talg") {
    double *x = malloc(8 * N), *k = malloc(8 * N); sym_arr(x, N, "x", -1, 1); memcpy(k, x, 8 * N); int L = M ? M * (N - 1) + 1 : N, D = M ? (N - 1) / M + 1 : N; double *y = malloc(8 * L), *z = malloc(8 * D), *r = malloc(8 * N);
    int a = w ? upsamp(x, N, M, y) : upsample(x, N, M, y), b = w ? downsamp(x, N, M, z) : downsample(x, N, M, z); sym_true(a == L && b == D, "lengths %d %d", a, b);
    for (int i = 0; i < L; i++) sym_eq(y[i], M == 0 ? x[i] : i % M == 0 ? x[i / M] : 0, 0, "upsampled %d", i); for (int i = 0; i < D; i++) sym_eq(z[i], x[M ? i * M : i], 0, "downsampled %d", i);
    int c = w ? downsamp(y, L, M, r) : downsample(y, L, M, r); sym_true(c == N, "round trip length"); for (int i = 0; i < N; i++) { sym_eq(r[i], k[i], 0, "round trip %d", i); sym_eq(x[i], k[i], 0, "input kept"); }
    if (w) { int L2 = M ? M * N : N; double *y2 = malloc(8 * L2); sym_true(upsamp2(x, N, M, y2) == L2, "upsamp2 length"); for (int i = 0; i < L2; i++) sym_eq(y2[i], M == 0 ? x[i] : i % M == 0 ? x[i / M] : 0, 0, "upsamp2 %d", i); }
  }
  for (int N = 2; N <= (th ? 12 : 8); N++) for (int a = 0; a <= N + N % 2; a++) SYM_CASE("extension N=%d a=%d", N, a) {
    int E = N + N % 2; double *x = malloc(8 * N), *p = malloc(8 * (E + 2 * a)), *s = malloc(8 * (N + 2 * a)); sym_arr(x, N, "x", -1, 1); int rp = per_ext(x, N, a, p); sym_true(rp == E, "periodic length"); for (int i = -a; i < E + a; i++) { int j = ((i % E) + E) % E; sym_eq(p[a + i], x[j < N ? j : N - 1], 0, "periodic %d", i); }
    if (a <= N) { int rs = symm_ext(x, N, a, s); sym_true(rs == N, "symmetric length"); for (int i = -a; i < N + a; i++) sym_eq(s[a + i], x[i < 0 ? -1 - i : i >= N ? 2 * N - 1 - i : i], 0, "symmetric %d", i); }
  }
  for (int N = 1; N <= (th ? 12 : 9); N++) for (int L = -2 * N - 1; L <= 2 * N + 1; L++) SYM_CASE("circshift N=%d L=%d", N, L) { double *x = malloc(8 * N), *k = malloc(8 * N); sym_arr(x, N, "x", -1, 1); memcpy(k, x, 8 * N); circshift(x, N, L); for (int i = 0; i < N; i++) sym_eq(x[i], k[(((i + L) % N) + N) % N], 0, "shifted %d", i); circshift(x, N, -L); for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "shifted back %d", i); }
  SYM_CASE("SWT length test") { int N = sym_choice("N", 1, 40), J = sym_choice("J", 0, 5); sym_true(!!testSWTlength(N, J) == (N % (1 << J) == 0), "divisible"); }
  for (int N = 2; N <= 6; N++) for (int f = 0; f < 4; f++) { if (f == 0 && N > 3) continue; SYM_CASE("cost function %d N=%d", f, N) { double *x = malloc(8 * N), e = 0; static char *nm[] = {"shannon", "threshold", "norm", "logenergy"}; for (int i = 0; i < N; i++) x[i] = i < 3 ? sym_n("x", i, f == 0 || f == 3 ? 0.1 : -1, 2) : sym_runi(); double par = f == 1 ? 0.5 : 2, r = costfunc(x, N, nm[f], par); for (int i = 0; i < N; i++) { double q = x[i] * x[i]; if (f == 0) { if (q > 0) e -= q * log(q); } else if (f == 1) e += fabs(x[i]) > par; else if (f == 2) e += q; else if (q > 0) e += log(q); } sym_eq(r, e, 1e-9, "cost"); } }
  return 0;
}
