/* P02: convolution equals its definition for both methods and every output type. */
#include "sym.h"
#include "conv.h"
#include "filter.h"
static void ref_full(const double *a, int N, const double *b, int L, double *o) {
  for (int k = 0; k < N + L - 1; k++) { o[k] = 0; for (int i = 0; i < N; i++) if (k - i >= 0 && k - i < L) o[k] += a[i] * b[k - i]; }
}
static void one(const char *type, const char *method, int N, int L, int bothsym) {
  SYM_CASE("convolve %s %s N=%d L=%d %s", type, method, N, L, bothsym ? "bilinear" : "linear") {
    int LB = N > L ? N : L, LS = N > L ? L : N, M = N + L - 1;
    double *a = malloc(8 * N), *b = malloc(8 * L), *r = malloc(8 * M), tol = 1e-7;
    sym_arr(a, N, "a", -1, 1);
    sym_rseed(N * 100 + L);
    if (bothsym) sym_arr(b, L, "b", -1, 1); else for (int i = 0; i < L; i++) b[i] = sym_runi();
    int want = !strcmp(type, "full") ? M : !strcmp(type, "same") ? LB : LB - LS + 1;
    int off = !strcmp(type, "full") ? 0 : !strcmp(type, "same") ? (M - LB) / 2 : LS - 1;
    double *o = malloc(8 * want);                 /* exactly the documented output size */
    int n = convolve(type, method, a, N, b, L, o);
    sym_true(n == want, "returned length %d, want %d", n, want);
    ref_full(a, N, b, L, r);
    for (int i = 0; i < want; i++) sym_eq(o[i], r[off + i], tol, "out[%d]", i);
  }
}
int main(int argc, char **argv) {
  const char *T[] = {"full", "same", "valid"}, *Me[] = {"direct", "fft"};
  int mx = sym_tier() ? 9 : 6;
  for (int t = 0; t < 3; t++) for (int m = 0; m < 2; m++) {
    for (int N = 1; N <= mx; N++) for (int L = 1; L <= mx; L++) one(T[t], Me[m], N, L, 1);
    static const int big[][2] = {{1,40},{40,1},{17,30},{30,17},{31,32},{33,33},{64,7},{7,64},{48,59},{59,48},{100,13},{13,100},{90,90},{128,3},{150,60},{64,65},{200,57}};
    for (int i = 0; i < (int)(sizeof big / sizeof *big); i++) if (t == 0 || i < 10 || sym_tier()) one(T[t], Me[m], big[i][0], big[i][1], 0);
    one(T[t], Me[m], 12, 9, 1); one(T[t], Me[m], 9, 14, 1);
  }
  /* the building blocks */
  for (int N = 1; N <= 7; N++) for (int L = 1; L <= 7; L++) SYM_CASE("direct N=%d L=%d", N, L) {
    double a[8], b[8], *o = malloc(8 * (N + L - 1)), *p = malloc(8 * (N + L - 1)), r[16]; sym_arr(a, N, "a", -1, 1); sym_arr(b, L, "b", -1, 1);
    ref_full(a, N, b, L, r);
    conv_direct(a, N, b, L, o); conv_directx(a, N, b, L, p); for (int i = 0; i < N + L - 1; i++) { sym_eq(o[i], r[i], 1e-12, "conv_direct[%d]", i); sym_eq(p[i], r[i], 1e-12, "conv_directx[%d]", i); }
    conv(a, N, b, L, o); convx(a, N, b, L, p); for (int i = 0; i < N + L - 1; i++) { sym_eq(o[i], r[i], 1e-12, "conv[%d]", i); sym_eq(p[i], r[i], 1e-12, "convx[%d]", i); }
    double *f = malloc(8 * N); filter(a, N, b, L, f); for (int i = 0; i < N; i++) sym_eq(f[i], r[i], 1e-12, "filter[%d]", i);
  }
  /* FFT convolution object: usable repeatedly */
  for (int N = 3; N <= 23; N += 10) SYM_CASE("conv_fft reuse N=%d", N) {
    int L = 5, M = N + L - 1; double *a = malloc(8 * N), *b = malloc(8 * L), *c = malloc(8 * N), *o = malloc(8 * M), *r = malloc(8 * M);
    sym_arr(a, N, "a", -1, 1); sym_arr(b, L, "b", -1, 1); sym_rseed(N); for (int i = 0; i < N; i++) c[i] = sym_runi();
    conv_object ob = conv_init(N, L); conv_fft(ob, c, b, o); ref_full(c, N, b, L, r); for (int i = 0; i < M; i++) sym_eq(o[i], r[i], 1e-8, "first[%d]", i);
    conv_fft(ob, a, b, o); ref_full(a, N, b, L, r); for (int i = 0; i < M; i++) sym_eq(o[i], r[i], 1e-8, "second[%d]", i); free_conv(ob);
  }
  return 0;
}
