/* P22: periodogram and zero-padded power spectral density: squared DFT magnitudes, frequencies, side conventions, Parseval, shift. */
#include "sym.h"
#include "spectrum.h"
#define PIx2 6.28318530717958647692
static void fill(double *x, int N, int nsym) { sym_rseed(N * 7 + nsym); for (int i = 0; i < N; i++) x[i] = sym_runi(); if (nsym >= N) sym_arr(x, N, "x", -1, 1); else for (int k = 0; k < nsym; k++) x[(2 * k + 1) * N / (2 * nsym)] = sym_n("x", (2 * k + 1) * N / (2 * nsym), -1, 1); }
static void one(int N, int F, int isp, int side, int nsym) {
  SYM_CASE("%s N=%d Nfft=%d side=%d", isp ? "psd" : "periodogram", N, F, side) {
    spectrum_fft_object o = spectrum_fft_init(N, F); int M = isp ? F : N, H = M / 2, L = side == 2 ? M : H + 1; double *x = malloc(8 * N), *k = malloc(8 * N), *s = malloc(8 * L), *f = malloc(8 * L), *z = malloc(8 * N), *c = malloc(8 * N), *d = malloc(8 * N);
    for (int i = 0; i < N; i++) z[i] = cos(i * 0.7) + 0.2; if (isp) psd(o, z, s, f, side); else periodogram(o, z, s, f, side); fill(x, N, nsym); memcpy(k, x, 8 * N);
    if (isp) psd(o, x, s, f, side); else periodogram(o, x, s, f, side);
    double sc = isp ? N * PIx2 : N, tot = 0, e = 0;
    for (int q = 0; q < L; q++) { int m = q <= H ? q : M - q; for (int t = 0; t < N; t++) { c[t] = cos(PIx2 * ((long)m * t % M) / M); d[t] = sin(PIx2 * ((long)m * t % M) / M); }
      double a = sym_dot(c, x, N), b = sym_dot(d, x, N), p = (a * a + b * b) / sc; int dbl = side != 2 && q > 0 && !(M % 2 == 0 && q == H); sym_eq(s[q], dbl ? 2 * p : p, 1e-8, "ordinate %d", q); sym_eq(f[q], q <= H ? PIx2 * q / M : -PIx2 * m / M, 1e-12, "frequency %d", q); tot += s[q]; }
    for (int t = 0; t < N; t++) { e += x[t] * x[t]; sym_eq(x[t], k[t], 0, "input kept"); } sym_eq(tot * sc, e * M, 1e-6, "Parseval");
  }
}
int main(int argc, char **argv) {
  int th = sym_tier();
  for (int N = 2; N <= (th ? 24 : 14); N++) for (int sd = 1; sd <= 2; sd++) one(N, N, 0, sd, N);
  for (int N = 2; N <= (th ? 12 : 8); N++) for (int F = N; F <= 2 * N + 1; F++) for (int sd = 1; sd <= 2; sd++) one(N, F, 1, sd, N);
  static const int BIG[] = {30, 37, 64, 91, 100, 128}; for (int b = 0; b < (th ? 6 : 4); b++) for (int sd = 1; sd <= 2; sd++) { one(BIG[b], BIG[b], 0, sd, 3); one(BIG[b], BIG[b] + 13 + b, 1, sd, 3); one(BIG[b], 2 * BIG[b], 0, sd, 3); }
  for (int N = 1; N <= (th ? 40 : 20); N++) if (N != 0) SYM_CASE("shift N=%d", N) { double *s = malloc(8 * N), *k = malloc(8 * N); sym_arr(s, N, "s", 0, 1); memcpy(k, s, 8 * N); spectrum_shift(s, N); /* position of signed frequency index j in (-N/2, N/2] */
    int lo = -((N - 1) / 2); for (int i = 0; i < N; i++) sym_eq(s[i], k[((lo + i) % N + N) % N], 0, "position %d", i); }
  return 0;
}
