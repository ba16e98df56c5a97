/* P03: the Fourier transforms equal the defining sums, forward and inverse, complex and real. */
#include "sym.h"
#include "real.h"
#define TOL 1e-8
static void dft(int N, int sgn, fft_data *x, fft_data *X) { /* reference: sum x_n e^{-+ 2 pi i n k / N} */
  double *flat = malloc(sizeof(double) * 2 * N), *c = malloc(sizeof(double) * 2 * N);
  for (int i = 0; i < N; i++) { flat[2*i] = x[i].re; flat[2*i+1] = x[i].im; }
  for (int k = 0; k < N; k++) {
    for (int n = 0; n < N; n++) { double t = 6.283185307179586476925286766559 * (double)(((long)n * k) % N) / N; c[2*n] = cos(t); c[2*n+1] = sgn * sin(t); }
    X[k].re = sym_dot(c, flat, 2 * N);
    for (int n = 0; n < N; n++) { double t = 6.283185307179586476925286766559 * (double)(((long)n * k) % N) / N; c[2*n] = -sgn * sin(t); c[2*n+1] = cos(t); }
    X[k].im = sym_dot(c, flat, 2 * N);
  }
  free(flat); free(c);
}
static void complex_case(int N, int sgn) {
  SYM_CASE("fft N=%d sgn=%d", N, sgn) {
    fft_data *x = malloc(sizeof(*x) * N), *y = malloc(sizeof(*y) * N), *r = malloc(sizeof(*r) * N);
    for (int i = 0; i < N; i++) { x[i].re = sym_n("re", i, -1, 1); x[i].im = sym_n("im", i, -1, 1); }
    fft_object o = fft_init(N, sgn);
    fft_exec(o, x, y); dft(N, sgn, x, r);
    for (int i = 0; i < N; i++) { sym_eq(y[i].re, r[i].re, TOL, "re[%d]", i); sym_eq(y[i].im, r[i].im, TOL, "im[%d]", i); }
    if (N <= 12 || N == 59) { /* an object can be used again, and its input is left alone */
      fft_data *y2 = malloc(sizeof(*y) * N); fft_exec(o, x, y2);
      for (int i = 0; i < N; i++) { sym_eq(y2[i].re, r[i].re, TOL, "again re[%d]", i); sym_eq(y2[i].im, r[i].im, TOL, "again im[%d]", i); }
    }
    free_fft(o);
  }
}
static void inverse_case(int N, int nsym) {
  SYM_CASE("inverse N=%d", N) {
    fft_data *x = malloc(sizeof(*x) * N), *y = malloc(sizeof(*y) * N), *z = malloc(sizeof(*z) * N);
    sym_rseed(N);
    for (int i = 0; i < N; i++) { x[i].re = sym_runi(); x[i].im = sym_runi(); }
    for (int k = 0; k < nsym; k++) { int i = (int)((long)k * N / nsym); x[i].re = sym_n("re", i, -1, 1); x[i].im = sym_n("im", i, -1, 1); }
    fft_object f = fft_init(N, 1), b = fft_init(N, -1);
    fft_exec(f, x, y); fft_exec(b, y, z);
    for (int i = 0; i < N; i++) { sym_eq(z[i].re / N, x[i].re, TOL, "re[%d]", i); sym_eq(z[i].im / N, x[i].im, TOL, "im[%d]", i); }
    free_fft(f); free_fft(b);
  }
}
static void real_case(int N) {
  SYM_CASE("real N=%d", N) {
    double *x = malloc(sizeof(double) * N), *z = malloc(sizeof(double) * N);
    fft_data *cx = malloc(sizeof(*cx) * N), *y = malloc(sizeof(*y) * N), *r = malloc(sizeof(*r) * N);
    sym_arr(x, N, "x", -1, 1); for (int i = 0; i < N; i++) { cx[i].re = x[i]; cx[i].im = 0; }
    fft_real_object f = fft_real_init(N, 1), b = fft_real_init(N, -1);
    fft_r2c_exec(f, x, y); dft(N, 1, cx, r);
    for (int i = 0; i < N; i++) { sym_eq(y[i].re, r[i].re, TOL, "re[%d]", i); sym_eq(y[i].im, r[i].im, TOL, "im[%d]", i); }
    fft_c2r_exec(b, y, z);
    for (int i = 0; i < N; i++) sym_eq(z[i] / N, x[i], TOL, "roundtrip[%d]", i);
    free_real_fft(f); free_real_fft(b);
  }
}
int main(int argc, char **argv) {
  static const int big[] = {66,68,69,70,72,74,75,77,78,80,81,82,84,86,88,90,91,92,94,96,98,99,100,101,103,104,106,108,110,112,118,119,120,121,122,125,126,127,128};
  static const int inv[] = {129,131,134,137,144,147,150,160,169,176,180,187,192,196,200,208,210,225,240,243,250,256,257,289,300,320,343,360,400,420,512,529,600,625,729,841,961,1000,1024};
  for (int i = 0; i < (int)(sizeof big / sizeof *big); i++) for (int s = 1; s >= -1; s -= 2) if (sym_tier() || (i % 3 == 0)) complex_case(big[i], s);
  for (int N = 64; N >= 1; N--) for (int s = 1; s >= -1; s -= 2) complex_case(N, s);
  for (int i = 0; i < (int)(sizeof inv / sizeof *inv); i++) if (inv[i] <= 300 || sym_tier()) inverse_case(inv[i], 8);
  for (int N = 2; N <= (sym_tier() ? 130 : 66); N += 2) real_case(N);
  return 0;
}
