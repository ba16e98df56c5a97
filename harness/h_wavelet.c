/* P05: discrete, stationary and maximal-overlap wavelet transforms: definition, perfect reconstruction, multiresolution. */
#include "sym.h"
#include "wavelib.h"
static const char *ALL[] = {"haar","db1","db2","db3","db4","db5","db6","db7","db8","db9","db10","db11","db12","db13","db14","db15","db16","db17","db18","db19","db20","db21","db22","db23","db24","db25","db26","db27","db28","db29","db30","db31","db32","db33","db34","db35","db36","db37","db38",
 "sym2","sym3","sym4","sym5","sym6","sym7","sym8","sym9","sym10","sym11","sym12","sym13","sym14","sym15","sym16","sym17","sym18","sym19","sym20",
 "coif1","coif2","coif3","coif4","coif5","coif6","coif7","coif8","coif9","coif10","coif11","coif12","coif13","coif14","coif15","coif16","coif17",
 "bior1.1","bior1.3","bior1.5","bior2.2","bior2.4","bior2.6","bior2.8","bior3.1","bior3.3","bior3.5","bior3.7","bior3.9","bior4.4","bior5.5","bior6.8",
 "rbior1.1","rbior1.3","rbior1.5","rbior2.2","rbior2.4","rbior2.6","rbior2.8","rbior3.1","rbior3.3","rbior3.5","rbior3.7","rbior3.9","rbior4.4","rbior5.5","rbior6.8"};
#define NALL ((int)(sizeof ALL / sizeof *ALL))
#define TOL 1e-7
static double sx(const double *x, int N, int i, int per) { if (per) { int Ne = N + N % 2; i = ((i % Ne) + Ne) % Ne; return x[i < N ? i : N - 1]; } i = ((i % (2 * N)) + 2 * N) % (2 * N); return x[i < N ? i : 2 * N - 1 - i]; }
static int step(wave_object w, const double *x, int N, int per, double *a, double *d) { int lf = w->lpd_len, n = per ? (N + 1) / 2 : (N + lf - 1) / 2; for (int i = 0; i < n; i++) { a[i] = d[i] = 0; for (int l = 0; l < lf; l++) { double v = sx(x, N, 2 * i + (per ? lf / 2 : 1) - l, per); a[i] += w->lpd[l] * v; d[i] += w->hpd[l] * v; } } return n; }
static void fill(double *x, int N, int nsym) { sym_rseed(N * 31 + nsym); for (int i = 0; i < N; i++) x[i] = sym_runi(); if (nsym >= N) sym_arr(x, N, "x", -1, 1); else for (int k = 0; k < nsym; k++) { int i = (int)((long)(2 * k + 1) * N / (2 * nsym)); x[i] = sym_n("x", i, -1, 1); } }
static int maxlev(int N) { return (int)log((double)N); }
static void dwtcase(const char *nm, int N, int J, int per, int fft, int nsym) {
  SYM_CASE("dwt %s %s %s N=%d J=%d", nm, per ? "per" : "sym", fft ? "fft" : "direct", N, J) {
    wave_object w = wave_init(nm); wt_object t = wt_init(w, "dwt", N, J); setDWTExtension(t, per ? "per" : "sym"); setWTConv(t, fft ? "fft" : "direct");
    double *x = malloc(8 * N), *k = malloc(8 * N), *y = malloc(8 * N), *z = malloc(8 * N); sym_rseed(5); for (int i = 0; i < N; i++) z[i] = sym_runi(); fill(x, N, nsym); memcpy(k, x, 8 * N);
    if (N % 2) dwt(t, z); dwt(t, x); for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved");
    int mx = N + J * (w->lpd_len + 2), n = N; double *c = malloc(8 * mx), *a = malloc(8 * mx), *d = malloc(8 * mx); memcpy(c, x, 8 * N); int tot = 0, len[32];
    for (int j = 1; j <= J; j++) { n = per ? (n + 1) / 2 : (n + w->lpd_len - 1) / 2; len[j] = n; tot += n; } tot += n; sym_true(t->outlength == tot, "outlength %d", t->outlength); sym_true(t->length[0] == n && t->length[J + 1] == N, "end lengths"); for (int j = 1; j <= J; j++) sym_true(t->length[J - j + 1] == len[j], "length level %d", j);
    n = N; int pos = tot; for (int j = 1; j <= J; j++) { n = step(w, c, n, per, a, d); pos -= n; for (int i = 0; i < n; i++) sym_eq(t->output[pos + i], d[i], TOL, "detail level %d [%d]", j, i); memcpy(c, a, 8 * n); } for (int i = 0; i < n; i++) sym_eq(t->output[i], c[i], TOL, "approximation [%d]", i);
    idwt(t, y); for (int i = 0; i < N; i++) sym_eq(y[i], x[i], TOL, "reconstruction %d", i);
    double *m = getDWTmra(t, t->output); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j <= J; j++) s += m[j * N + i]; sym_eq(s, x[i], TOL, "multiresolution sum %d", i); }
    if (!fft && nsym <= N) { /* each component is the inverse transform of its own coefficients */
      double *keep = malloc(8 * tot); memcpy(keep, t->output, 8 * tot); int p = 0; for (int j = 0; j <= J; j++) { int L = j == 0 ? len[J] : len[J - j + 1]; for (int i = 0; i < tot; i++) t->output[i] = i >= p && i < p + L ? keep[i] : 0; idwt(t, y); for (int i = 0; i < N; i++) sym_eq(m[j * N + i], y[i], TOL, "component %d [%d]", j, i); p += L; } }
    wt_free(t); wave_free(w);
  }
}
static void swtcase(const char *nm, int N, int J, int fft, int nsym) {
  SYM_CASE("swt %s %s N=%d J=%d", nm, fft ? "fft" : "direct", N, J) {
    wave_object w = wave_init(nm); wt_object t = wt_init(w, "swt", N, J); setWTConv(t, fft ? "fft" : "direct"); double *x = malloc(8 * N), *k = malloc(8 * N), *y = malloc(8 * N), *c = malloc(8 * N), *a = malloc(8 * N); int lf = w->lpd_len; fill(x, N, nsym); memcpy(k, x, 8 * N); memcpy(c, x, 8 * N);
    swt(t, x); sym_true(t->outlength == N * (J + 1), "outlength"); for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved");
    int M = 1; for (int j = 1; j <= J; j++, M *= 2) { for (int i = 0; i < N; i++) { double d = 0; a[i] = 0; for (int l = 0; l < lf; l++) { int q = ((i + M * lf / 2 - M * l) % N + N) % N; a[i] += w->lpd[l] * c[q]; d += w->hpd[l] * c[q]; } sym_eq(t->output[(J - j + 1) * N + i], d, TOL, "detail %d [%d]", j, i); } memcpy(c, a, 8 * N); } for (int i = 0; i < N; i++) sym_eq(t->output[i], c[i], TOL, "approximation [%d]", i);
    iswt(t, y); for (int i = 0; i < N; i++) sym_eq(y[i], x[i], TOL, "reconstruction %d", i);
    double *m = getSWTmra(t, t->output); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j <= J; j++) s += m[j * N + i]; sym_eq(s, x[i], TOL, "multiresolution sum %d", i); }
    double *keep = malloc(8 * N * (J + 1)); memcpy(keep, t->output, 8 * N * (J + 1)); for (int j = 0; j <= J; j++) { for (int i = 0; i < N * (J + 1); i++) t->output[i] = i / N == j ? keep[i] : 0; iswt(t, y); for (int i = 0; i < N; i++) sym_eq(m[j * N + i], y[i], TOL, "component %d [%d]", j, i); }
    wt_free(t); wave_free(w);
  }
}
static void modwtcase(const char *nm, int N, int J, int mode, int nsym) { /* mode 0 direct, 1 fft periodic, 2 fft symmetric */
  SYM_CASE("modwt %s %s N=%d J=%d", nm, mode == 0 ? "direct" : mode == 1 ? "fft" : "fft sym", N, J) {
    wave_object w = wave_init(nm); wt_object t = wt_init(w, "modwt", N, J); setWTConv(t, mode ? "fft" : "direct"); if (mode == 2) setDWTExtension(t, "sym"); int n = mode == 2 ? 2 * N : N, lf = w->lpd_len; double *x = malloc(8 * N), *k = malloc(8 * N), *y = malloc(8 * N), *c = malloc(8 * n), *a = malloc(8 * n); fill(x, N, nsym); memcpy(k, x, 8 * N); for (int i = 0; i < n; i++) c[i] = x[i < N ? i : 2 * N - 1 - i];
    modwt(t, x); sym_true(t->outlength == n * (J + 1), "outlength"); for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved"); double ex = 0, ew = 0;
    if (nsym < 6) { for (int i = 0; i < n; i++) ex += c[i] * c[i]; for (int i = 0; i < n * (J + 1); i++) ew += t->output[i] * t->output[i]; sym_eq(ew, ex, 1e-6, "energy preserved"); }
    int M = 1; double r = sqrt(2.0); for (int j = 1; j <= J; j++, M *= 2) { for (int i = 0; i < n; i++) { double d = 0; a[i] = 0; for (int l = 0; l < lf; l++) { int q = ((i - M * l) % n + n) % n; a[i] += w->lpd[l] / r * c[q]; d += w->hpd[l] / r * c[q]; } sym_eq(t->output[(J - j + 1) * n + i], d, TOL, "detail %d [%d]", j, i); } memcpy(c, a, 8 * n); } for (int i = 0; i < n; i++) sym_eq(t->output[i], c[i], TOL, "approximation [%d]", i);
    imodwt(t, y); for (int i = 0; i < N; i++) sym_eq(y[i], x[i], TOL, "reconstruction %d", i);
    double *m = getMODWTmra(t, t->output); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j <= J; j++) s += m[j * N + i]; sym_eq(s, x[i], TOL, "multiresolution sum %d", i); }
    double *keep = malloc(8 * n * (J + 1)); memcpy(keep, t->output, 8 * n * (J + 1)); for (int j = 0; j <= J; j++) { for (int i = 0; i < n * (J + 1); i++) t->output[i] = i / n == j ? keep[i] : 0; imodwt(t, y); for (int i = 0; i < N; i++) sym_eq(m[j * N + i], y[i], TOL, "component %d [%d]", j, i); }
    wt_free(t); wave_free(w);
  }
}
int main(int argc, char **argv) {
  int th = sym_tier();
  /* every wavelet: one level, both extensions, odd and even lengths */
  for (int i = 0; i < NALL; i++) { int lf = filtlength(ALL[i]); for (int per = 0; per < 2; per++) { int N = lf < 8 ? 9 : lf + 1; dwtcase(ALL[i], N, 1, per, i % 2, th ? 6 : 4); dwtcase(ALL[i], N + 1, 1, per, (i + 1) % 2, th ? 6 : 4); } if (ALL[i][0] != 'b' && ALL[i][0] != 'r') modwtcase(ALL[i], lf < 5 ? 5 : lf, 1, i % 2, 3); if (i % (th ? 1 : 5) == 0) swtcase(ALL[i], 2 * lf, 1, i % 2, 3); }
  static const char *S[] = {"haar", "db2", "db4", "sym4", "coif1", "bior2.2", "rbior1.3", "bior3.3", "db7"};
  for (int i = 0; i < (th ? 9 : 7); i++) { int lf = filtlength(S[i]);
    static const int Ns[] = {8, 11, 16, 21, 23, 30, 40, 57, 64};
    for (int n = 0; n < 9; n++) { int N = Ns[n]; for (int per = 0; per < 2; per++) for (int f = 0; f < 2; f++) for (int J = 1; J <= maxlev(N) && J <= 4; J++) { int c = N; int ok = N >= lf; for (int j = 1; j <= J && per; j++) { c = (c + 1) / 2; ok &= c >= lf / 2 && c >= 2; } if (ok && (th || (n + i + J) % 3 == 0 || N <= 11)) dwtcase(S[i], N, J, per, f, N <= 16 ? N : 5); } 
      for (int J = 1; J <= maxlev(N) && J <= 4; J++) { if (N % (1 << J) == 0 && N >= 16 && N >= lf) for (int f = 0; f < 2; f++) if (lf << (J - 1) <= N) swtcase(S[i], N, J, f, N <= 16 ? N : 4); if (S[i][0] != 'b' && S[i][0] != 'r') for (int m = 0; m < 3; m++) if (N >= lf && (th || (n + J) % 2 == 0)) modwtcase(S[i], N, J, m, N <= 11 ? N : 4); } } }
  if (th) { dwtcase("db4", 177, 3, 0, 0, 6); dwtcase("sym8", 200, 3, 1, 1, 6); modwtcase("db4", 177, 2, 0, 4); modwtcase("db4", 177, 4, 1, 4); swtcase("db4", 128, 4, 1, 4); }
  for (int i = 0; i < NALL; i++) if (ALL[i][0] != 'b' && ALL[i][0] != 'r') SYM_CASE("orthogonal filters %s", ALL[i]) { wave_object w = wave_init(ALL[i]); int L = w->lpd_len; double s = 0; for (int k = 0; k < L; k++) { s += w->lpd[k]; sym_eq(w->lpr[k], w->lpd[L - 1 - k], 0, "lpr reversed"); sym_eq(w->hpr[k], w->hpd[L - 1 - k], 0, "hpr reversed"); } sym_eq(s, sqrt(2.0), 1e-7, "gain"); s = 0; for (int k = 0; k < L; k++) s += w->hpd[k]; sym_eq(s, 0, 1e-7, "high pass kills constants");
    for (int m = 0; 2 * m < L; m++) { double a = 0, b = 0, c = 0; for (int k = 0; k + 2 * m < L; k++) { a += w->lpd[k] * w->lpd[k + 2 * m]; b += w->hpd[k] * w->hpd[k + 2 * m]; c += w->lpd[k] * w->hpd[k + 2 * m]; } sym_eq(a, m == 0, 1e-7, "lp orthonormal %d", m); sym_eq(b, m == 0, 1e-7, "hp orthonormal %d", m); sym_eq(c, 0, 1e-7, "cross %d", m); } }
  return 0;
}
