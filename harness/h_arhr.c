/* P14: Hannan-Rissanen estimates: long autoregression of the demeaned series, regression of the series on its lags and the
 * lagged residuals.  ywalg returns arbitrary coefficients, ludecomp/linsolve (decided by P07) an arbitrary solution; the normal
 * equations they are given and everything computed from the solution are checked. */
#include "sym.h"
#include "ctsa.h"
#include "initest.h"
static double PH[16], SOL[8], Aseen[36], bseen[8]; static double *C; static int CN, CM, np, nlu, nsv; static double *Alu;
void stub_ywalg(double *x, int N, int p, double *phi) { np++; sym_true(N == CN, "length"); CM = p; for (int i = 0; i < N; i++) sym_eq(x[i], C[i], 1e-12, "long autoregression sees the demeaned series"); for (int i = 0; i < p; i++) phi[i] = PH[i]; }
void stub_ludecomp(double *A, int n, int *ip) { nlu++; Alu = A; for (int i = 0; i < n * n; i++) Aseen[i] = A[i]; for (int i = 0; i < n; i++) ip[i] = i; }
void stub_linsolve(double *A, int n, double *b, int *ip, double *x) { nsv++; sym_true(A == Alu, "solves the factored matrix"); for (int i = 0; i < n; i++) { bseen[i] = b[i]; x[i] = SOL[i]; } }
static void check(int N, int m, int p, int q, const double *in, const double *a, const double *sol, double var, const char *w) {
  int pq = p + q; double Z[64][8], s = 0, sos = 0; int T = N - m - q;
  for (int t = 0; t < T; t++) { for (int i = 0; i < p; i++) Z[t][i] = in[m + q + t - i - 1]; for (int i = 0; i < q; i++) Z[t][p + i] = -a[m + q + t - i - 1]; }
  for (int i = 0; i < pq; i++) { double b = 0; for (int t = 0; t < T; t++) b += Z[t][i] * in[m + q + t]; sym_eq(bseen[i], b, 1e-8, "%s right hand side %d", w, i); for (int j = 0; j < pq; j++) { double c = 0; for (int t = 0; t < T; t++) c += Z[t][i] * Z[t][j]; sym_eq(Aseen[i * pq + j], c, 1e-8, "%s normal matrix %d %d", w, i, j); } }
  for (int t = 0; t < T; t++) { s = in[m + q + t]; for (int i = 0; i < pq; i++) s -= sol[i] * Z[t][i]; sos += s * s; } sym_eq(var * T, sos, 1e-8, "%s residual variance", w);
}
static void resid(int N, int m, const double *in, double *a) { for (int t = 0; t < N; t++) { a[t] = 0; if (t < m) continue; a[t] = in[t]; for (int i = 0; i < m; i++) a[t] -= PH[i] * in[t - 1 - i]; } }
static void run(int N, int p, int q, int symy) {
  SYM_CASE("hr N=%d p=%d q=%d %s", N, p, q, symy ? "symbolic data" : "symbolic coefficients") {
    double *x = malloc(8 * N), *xk = malloc(8 * N), *a = malloc(8 * N), mu = 0, ph[8], th[8], v, p2[8], t2[8], v2; C = malloc(8 * N); CN = N; np = nlu = nsv = 0; sym_rseed(N + p + 3 * q);
    for (int i = 0; i < N; i++) x[i] = symy ? sym_n("x", i, -1, 1) : (sym_rnd(65) - 32) / 16.0 + (i % 5 == 2 ? sym_n("x", i, -1, 1) : 0); memcpy(xk, x, 8 * N); for (int i = 0; i < N; i++) mu += x[i]; for (int i = 0; i < N; i++) C[i] = x[i] - mu / N;
    for (int i = 0; i < 16; i++) PH[i] = (i * 5 % 7 - 3) / 8.0; for (int i = 0; i < p + q; i++) SOL[i] = symy ? (i * 3 % 5 - 2) / 4.0 : sym_n("sol", i, -1, 1);
    hralg(x, N, p, q, ph, th, &v); int m = CM; sym_true(m >= p && m >= q && m < N, "order of the long autoregression"); resid(N, m, C, a);
    for (int i = 0; i < p; i++) sym_eq(ph[i], SOL[i], 0, "AR coefficient %d", i); for (int i = 0; i < q; i++) sym_eq(th[i], SOL[p + i], 0, "MA coefficient %d", i); check(N, m, p, q, C, a, SOL, v, "hr");
    hr(x, N, p, q, p2, t2, &v2); for (int i = 0; i < p; i++) sym_eq(p2[i], SOL[i], 0, "hr AR"); for (int i = 0; i < q; i++) sym_eq(t2[i], SOL[p + i], 0, "hr MA"); sym_eq(v2, v, 1e-10, "hr variance");
    for (int i = 0; i < N; i++) sym_eq(x[i], xk[i], 0, "input untouched"); free(x); free(xk); free(a); free(C);
  }
}
static void step2(int N, int m, int p, int q) {
  SYM_CASE("hrstep2 N=%d m=%d p=%d q=%d", N, m, p, q) { double *x = malloc(8 * N), *a = malloc(8 * N), sos, v; for (int i = 0; i < N; i++) { x[i] = sym_n("x", i, -1, 1); a[i] = i < m ? 0 : i % 2 ? sym_n("a", i, -1, 1) : 0.5 - i % 3; } for (int i = 0; i < p + q; i++) SOL[i] = (i * 3 % 5 - 2) / 4.0; hrstep2(x, N, m, p, q, p + q, a, &sos, &v); check(N, m, p, q, x, a, SOL, v, "hrstep2"); sym_eq(sos, v * (N - m - q), 1e-9, "sum of squares"); free(x); free(a); }
}
int main(int argc, char **argv) {
  for (int p = 0; p <= 3; p++) for (int q = 0; q <= 3; q++) if (p + q) { run(12, p, q, 1); run(12, p, q, 0); if ((p + q) % 2) run(p + q + 21, p, q, 0); step2(11, 4, p, q); }
  return 0; }
