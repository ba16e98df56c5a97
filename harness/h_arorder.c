/* P14: order selection of ar_exec / model_estimate from arbitrary residual variances, the fit that follows, and AR forecasts. */
#include "sym.h"
#include "ctsa.h"
#include "initest.h"
#include "arma_ref.h"
#include <stdarg.h>
static double *Y, *Yc, V[64], PHI[4]; static int N, NF, meth, K, sel[6], nsel; static double Vhr[25], Emu, Evar, Ell; static int HP;
static double vof(int p) { return V[p]; }
static void fit(int m, double *x, int n, int p, double *phi, double *var) { sym_true(m == meth, "method"); sym_true(n == N, "length"); int okc = 1, okr = 1; NF++; for (int i = 0; i < n; i++) { if (m == 1) sym_eq(x[i], Yc[i], 1e-12, "Burg sees the demeaned series"); } for (int i = 0; i < p; i++) phi[i] = i < 4 ? PHI[i] / (1 << i) : 0; *var = vof(p); }
void stub_ywalg2(double *x, int n, int p, double *phi, double *var) { /* shift invariant */ for (int i = 0; i < n; i++) sym_eq(x[i] - x[0], Y[i] - Y[0], 1e-12, "Yule-Walker sees the series"); fit(0, x, n, p, phi, var); }
void stub_burgalg(double *x, int n, int p, double *phi, double *var) { fit(1, x, n, p, phi, var); }
static int Fopt, Fp; static double Fmu;
int stub_as154(double *x, int n, int opt, int p, int d, int q, double *phi, double *theta, double *wmean, double *var, double *res, double *ll, double *hess, int cssml) { sym_true(d == 0 && q == 0 && n == N, "pure autoregression"); for (int i = 0; i < n; i++) sym_eq(x[i] - x[0], Y[i] - Y[0], 1e-12, "likelihood sees the series"); sym_eq(x[0], NF < 0 ? x[0] : x[0], 0, "x"); Fopt = opt; Fp = p; NF++; for (int i = 0; i < p; i++) phi[i] = i < 4 ? PHI[i] / (1 << i) : 0; for (int i = 0; i < n; i++) res[i] = 0.5 * i; *wmean = Emu; *var = vof(p); *ll = Ell; for (int i = 0; i < (p + 1) * (p + 1); i++) hess[i] = 0; Fmu = x[0]; return 1; }
void stub_hrstep2(double *x, int n, int m, int p, int q, int pq, double *a, double *sos, double *var) { sym_true(n == N && pq == p + q && m == K, "hrstep2 arguments"); for (int i = 0; i < n; i++) sym_eq(x[i], Yc[i], 1e-12, "demeaned differenced series"); for (int t = 0; t < n; t++) { double e = t < m ? 0 : Yc[t]; for (int i = 0; i < m && t >= m; i++) e -= 0.25 * (i % 3 + 1) * (i & 1 ? -1 : 1) * Yc[t - 1 - i]; sym_eq(a[t], e, 1e-9, "innovations of the long autoregression"); } *var = Vhr[p * HP + q]; *sos = *var * 3; NF++; }
void stub_ywalg(double *x, int n, int p, double *phi) { sym_true(n == N && p == K, "long autoregression of order %d", p); for (int i = 0; i < n; i++) sym_eq(x[i] - x[0], Yc[i] - Yc[0], 1e-12, "long autoregression sees the series"); for (int i = 0; i < p; i++) phi[i] = 0.25 * (i % 3 + 1) * (i & 1 ? -1 : 1); }
int stub_printf(const char *f, ...) { va_list ap; va_start(ap, f); if (strstr(f, "Estimate") && strstr(f, "p = %d q = %d")) { int w = strstr(f, "AIC") ? 0 : strstr(f, "SC ") ? 1 : 2; sel[2 * w] = va_arg(ap, int); sel[2 * w + 1] = va_arg(ap, int); nsel++; } va_end(ap); return 0; }
static void data(int n) { N = n; Y = malloc(8 * n); Yc = malloc(8 * n); double m = 0; for (int i = 0; i < n; i++) { Y[i] = sym_n("y", i, -1, 1) + i % 3; m += Y[i]; } for (int i = 0; i < n; i++) Yc[i] = Y[i] - m / n; PHI[0] = 0.5; PHI[1] = -0.4; PHI[2] = 0.6; PHI[3] = 0.3; }
static void sel1(int n, int method, int ns, int from) {
  SYM_CASE("ar order N=%d method=%d symbolic orders %d..%d", n, method, from, from + ns - 1) {
    data(n); meth = method; NF = 0; int om = (int)(10 * log((double)n)); if (n - 1 < om) om = n - 1; if (method == 2 && om > 12) om = 12; for (int p = 1; p <= om; p++) { V[p] = p >= from && p < from + ns ? exp(sym_n("logvar", p, -1, 1)) : 1 + 0.1 * (p % 4); } Emu = sym("mu", -1, 1); Ell = sym("ll", -2, 2);
    ar_object o = ar_init(method, n); int opt = o->optmethod; ar_exec(o, Y); int p = o->p, used = NF; sym_true(p >= 1 && p <= om && o->order == p, "order %d", p); sym_true(NF == om + 1, "one fit per order and a final one, got %d", NF); if (method == 2) { sym_true(Fp == p && Fopt == opt, "final fit"); sym_eq(Fmu, Y[0], 0, "final fit sees the series itself"); }
    for (int k = 1; k <= om; k++) sym_le(log(V[p]) + 2.0 * p / n, log(V[k]) + 2.0 * k / n, 1e-9, "order %d beats %d", p, k);
    double mu = 0; for (int i = 0; i < n; i++) mu += Y[i] / n; if (method == 2) mu = Emu; sym_eq(o->mean, mu, 1e-12, "mean"); sym_eq(o->var, V[p], 0, "variance of the final fit"); for (int i = 0; i < p; i++) sym_eq(o->phi[i], i < 4 ? PHI[i] / (1 << i) : 0, 0, "coefficient %d", i); if (method == 2) { for (int i = 0; i < n; i++) sym_eq(o->res[i], 0.5 * i, 0, "residual"); sym_true(o->retval == 1, "status"); sym_eq(o->aic, n * (2 * Ell + 1 + log(2 * 3.14159)) + 2.0 * (p + 1) + 2, 1e-6, "aic"); } (void)used;
    ar_free(o); free(Y); free(Yc);
  }
}
static void pred(int n, int p, int method, int L) {
  SYM_CASE("ar forecast N=%d p=%d method=%d L=%d", n, p, method, L) {
    data(n); meth = method; ar_object o = ar_init(method, n); double ph[16], pc[16], *g = malloc(8 * (n + L + 1)), *Li = malloc(8 * n * n), *w = malloc(8 * n), yp[16], am[16], ry[16], rm[16], one = 1, s2 = 0, *Yk = malloc(8 * n); sym_rseed(p + n); for (int i = 0; i < p; i++) pc[i] = 0.8 * sym_runi(); ref_parcor(pc, p, ph); o->p = o->order = p; for (int i = 0; i < p; i++) o->phi[i] = ph[i]; o->mean = sym("mu", -1, 1); o->var = sym("var", 0.5, 2);
    for (int i = 0; i < n; i++) { w[i] = Y[i] - o->mean; Yk[i] = Y[i]; } ref_gamma(ph, p, NULL, 0, n + L, g); ref_whiten(g, n, Li); for (int i = 0; i < n; i++) { double z = sym_dot(Li + i * n, w, i + 1); s2 += z * z / n; } ref_forecast(w, n, &one, 0, w, n, g, L, ry, rm);
    ar_predict(o, Y, L, yp, am); for (int h = 0; h < L; h++) { sym_eq(yp[h], ry[h] + o->mean, 1e-7, "forecast %d", h + 1); sym_eq(am[h], rm[h] * s2, 1e-6, "forecast MSE %d", h + 1); } for (int i = 0; i < n; i++) sym_eq(Y[i], Yk[i], 0, "data untouched"); ar_free(o); free(Y); free(Yc); free(g); free(Li); free(w); free(Yk);
  }
}
static void mest(int n, int d, int pm, int h, int from, int ns) {
  SYM_CASE("model_estimate N=%d d=%d pmax=%d h=%d symbolic %d..%d", n, d, pm, h, from, from + ns - 1) {
    double *y = malloc(8 * n), dl[8]; HP = pm + 1; K = h; NF = 0; nsel = 0; N = n - d; Yc = malloc(8 * N); double mu = 0; for (int i = 0; i < n; i++) y[i] = sym_n("y", i, -1, 1) + i % 3; int k = ref_dpoly(d, 0, 1, dl); for (int i = 0; i < N; i++) { Yc[i] = 0; for (int j = 0; j <= k; j++) Yc[i] += dl[j] * y[i + k - j]; mu += Yc[i] / N; } for (int i = 0; i < N; i++) Yc[i] -= mu;
    for (int i = 0; i < HP * HP; i++) Vhr[i] = i >= from && i < from + ns ? exp(sym_n("logvar", i, -1, 1)) : 1 + 0.1 * (i % 4);
    model_estimate(y, n, d, pm, h); sym_true(nsel == 3, "three choices reported"); for (int c = 0; c < 3; c++) { int sp = sel[2 * c], sq = sel[2 * c + 1]; sym_true(sp >= 0 && sp <= pm && sq >= 0 && sq <= pm && sp + sq > 0, "orders"); double w = c == 0 ? 2.0 / N : c == 1 ? log((double)N) / N : 2 * log(log((double)N)) / N; for (int i = 1; i < HP * HP; i++) sym_le(log(Vhr[sp * HP + sq]) + w * (sp + sq), log(Vhr[i]) + w * (i / HP + i % HP), 1e-9, "criterion %d: (%d,%d) beats (%d,%d)", c, sp, sq, i / HP, i % HP); }
    free(y); free(Yc);
  }
}
int stub_nlalsm(double *v, int n, int p, int d, int q, double *phi, double *theta, int M, double *tc, double *var, double eps, double *vc, double *res) { NF++; sym_true(n == N && d == 0 && q == 0 && M == 1, "autoregression with mean"); for (int i = 0; i < n; i++) sym_eq(v[i], Y[i], 0, "series"); for (int i = 0; i < p; i++) phi[i] = i + 1 < p ? 9 : V[p]; *tc = 0; *var = 1; return 1; }
static void pm(int n, int M) { SYM_CASE("pacf by likelihood N=%d M=%d", n, M) { double pa[8]; data(n); NF = 0; for (int i = 1; i <= M; i++) V[i] = sym_n("phi", i, -1, 1); pacf_opt(Y, n, 2, pa, M); sym_true(NF == M, "one fit per lag"); for (int i = 0; i < M; i++) sym_eq(pa[i], V[i + 1], 0, "last coefficient of the order %d fit", i + 1); free(Y); free(Yc); } }
int main(int argc, char **argv) { int t = sym_tier();
  for (int m = 0; m < 3; m++) for (int n = 6; n <= 21; n += 5) for (int f = 1; f < n - 1 && f < 13; f += 3) sel1(n, m, 3 + t, f);
  for (int m = 0; m < 3; m++) for (int p = 1; p <= 5; p++) for (int n = 8; n <= 14; n += 6) pred(n, p, m, 1 + (p + m) % 4);
  for (int d = 0; d < 2; d++) for (int pm = 1; pm <= 3; pm++) for (int f = 1; f < (pm + 1) * (pm + 1); f += 3) mest(15 + d, d, pm, 3 + d, f, 3);
  for (int M = 1; M < 6; M++) pm(9, M);
  return 0; }
