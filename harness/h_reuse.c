/* P26: results depend only on the arguments: objects can be executed repeatedly, with other data in between and next to
 * other objects, and give what a fresh object gives; input arrays are never modified; init, execution and free in any
 * combination are memory safe.  The optimiser and other data-dependent iterations are replaced by deterministic functions
 * of their arguments (start point, objective value there), so that any dependence on earlier calls becomes visible. */
#include "sym.h"
#include "ctsa.h"
#include "regression.h"
#include "optimc.h"
#include "newtonmin.h"
#include "wavelib.h"
#include "spectrum.h"
#include "seastest.h"
#include "talg.h"
#include "filter.h"
#include "boxcox.h"
#include "errors.h"
#include "unitroot.h"
#include "real.h"
#ifndef PART
#define PART 3
#endif
#define MAXL 6000
static double *lg; static int nl; static void put(double v) { if (nl < MAXL) lg[nl++] = v; } static void putv(const double *v, int n) { for (int i = 0; i < n; i++) put(v[i]); }
static void keep(const double *v, const double *k, int n, const char *w) { for (int i = 0; i < n; i++) sym_eq(v[i], k[i], 0, "%s %d not modified", w, i); }
int stub_fminunc(custom_function *f, custom_gradient *g, int n, double *xi, double maxstep, int method, double *xf) { for (int i = 0; i < n; i++) xf[i] = 0.5 * xi[i] + 0.0625 * (1 + i); put(FUNCPT_EVAL(f, xi, n)); put(method); FUNCPT_EVAL(f, xf, n); return 1; }
int stub_hessian_fd(custom_function *f, double *x, int n, double *dx, double eps, double *h) { for (int i = 0; i < n * n; i++) h[i] = i % (n + 1) == 0 ? 2 + i : 0.125; put(FUNCPT_EVAL(f, x, n)); return 0; }
void stub_regress(reg_object o, double *x, double *y, double *res, double *vc, double alpha) { int N = o->N; double s = 0; for (int i = 0; i < N; i++) s += y[i] * (i % 3 + 1) / 16; for (int i = 0; i < o->p; i++) { (o->beta + i)->value = s / (8 * (i + 1)) + 0.03125; (o->beta + i)->stdErr = 1; } for (int i = 0; i < N; i++) res[i] = y[i] - s * (i % 2 ? 0.25 : 0.125); for (int i = 0; i < o->p * o->p; i++) vc[i] = 0.5; }
void stub_ywalg2(double *x, int n, int p, double *phi, double *var) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * (i % 3 + 1) / 16; for (int i = 0; i < p; i++) phi[i] = 0.5 / (i + 1); *var = s; put(p); }
void stub_burgalg(double *x, int n, int p, double *phi, double *var) { stub_ywalg2(x, n, p, phi, var); *var *= 2; }
double stub_fcdf(double x, int a, int b) { return 0.25; } double stub_tcdf(double x, int d) { return 0.75; }
double stub_costfunc(double *x, int n, char *e, double p) { return (n % 7 + 1) * 0.5; }
int stub_polyroot(double *c, int n, double *zr, double *zi) { for (int i = 0; i < n; i++) { zr[i] = 1.5; zi[i] = 0.5; } return 0; }
int stub_ndiffs(double *x, int N, double *a, const char *t, const char *ty, int *m) { return 1; }
int stub_nsdiffs(double *x, int N, int f, double *a, const char *t, int *m) { return 0; }
int stub_rank(double *A, int M, int N) { return M; }
double stub_fminbnd(custom_funcuni *f, double a, double b) { return (a + b) / 4 + 0.375; }
enum { FFT, R2C, C2R, CONV, ACF, DWT, SWT, MODWT, WTREE, DWPT, SPEC, REG, ARIMA, SARIMA, SARIMAX, AR, AUTO, FUN };
static const char *NM[] = {"fft", "r2c", "c2r", "conv", "autocovariance", "dwt", "swt", "modwt", "wtree", "dwpt", "spectrum", "regression", "arima", "sarima", "sarimax", "ar", "auto arima", "functions"};
static int K, N, A1, A2; static const char *wn = "db2"; static wave_object W;
static void *mk(void) {
  switch (K) {
  case FFT: return fft_init(N, A1 ? -1 : 1); case R2C: return fft_real_init(N, 1); case C2R: return fft_real_init(N, -1); case CONV: return conv_init(N, A1); case ACF: return auto_fft_init(N);
  case DWT: { wt_object t = wt_init(W, "dwt", N, A1); setDWTExtension(t, A2 & 1 ? "sym" : "per"); setWTConv(t, A2 & 2 ? "fft" : "direct"); return t; }
  case SWT: { wt_object t = wt_init(W, "swt", N, A1); setWTConv(t, A2 & 2 ? "fft" : "direct"); return t; } case MODWT: { wt_object t = wt_init(W, "modwt", N, A1); if (A2 & 2) setWTConv(t, "fft"); return t; }
  case WTREE: { wtree_object t = wtree_init(W, N, A1); setWTREEExtension(t, A2 & 1 ? "sym" : "per"); return t; } case DWPT: { wpt_object t = wpt_init(W, N, A1); setDWPTExtension(t, A2 & 1 ? "sym" : "per"); return t; }
  case SPEC: return spectrum_fft_init(N, A1); case REG: { reg_object o = reg_init(N, 2 + (A1 > 0)); return o; }
  case ARIMA: { arima_object o = arima_init(A1 & 3, A1 >> 2 & 1, A1 >> 3 & 3, N); arima_setMethod(o, A2); return o; } case SARIMA: { sarima_object o = sarima_init(A1 & 1, A1 >> 1 & 1, A1 >> 2 & 1, 3, A1 >> 3 & 1, A1 >> 4 & 1, A1 >> 5 & 1, N); sarima_setMethod(o, A2); return o; }
  case SARIMAX: { sarimax_object o = sarimax_init(A1 & 1, A1 >> 1 & 1, A1 >> 2 & 1, A1 >> 3 & 1, A1 >> 4 & 1, A1 >> 5 & 1, 3, A1 >> 6 & 1, 1, N); sarimax_setMethod(o, A2); return o; }
  case AR: return ar_init(A2, N);
  case AUTO: { int m[] = {1, 1, 1}, ms[] = {1, 1, 1}; auto_arima_object o = auto_arima_init(m, A1 & 1 ? ms : NULL, A1 & 1 ? 4 : 0, A1 >> 1 & 1, N); auto_arima_setApproximation(o, A2 & 1); auto_arima_setStepwise(o, A2 >> 1 & 1); if (A2 & 4) auto_arima_setStationary(o, 1); return o; } }
  return NULL;
}
static void del(void *o) { switch (K) { case FFT: free_fft(o); break; case R2C: case C2R: free_real_fft(o); break; case CONV: free_conv(o); break; case ACF: free_auto(o); break; case DWT: case SWT: case MODWT: wt_free(o); break; case WTREE: wtree_free(o); break; case DWPT: wpt_free(o); break; case SPEC: free_spectrum(o); break; case REG: free_reg(o); break; case ARIMA: arima_free(o); break; case SARIMA: sarima_free(o); break; case SARIMAX: sarimax_free(o); break; case AR: ar_free(o); break; case AUTO: auto_arima_free(o); break; } }
static void functions(double *x);
static void run(void *o, double *x, double *z) { /* x: series of length 2N, z: concrete second input */
  static double in[4000], xk[4000], zk[6000], r[4000], v[400]; int n; memcpy(xk, x, 16 * N); memcpy(zk, z, 24 * N); nl = 0; memset(r, 0, sizeof r);
  switch (K) {
  case FFT: fft_exec(o, (fft_data *)x, (fft_data *)r); putv(r, 2 * N); break; case R2C: fft_r2c_exec(o, x, (fft_data *)r); putv(r, 2 * N); break;
  case C2R: in[0] = x[0]; in[1] = 0; for (int i = 1; i < N; i++) { int j = i <= N / 2 ? i : N - i; in[2 * i] = x[2 * j]; in[2 * i + 1] = 2 * j == N ? 0 : j == i ? x[2 * j + 1] : -x[2 * j + 1]; } memcpy(v, in, 16 * N); fft_c2r_exec(o, (fft_data *)in, r); keep(in, v, 2 * N, "spectrum"); putv(r, N); break;
  case CONV: conv_fft(o, x, z, r); putv(r, N + A1 - 1); break; case ACF: autocovar_fft(o, x, r, N); putv(r, N); autocorr_fft(o, x, r, N / 2); putv(r, N / 2); break;
  case DWT: { wt_object t = o; dwt(t, x); putv(t->output, t->outlength); idwt(t, r); putv(r, N); idwt(t, r); putv(r, N); putv(t->output, t->outlength); break; }
  case SWT: { wt_object t = o; swt(t, x); putv(t->output, t->outlength); iswt(t, r); putv(r, N); iswt(t, r); putv(r, N); putv(t->output, t->outlength); break; }
  case MODWT: { wt_object t = o; modwt(t, x); putv(t->output, t->outlength); imodwt(t, r); putv(r, N); double *m = getMODWTmra(t, t->output); putv(m, N * (A1 + 1)); free(m); imodwt(t, r); putv(r, N); putv(t->output, t->outlength); break; }
  case WTREE: { wtree_object t = o; wtree(t, x); putv(t->output, t->outlength); n = getWTREENodelength(t, 1); getWTREECoeffs(t, 1, 1, r, n); putv(r, n); break; }
  case DWPT: { wpt_object t = o; dwpt(t, x); putv(t->output, t->outlength); for (int i = 0; i < t->nodes; i++) { put(t->nodeindex[2 * i]); put(t->nodeindex[2 * i + 1]); } for (int i = 0; i <= A1; i++) put(t->numnodeslevel[i]); idwpt(t, r); putv(r, N); idwpt(t, r); putv(r, N); putv(t->output, t->outlength); break; }
  case SPEC: { for (int s = 1; s <= 2; s++) { n = s == 2 ? N : N / 2 + 1; periodogram(o, x, r, v, s); putv(r, n); putv(v, n); n = s == 2 ? A1 : A1 / 2 + 1; psd(o, x, r, v, s); putv(r, n); putv(v, n); } break; }
#if PART & 2
  case REG: { reg_object g = o; int p = g->p; double vc[9], res[200]; setIntercept(g, A2 ? 0 : 1); regress(g, z, x, res, vc, 0.9); putv(res, N); for (int i = 0; i < p - (A2 != 0); i++) { put((g->beta + i)->value); put((g->beta + i)->lower); put((g->beta + i)->upper); put((g->beta + i)->stdErr); } put(g->sigma); put(g->RSS); put(g->TSS); put(g->R2[0]); put(g->R2[1]); break; }
#endif
#if PART & 2
  case ARIMA: { arima_object a = o; n = a->ncoeff; arima_exec(a, x); put(a->retval); put(a->loglik); if (A2 == 0) put(a->aic); put(a->mean); put(a->var); putv(a->phi, a->p); putv(a->theta, a->q); putv(a->res, a->Nused); for (int z_ = 0; z_ < 2; z_++) { arima_predict(a, x, 3, r, v); putv(r, 3); putv(v, 3); arima_predict(a, x, 1, r, v); putv(r, 1); putv(v, 1); } arima_vcov(a, r); putv(r, n * n); break; }
  case SARIMA: { sarima_object a = o; n = a->ncoeff; sarima_exec(a, x); put(a->retval); put(a->loglik); if (A2 == 0) put(a->aic); put(a->mean); put(a->var); putv(a->params, n); putv(a->res, a->Nused); for (int z_ = 0; z_ < 2; z_++) { sarima_predict(a, x, 4, r, v); putv(r, 4); putv(v, 4); } sarima_vcov(a, r); putv(r, n * n); break; }
  case SARIMAX: { sarimax_object a = o; n = a->ncoeff; double nx[4] = {0.5, 0.25, -0.5, 1}; sarimax_exec(a, x, a->r ? z : NULL); put(a->retval); put(a->loglik); if (A2 != 2) put(a->aic); put(a->mean); put(a->var); putv(a->params, n - (a->M > a->r)); putv(a->res, a->Nused); for (int z_ = 0; z_ < 2; z_++) { sarimax_predict(a, x, z, 4, nx, r, v); putv(r, 4); putv(v, 4); } sarimax_vcov(a, r); putv(r, n * n); break; }
#endif
  case AR: { ar_object a = o; ar_exec(a, x); put(a->order); put(a->mean); put(a->var); putv(a->phi, a->order); for (int z_ = 0; z_ < 2; z_++) { ar_predict(a, x, 3, r, v); putv(r, 3); putv(v, 3); } break; }
  case AUTO: { auto_arima_object a = o; double nx[4] = {0.5, 0.25, -0.5, 1}; auto_arima_exec(a, x, a->r ? z : NULL); put(a->p); put(a->d); put(a->q); put(a->P); put(a->D); put(a->Q); put(a->M); put(a->idrift); put(a->retval); put(a->aic); put(a->bic); put(a->aicc); put(a->var); put(a->mean); put(a->sigma2); putv(a->params, a->ncoeff + a->Nused); for (int z_ = 0; z_ < 2; z_++) { auto_arima_predict(a, x, z, 4, nx, r, v); putv(r, 4); putv(v, 4); } break; }
  case FUN: functions(x); break; }
  keep(x, xk, 2 * N, "input"); keep(z, zk, 3 * N, "second input");
}
/* stands for the fit inside auto_arima: criterion and estimates are functions of the orders and the data */
void stub_sarimax_exec(sarimax_object o, double *y, double *x) { double s = 0; for (int i = 0; i < o->N; i++) s += y[i] / 16; int p = o->p, q = o->q; for (int i = 0; i < o->ncoeff; i++) o->params[i] = 0.25 / (i + 1); for (int i = 0; i < o->Nused; i++) o->res[i] = y[i] * 0.5; for (int i = 0; i < o->lvcov; i++) o->vcov[i] = i; o->loglik = s; o->var = 2; o->mean = 0; o->aic = 20 + p + 2 * q + 3 * o->P + 5 * o->Q - (A2 & 8 ? 0 : 9 * (o->M > (A1 >> 1 & 1))); o->retval = 1; (void)x; }
#define KEEP2(c) do { double k_[128]; memcpy(k_, x, 8 * N); c; keep(x, k_, N, #c); } while (0)
static void functions(double *x) {
  static double a[4000], b[4000], c[4000]; double st[2], cr[8]; int w = A2; (void)cr; memset(a, 0, 8 * 200); memset(b, 0, 8 * 200); memset(c, 0, 8 * 200);
  switch (A1) {
  case 0: KEEP2(diff(x, N, 2, a)); putv(a, N - 2); KEEP2(diffs(x, N, 1, 3, a)); putv(a, N - 3); KEEP2(autocovar(x, N, a, 4)); putv(a, 4); KEEP2(autocorr(x, N, a, 4)); putv(a, 4); KEEP2(acvf(x, N, a, 4)); putv(a, 4); KEEP2(acvf_opt(x, N, 1, a, 4)); putv(a, 4); break;
  case 1: KEEP2(mafilter(x, N, 3, a)); putv(a, N); KEEP2(mafilter2(x, N, 4, a)); putv(a, N - 2); KEEP2(expfilter(x, N, 0.5, a)); putv(a, N); KEEP2(detrend_ma(x, N, 3, a)); putv(a, N); KEEP2(deseason_ma(x, N, 4, a)); putv(a, N); KEEP2(cumsum(x, N, a)); putv(a, N); break;
  case 2: KEEP2(pacf_opt(x, N, w, a, 3)); putv(a, 3); break;
  case 3: KEEP2(yw(x, N, 2, a, st)); putv(a, 2); put(st[0]); KEEP2(burg(x, N, 2, a, st)); putv(a, 2); put(st[0]); break;
  case 4: { int sw = 7, ro = w & 1, in = 1, ou = w & 1; KEEP2(stl(x, N, 4, w & 2 ? "period" : "null", &sw, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, &ro, &in, &ou, a, b, c)); putv(a, N); putv(b, N); putv(c, N); break; }
  case 5: { int f[] = {3}, ns = 1, it = 1; double *se[1] = {a}; double lam = 0.5; (void)lam; KEEP2(mstl(x, N, f, &ns, NULL, NULL, &it, se, b, c)); putv(a, N); putv(b, N); putv(c, N); break; }
  case 6: for (int i = 0; i < N; i++) b[i] = x[i] + 4; { double l = 0.5, k[128]; memcpy(k, b, 8 * N); boxcox_eval(b, N, l, a); putv(a, N); inv_boxcox_eval(a, N, l, c); putv(c, N); put(boxcox(b, N, NULL, a)); putv(a, N); keep(b, k, N, "boxcox input"); } break;
  case 7: for (int i = 0; i < N; i++) b[i] = i % 5 + 1; { double k[128]; memcpy(k, b, 8 * N); KEEP2(put(me(x, b, N)); put(mse(x, b, N)); put(mae(x, b, N)); put(mape(x, b, N)); put(mpe(x, b, N)); put(rmse(x, b, N)); put(mase(x, b, N, b, N))); keep(b, k, N, "actual"); } break;
  case 8: KEEP2(ar(x, N, 2, w, a, st)); putv(a, 2); put(st[0]); break;
  case 9: { double res[9]; int lag = 2; (void)lag; KEEP2(ur_kpss(x, N, w & 1 ? "trend" : "level", w >> 1, w & 1 ? &lag : NULL, res, res + 1)); put(res[0]); lag = w; KEEP2(ur_df(x, N, w & 1 ? "stationary" : "explosive", &lag, res, res + 1)); put(res[0]); break; }
  }
}
static void scenario(int kind, int n, int a1, int a2, int nsym, int div) {
  K = kind; N = n; A1 = a1; A2 = a2;
  SYM_CASE("%s N=%d %d %d %s", NM[kind], n, a1, a2, wn) {
    static double L[4][MAXL]; int len[4] = {0}; double *x = malloc(16 * N), *y = malloc(16 * N), *z = malloc(24 * N); sym_rseed(n + 31 * kind + a1); for (int i = 2 * N; i < 3 * N; i++) z[i] = (double)(i % 7 * i % 5) / 8; for (int i = 0; i < 2 * N; i++) { x[i] = (double)(sym_rnd(257) - 128) / 64 + (i % div) * 0.5; y[i] = (double)(sym_rnd(257) - 128) / 32; z[i] = (double)(sym_rnd(257) - 128) / 128; }
    for (int i = 0; i < nsym; i++) { int k = (int)((long)(2 * i + 1) * N / (2 * nsym)); x[k] = sym_n("x", k, -1, 1) + (i % 3) * 4; }
    W = kind >= DWT && kind <= DWPT ? wave_init(wn) : NULL; void *u = mk(), *a = mk(), *b; if (u) del(u); /* never executed */
    lg = L[0]; run(a, x, z); len[0] = nl; lg = L[1]; b = mk(); run(b, y, z); len[1] = nl; lg = L[2]; run(a, y, z); len[2] = nl; sym_true(len[1] == len[2], "as many results"); for (int i = 0; i < len[1] && i < len[2]; i++) sym_eq(L[1][i], L[2][i], 1e-9, "other data on a used object: result %d", i);
    lg = L[3]; run(a, x, z); len[3] = nl; sym_true(len[0] == len[3], "as many results"); for (int i = 0; i < len[0] && i < len[3]; i++) sym_eq(L[0][i], L[3][i], 1e-9, "repeated execution: result %d", i);
    if (b) del(b); lg = L[2]; b = mk(); run(b, x, z); len[2] = nl; sym_true(len[0] == len[2], "as many results"); for (int i = 0; i < len[0] && i < len[2]; i++) sym_eq(L[0][i], L[2][i], 1e-9, "fresh object: result %d", i); if (a) del(a); if (b) del(b); if (W) wave_free(W); free(x); free(y); free(z);
  }
}
int main(int argc, char **argv) {
  int t = sym_tier();
  if (PART & 1) {
  for (int n = 1; n <= (t ? 70 : 34); n++) for (int s = 0; s < 2; s++) { scenario(FFT, n, s, 0, n, 3); if (n % 2 == 0) scenario(s ? R2C : C2R, n, 0, 0, n, 3); } scenario(FFT, 59, 0, 0, 4, 3); scenario(FFT, 121, 1, 0, 4, 3); scenario(FFT, 146, 0, 0, 4, 3);
  for (int n = 2; n <= 12; n += 5) for (int l = 1; l <= n; l += 3) scenario(CONV, n, l, 0, n, 3); for (int n = 3; n <= 12; n += 3) scenario(ACF, n, 0, 0, n < 8 ? n : 6, 3);
  static const char *S[] = {"haar", "db2", "sym4", "bior2.2"}; for (int i = 0; i < 4; i++) { wn = S[i]; for (int n = 16; n <= 33; n += i ? 17 : 8) for (int J = 1; J <= 2; J++) for (int e = 0; e < 4; e++) { scenario(DWT, n, J, e, 4, 3); if (e < 2) { scenario(WTREE, n, J, e, 4, 3); scenario(DWPT, n, J, e, 4, 3); } if (e % 2 == 0 && n % 4 == 0) scenario(SWT, n, J, e, 4, 3); if (e % 2 == 0 && (i < 2)) scenario(MODWT, n, J, e, 4, 3); } } wn = "";
  for (int n = 4; n <= 9; n++) for (int e = 0; e < 3; e++) scenario(SPEC, n, n + e * e, 0, 4, 3);
  for (int f = 0; f < 9; f++) for (int w = 0; w < 4; w++) { if (f == 4 && w & 1) continue; if (f != 2 && f != 4 && f != 8 && f != 9 && w) continue; if (f == 2 && w > 1) continue; if (f == 8 && w > 1) continue; scenario(FUN, f == 4 ? 12 + w : f == 5 ? 14 : 20 + f, f, w, f == 5 ? 3 : 5, 4); }
  }
  if (PART & 2) {
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) scenario(REG, 8 + a, a, b, 3, 3);
  for (int a = 0; a < 32; a++) for (int m = 0; m < 2; m++) if ((a & 3) < 3 && (a >> 3) < 3 && (t || (a + m) % 2 == 0)) scenario(ARIMA, 9 + (a & 4), a, m, 3, 4);
  for (int a = 0; a < 64; a++) for (int m = 0; m < 2; m++) if (t || (a + m) % 5 == 0) scenario(SARIMA, 15, a, m, 3, 4);
  for (int a = 0; a < 128; a++) for (int m = 0; m < 3; m++) if (t || (a + m) % 8 == 0) scenario(SARIMAX, 15, a, m, 3, 4);
  }
  if (PART & 4) for (int m = 0; m < 2; m++) for (int n = 8; n <= 10; n += 2) scenario(AR, n, 0, m, 2, 4);
  if (PART & 8) for (int a = 0; a < 4; a++) for (int m = 0; m < 16; m++) scenario(AUTO, a & 1 ? 30 : 16, a, m, 3, 4);
  if (PART & 8) for (int w = 0; w < 4; w++) scenario(FUN, 20, 9, w, 3, 4);
  return 0;
}
