/* P10-P13, P15: ARIMA / SARIMA / SARIMAX fitting and forecasting.
 * The optimiser (fminunc) and the finite-difference Hessian are replaced: the replacement evaluates the real objective at
 * points of its own choosing, compares it with the reference likelihood, and returns an arbitrary "optimum" and status.
 * WHAT (bit mask, from checks.py): 1 exact-likelihood objective, 2 conditional objective, 4 fit results, 8 forecasts. */
#include "sym.h"
#include "ctsa.h"
#include "regression.h"
#include "optimc.h"
#include "newtonmin.h"
#include "arma_ref.h"
#ifndef WHAT
#define WHAT 15
#endif
enum { ARIMA, SARIMA, SARIMAX };
enum { ML, CSS };
typedef struct { mspec m; int kind, r, imean, N, method, opt, rc, tfinv, symp; } job;
static job J; static double *Y, *X; /* data, regressors (columns) */
static int nreg, npar, nw, ip, iq, ncond, stage, hstage; static double *Wd, *Xd, *H, *tf[2], lastv, hx[40];
static int want(int bit) { return (WHAT & bit) != 0; }
/* regression part removed from the differenced series */
static void center(const double *b, double *w) { for (int i = 0; i < nw; i++) { w[i] = Wd[i]; for (int j = 0; j < nreg; j++) w[i] -= Xd[j * nw + i] * b[npar - nreg + j]; } }
static void polys(const double *b, double *phi, double *th) { const mspec *m = &J.m; ref_expand(b, m->p, b + m->p + m->q, m->P, m->s, -1, phi); ref_expand(b + m->p, m->q, b + m->p + m->q + m->P, m->Q, m->s, 1, th); }
/* reference objective; e receives the residuals */
static double ref_obj(const double *b, int how, double *e, double *ssq) { /* returns log det / n (0 for CSS): objective = 0.5*(that + log(ssq / used)) */
  double phi[64], th[64], *w = malloc(8 * nw), v; polys(b, phi, th); center(b, w); *ssq = 0;
  if (how == CSS) { ref_css(w, nw, phi, ip, th, iq, e); for (int i = 0; i < nw; i++) *ssq += e[i] * e[i]; v = 0; }
  else { double *g = malloc(8 * (nw + 1)), *Li = malloc(8 * nw * nw), ld; ref_gamma(phi, ip, th, iq, nw, g); ld = ref_whiten(g, nw, Li); for (int i = 0; i < nw; i++) { e[i] = sym_dot(Li + i * nw, w, i + 1); *ssq += e[i] * e[i]; } v = ld / nw; free(g); free(Li); }
  free(w); return v;
}
static int how_of(int st) { if (J.method == 1) return CSS; return J.kind == ARIMA || J.kind == SARIMA || J.kind == SARIMAX ? (st == 0 && J.method == 0 ? CSS : ML) : ML; }
static void genb(double *b, int inv, int sd) {
  const mspec *m = &J.m; int o = 0, L[] = {m->p, m->q, m->P, m->Q}; sym_rseed(sd * 31 + m->p * 7 + m->q * 3 + m->P + 5 * m->Q);
  for (int z = 0; z < 4; o += L[z++]) { double pc[8]; for (int i = 0; i < L[z]; i++) pc[i] = 0.35 * sym_runi() + (sym_rnd(2) ? 0.4 : -0.4); ref_parcor(pc, L[z], b + o); if (z & 1) { for (int i = 0; i < L[z]; i++) b[o + i] = -b[o + i]; if (inv < 0 && L[z]) { double r = -1.8; for (int i = L[z] - 1; i >= 0; i--) b[o + i] = r * (i ? b[o + i - 1] : 1) + 0.1 * i; } } }
  for (int j = 0; j < nreg; j++) { char nm[8]; sprintf(nm, "c%d_%d_", sd, j); b[npar - nreg + j] = sym(nm, -1, 1); }
}
int stub_fminunc(custom_function *f, custom_gradient *g, int n, double *xi, double maxstep, int method, double *xf) {
  int how = how_of(stage); double *e = malloc(8 * nw + 8), ssq;
  sym_true(n == npar, "number of optimised parameters %d", n); if (want(4)) sym_true(method == J.opt, "optimisation method %d passed on", method);
  for (int t = 0; t < 2 + (J.symp && how == CSS); t++) { double b[40]; genb(b, t ? -1 : 1, 10 + t + 2 * stage); if (t == 2) { for (int i = 0; i < npar - nreg; i++) b[i] = sym_n("b", i, -0.9, 0.9); for (int i = 0; i < nreg; i++) b[npar - nreg + i] = 0.3 * i - 0.2; } double v = FUNCPT_EVAL(f, b, n); if (want(how == ML ? 1 : 2)) { double rv = ref_obj(b, how, e, &ssq); sym_eq(exp(2 * v - rv) * (how == CSS ? nw - ncond : nw), ssq, 1e-6, "%s objective at point %d", how == ML ? "exact likelihood" : "conditional", t); } }
  for (int i = 0; i < n; i++) xf[i] = tf[stage][i]; FUNCPT_EVAL(f, xf, n); stage++; free(e); return J.rc;
}
int stub_hessian_fd(custom_function *f, double *x, int n, double *dx, double eps, double *h) {
  double b[40]; for (int i = 0; i < n; i++) hx[i] = b[i] = x[i]; for (int i = 0; i < n; i++) { b[i] += 0.001; FUNCPT_EVAL(f, b, n); b[i] = x[i]; } FUNCPT_EVAL(f, x, n); for (int i = 0; i < n * n; i++) h[i] = H[i]; hstage++; return 0;
}
/* starting values only; checked on its own elsewhere */
void stub_regress(reg_object o, double *x, double *y, double *res, double *vc, double alpha) { for (int i = 0; i < o->p; i++) { (o->beta + i)->value = 0.1 * i; (o->beta + i)->stdErr = 1; } for (int i = 0; i < o->N; i++) res[i] = 0; }
static const char *OM[] = {" optimiser 0", " optimiser 1", " optimiser 2", " optimiser 3", " optimiser 4", " optimiser 5", " optimiser 6", " optimiser 7"};
static const char *KN[] = {"arima", "sarima", "sarimax"};
static void run(int kind, int p, int d, int q, int s, int P, int D, int Q, int r, int imean, int N, int method, int rc, int tfinv) {
  J = (job){{p, d, q, s, P, D, Q}, kind, r, imean, N, method, tfinv & 4 ? tfinv >> 4 : (p + 2 * q + d) % 8, rc, tfinv & 1, tfinv & 2};
  if (kind == SARIMAX && P + D + Q == 0) J.m.s = s = 0;
  SYM_CASE("%s(%d,%d,%d)(%d,%d,%d)%d r=%d mean=%d N=%d method=%d status=%d%s", KN[kind], p, d, q, P, D, Q, s, r, imean, N, method, rc, tfinv & 1 ? " noninvertible optimum" : tfinv & 2 ? " symbolic coefficients" : tfinv & 4 ? OM[tfinv >> 4] : "") {
    tfinv &= 1; double dl[40]; int k = ref_dpoly(d, D, s, dl), mean = k == 0 && (imean || kind != SARIMAX); nw = N - k; nreg = r + mean; npar = p + q + P + Q + nreg; ip = p + s * P; iq = q + s * Q; ncond = ip; stage = hstage = 0;
    Y = malloc(8 * N); X = malloc(8 * N * r + 8); Wd = calloc(nw, 8); Xd = calloc(nw * (nreg + 1), 8); H = malloc(8 * npar * npar + 8); double *Yk = malloc(8 * N), *Xk = malloc(8 * N * r + 8);
    for (int i = 0; i < N; i++) Y[i] = sym_n("y", i, -1, 1) + (i % 3 == 0 ? 2 : i % 3 == 1 ? -2 : 0) + (N - i) % 2; sym_rseed(N + p); for (int i = 0; i < N * r; i++) X[i] = 2 * sym_runi(); for (int i = 0; i < npar * npar; i++) H[i] = 0.3 * sym_runi() + (i % (npar + 1) == 0 ? 2 : 0);
    memcpy(Yk, Y, 8 * N); memcpy(Xk, X, 8 * N * r);
    for (int i = 0; i < nw; i++) { for (int j = 0; j <= k; j++) Wd[i] += dl[j] * Y[k + i - j]; if (mean) Xd[i] = 1; for (int c = 0; c < r; c++) { double a = 0; for (int j = 0; j <= k; j++) a += dl[j] * X[c * N + k + i - j]; Xd[(c + mean) * nw + i] = a; } }
    tf[0] = malloc(8 * npar + 8); tf[1] = malloc(8 * npar + 8); genb(tf[0], 1, 3); genb(tf[1], tfinv ? -1 : 1, 4);
    int two = kind == SARIMAX ? method == 0 : method == 0, fin = two, retval, optset = J.opt; double *vcov = malloc(8 * npar * npar + 8), mu, var, ll, aic, *phi, *th, *PH = NULL, *TH = NULL, *ex = NULL, *res; void *o;
    if (fin == 0 && tfinv) memcpy(tf[0], tf[1], 8 * npar);
    int L = 4; double *yp = malloc(8 * L), *am = malloc(8 * L), *NX = malloc(8 * L * r + 8); for (int i = 0; i < L * r; i++) NX[i] = sym_runi();
    int skip = 0;
    if (kind == ARIMA) { arima_object a = o = arima_init(p, d, q, N); arima_setMethod(a, method == 3 ? 0 : method); if (method == 3) arima_setCSSML(a, 0); arima_setOptMethod(a, optset); arima_exec(a, Y); retval = a->retval; mu = a->mean; var = a->var; ll = a->loglik; aic = a->aic; phi = a->phi; th = a->theta; res = a->res; arima_vcov(a, vcov); sym_true(a->ncoeff == npar && a->Nused == nw && a->lvcov == npar * npar, "sizes"); if (retval && want(8)) arima_predict(a, Y, L, yp, am); }
    else if (kind == SARIMA) { sarima_object a = o = sarima_init(p, d, q, s, P, D, Q, N); sarima_setMethod(a, method == 3 ? 0 : method); if (method == 3) sarima_setCSSML(a, 0); sarima_setOptMethod(a, optset); sarima_exec(a, Y); retval = a->retval; mu = a->mean; var = a->var; ll = a->loglik; aic = a->aic; phi = a->phi; th = a->theta; PH = a->PHI; TH = a->THETA; res = a->res; sarima_vcov(a, vcov); sym_true(a->ncoeff == npar && a->Nused == nw && a->lvcov == npar * npar, "sizes"); if (retval && want(8)) sarima_predict(a, Y, L, yp, am); }
    else { sarimax_object a = o = sarimax_init(p, d, q, P, D, Q, s, r, imean, N); sarimax_setMethod(a, method == 1 ? 2 : method == 3 ? 1 : 0); sarimax_setOptMethod(a, optset); sarimax_exec(a, Y, r ? X : NULL); retval = a->retval; mu = a->mean; var = a->var; ll = a->loglik; aic = a->aic; phi = a->phi; th = a->theta; PH = a->PHI; TH = a->THETA; ex = a->exog; res = a->res; sarimax_vcov(a, vcov); sym_true(a->ncoeff == npar && a->Nused == nw && a->lvcov == npar * npar, "sizes"); if (retval && want(8)) sarimax_predict(a, Y, X, L, NX, yp, am); }
    for (int i = 0; i < N; i++) sym_eq(Y[i], Yk[i], 0, "data untouched"); for (int i = 0; i < N * r; i++) sym_eq(X[i], Xk[i], 0, "regressors untouched");
    int early = p + q + P + Q == 0 && k == 0 && two && kind != SARIMAX; /* white noise: conditional and exact fits coincide */
    int wrc = rc == 0 ? 0 : rc == 15 ? 15 : rc == 4 ? 4 : 1; if (early) { fin = 0; wrc = 1; } int how = fin == 0 ? how_of(0) : ML; int stop = kind == SARIMAX && two && wrc != 1;
    if (want(4)) { sym_true(retval == wrc, "status %d", retval); sym_true(stage == (stop ? 1 : fin + 1), "number of optimiser runs %d", stage); }
    if (!stop) {
      /* reported coefficients: MA signs flipped (Box-Jenkins), non-invertible MA parts replaced by their invertible equivalents */
      double b[40], *e = malloc(8 * nw + 8), ssq, v; for (int i = 0; i < p; i++) b[i] = phi[i]; for (int i = 0; i < q; i++) b[p + i] = -th[i]; for (int i = 0; i < P; i++) b[p + q + i] = PH[i]; for (int i = 0; i < Q; i++) b[p + q + P + i] = -TH[i]; if (mean) b[npar - nreg] = mu; for (int j = 0; j < r; j++) b[npar - r + j] = ex[j];
      double *T = tf[fin];
      if (want(4)) { if (how == CSS || !tfinv) for (int i = 0; i < npar; i++) sym_eq(b[i], T[i], 1e-12, "coefficient %d", i);
        else { for (int i = 0; i < npar; i++) if (i < p || (i >= p + q && i < p + q + P) || i >= p + q + P + Q) sym_eq(b[i], T[i], 1e-12, "coefficient %d", i); /* same autocorrelations */ int off[] = {p, p + q + P}, len[] = {q, Q}; for (int z = 0; z < 2; z++) { double g1[9], g2[9]; ref_gamma(NULL, 0, b + off[z], len[z], len[z] + 1, g1); ref_gamma(NULL, 0, T + off[z], len[z], len[z] + 1, g2); for (int i = 1; i <= len[z]; i++) sym_eq(g1[i] * g2[0], g2[i] * g1[0], 1e-6, "invertible equivalent has the same autocorrelation %d", i); if (len[z]) sym_true(g1[0] < g2[0] - 1e-6 , "invertible representation chosen"); } }
        if (!mean) sym_eq(mu, 0, 0, "no mean"); }
      v = ref_obj(b, how, e, &ssq);
      if (want(how == ML ? 1 : 2)) { for (int i = 0; i < nw; i++) sym_eq(res[i], e[i], 1e-7, "residual %d", i); }
      if (want(4)) {
        sym_eq(var * (kind == SARIMAX && how == CSS ? nw - ncond : nw), ssq, 1e-6, "innovation variance"); sym_eq(exp(-2 * ll / nw - 1 - log(2 * 3.14159) - v) * (how == CSS ? nw - ncond : nw), ssq, 1e-6, "log likelihood");
        if (method != 1) sym_eq(aic, -2 * ll + 2 * (npar + 1), 1e-7, "AIC");
        if (hstage) { for (int i = 0; i < npar; i++) sym_eq(hx[i], b[i], 1e-12, "Hessian at the reported coefficients %d", i); for (int i = 0; i < npar; i++) for (int j = 0; j < npar; j++) { double a = 0; for (int z = 0; z < npar; z++) a += vcov[i * npar + z] * nw * 0.5 * (H[z * npar + j] + H[j * npar + z]); sym_eq(a, i == j, 1e-7, "covariance is the inverse information %d,%d", i, j); } }
      }
      if (want(8) && retval) {
        double fp[64], ft[64], *w = malloc(8 * nw), *g = malloc(8 * (nw + L + 1)), *Li = malloc(8 * nw * nw), *ry = malloc(8 * L), *rm = malloc(8 * L), *yc = malloc(8 * N), s2 = 0; polys(b, fp, ft); center(b, w); ref_gamma(fp, ip, ft, iq, nw + L, g); ref_whiten(g, nw, Li); for (int i = 0; i < nw; i++) { double z = sym_dot(Li + i * nw, w, i + 1); s2 += z * z / nw; }
        for (int i = 0; i < N; i++) { yc[i] = Y[i] - (mean ? mu : 0); for (int j = 0; j < r; j++) yc[i] -= X[j * N + i] * ex[j]; }
        ref_forecast(yc, N, dl, k, w, nw, g, L, ry, rm); for (int h = 0; h < L; h++) { double f = ry[h] + (mean ? mu : 0); for (int j = 0; j < r; j++) f += NX[j * L + h] * ex[j]; sym_eq(yp[h], f, 1e-6, "forecast %d", h + 1); sym_eq(am[h], rm[h] * s2, 1e-5, "forecast MSE %d", h + 1); }
        free(w); free(g); free(Li); free(ry); free(rm); free(yc);
      }
      free(e);
    }
    if (kind == ARIMA) arima_free(o); else if (kind == SARIMA) sarima_free(o); else sarimax_free(o);
  }
}
int main(int argc, char **argv) {
  int t = sym_tier();
  static const int M[] = {0, 1, 3}; /* CSS start + exact, conditional only, exact only */
  for (int mi = 0; mi < 2; mi++) for (int k = 0; k < 3; k++) { run(k, 1, 0, 1, 0, 0, 0, 0, 0, 0, 6 + t, M[mi], 1, 2); run(k, 2, 0, 0, 0, 0, 0, 0, 0, 1, 7 + t, M[mi], 1, 2); run(k, 0, 1, 2, 0, 0, 0, 0, 0, 1, 6 + t, M[mi], 1, 2); run(k, 1, 1, 1, 0, 0, 0, 0, 0, 1, 6 + t, M[mi], 1, 2); if (k) { run(k, 1, 0, 0, 2, 1, 0, 0, 0, 0, 8, M[mi], 1, 2); run(k, 0, 0, 1, 2, 0, 0, 1, 0, 0, 6 + t, M[mi], 1, 2); run(k, 1, 0, 0, 2, 0, 1, 1, 0, 1, 8, M[mi], 1, 2); } if (k == 2) run(k, 1, 0, 1, 0, 0, 0, 0, 1, 1, 6, M[mi], 1, 2); }
  for (int k = 0; want(4) && k < 3; k++) for (int z = 0; z < 8; z++) run(k, 1, 0, 0, 0, 0, 0, 0, 0, 1, 6, M[z % 2], 1, 4 + 16 * z);
  for (int mi = 0; mi < 3; mi++) {
    for (int p = 0; p <= (t ? 4 : 3); p++) for (int d = 0; d <= 2; d++) for (int q = 0; q <= (t ? 4 : 2); q++) run(ARIMA, p, d, q, 0, 0, 0, 0, 0, 1, 9 + d + (p > 2) * 2, M[mi], 1, 0);
    for (int c = 0; c < 16; c++) for (int dd = 0; dd < 4; dd++) run(SARIMA, c & 1 ? 1 : 0, dd & 1, c & 2 ? 1 : 0, c % 3 == 0 ? 3 : 2, c & 4 ? 1 : 0, dd >> 1, c & 8 ? 1 : 0, 0, 1, 12, M[mi], 1, 0);
    run(SARIMA, 2, 1, 1, 4, 1, 1, 1, 0, 1, 16, M[mi], 1, 0); run(SARIMA, 1, 0, 2, 2, 2, 1, 2, 0, 1, 14, M[mi], 1, 0);
    if (t) { run(SARIMA, 1, 1, 1, 12, 1, 1, 1, 0, 1, 30, M[mi], 1, 0); run(SARIMA, 0, 1, 1, 12, 0, 1, 1, 0, 1, 30, M[mi], 1, 0); run(SARIMA, 2, 2, 0, 4, 1, 2, 1, 0, 1, 20, M[mi], 1, 0); }
    run(SARIMAX, 2, 1, 1, 4, 1, 1, 1, 1, 1, 18, M[mi], 1, 0); run(SARIMAX, 1, 0, 2, 2, 2, 0, 2, 1, 1, 14, M[mi], 1, 0); run(SARIMAX, 2, 0, 1, 2, 1, 1, 1, 0, 1, 13, M[mi], 1, 0);
    for (int r = 0; r <= 2; r++) for (int im = 0; im < 2; im++) { run(SARIMAX, 1, 0, 1, 0, 0, 0, 0, r, im, 10, M[mi], 1, 0); run(SARIMAX, 0, 0, 0, 0, 0, 0, 0, r, im, 8, M[mi], 1, 0); run(SARIMAX, 2, 1, 0, 0, 0, 0, 0, r, im, 10, M[mi], 1, 0); run(SARIMAX, 1, 0, 0, 3, 0, 1, 1, r, im, 12, M[mi], 1, 0); run(SARIMAX, 1, 1, 1, 2, 1, 1, 0, r, im, 13, M[mi], 1, 0); run(SARIMAX, 1, 0, 0, 0, 0, 0, 0, r, im, 8, M[mi], 1, 0); run(SARIMAX, 0, 2, 2, 0, 0, 0, 0, r, im, 10, M[mi], 1, 0); run(SARIMAX, 0, 0, 0, 2, 1, 0, 1, r, im, 10, M[mi], 1, 0); }
    for (int k = 0; k < 3; k++) { for (int q = 1; q <= 2; q++) { run(k, 1, 0, q, 0, 0, 0, 0, 0, 1, 9, M[mi], 1, 1); run(k, 0, 1, q, 0, 0, 0, 0, 0, 1, 9, M[mi], 1, 1); } if (k) run(k, 1, 0, 1, 2, 0, 1, 1, 0, 1, 11, M[mi], 1, 1); static const int RC[] = {0, 2, 4, 6, 15}; for (int i = 0; i < 5; i++) { run(k, 1, 0, 1, 0, 0, 0, 0, 0, 1, 8, M[mi], RC[i], 0); run(k, 1, 1, 0, 0, 0, 0, 0, 0, 1, 8, M[mi], RC[i], 0); } }
  }
  return 0;
}
