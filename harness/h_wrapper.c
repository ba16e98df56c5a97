/* P13: drift, regressors, information criteria and near-unit-root rejection of the models behind auto_arima, and its forecasts.
 * sarimax_exec (decided by P10-P12, P15) is replaced by one that records what it is given and returns arbitrary estimates;
 * polyroot returns arbitrary root moduli; ndiffs/nsdiffs return chosen orders. */
#include "sym.h"
#include "ctsa.h"
#include "talg.h"
#include "autoutils.h"
#include "arma_ref.h"
#include <float.h>
static struct { int N, r, p, d, q, P, D, Q, s, c, drift, meth, rc, all; } G; static double *Y, *X; static int nexec, npoly, arseen, maseen, badroot, polyrc, symroot; static double *cur[2]; static int ncur[2], tbest;
static double tolY, laic, Eaic, Evar, Ell, Emu, Ebeta[4], Eres[100];
static void est(int nres) { Eaic = sym("aic", 10, 60); Evar = sym("var", 0.5, 2); Ell = sym("ll", -50, -5); Emu = sym("mu", -1, 1); for (int i = 0; i < 4; i++) Ebeta[i] = sym_n("beta", i, -1, 1); for (int i = 0; i < 100; i++) Eres[i] = i < nres ? sym_n("res", i, -1, 1) : (i % 5 - 2) * 0.25; }
static double coef(int kind, int i) { static const double C[4][3] = {{0.5, -0.25, 0.125}, {0.375, 0.25, -0.125}, {0.625, -0.125, 0}, {-0.5, 0.25, 0}}; return C[kind][i]; }
static void fill(sarimax_object o) { /* arbitrary estimates */
  int p = o->p, q = o->q, P = o->P, Q = o->Q; for (int i = 0; i < p; i++) o->params[i] = coef(0, i); for (int i = 0; i < q; i++) o->params[p + i] = coef(1, i); for (int i = 0; i < P; i++) o->params[p + q + i] = coef(2, i); for (int i = 0; i < Q; i++) o->params[p + q + P + i] = coef(3, i);
  for (int i = 0; i < o->r; i++) o->exog[i] = Ebeta[i];
  for (int i = 0; i < o->Nused; i++) o->res[i] = Eres[i]; for (int i = 0; i < o->lvcov; i++) o->vcov[i] = i + 1; o->mean = o->imean && o->d + o->D == 0 ? Emu : 0; o->var = Evar; o->loglik = Ell; o->aic = Eaic; o->retval = G.rc;
}
void stub_sarimax_exec(sarimax_object o, double *y, double *x) {
  nexec++; int N = o->N, ok = N == G.N; sym_true(ok, "length"); for (int i = 0; i < N && ok; i++) sym_eq(y[i], Y[i], tolY, "series reaches the fit");
  int dr = o->r - G.r; sym_true(dr == 0 || dr == 1, "number of regressors %d", o->r); int wantdrift = G.all == 2 ? (o->d + o->D < 2 && dr) : G.all ? (o->d + o->D == 1 && dr) : G.drift; sym_true(dr == wantdrift, "drift regressor");
  if (dr == 1) for (int i = 0; i < N; i++) sym_eq(x[i], i + 1, 0, "drift regressor is time"); for (int j = 0; j < G.r; j++) for (int i = 0; i < N; i++) sym_eq(x[(j + dr) * N + i], X[j * N + i], 0, "regressor %d", j);
  if (!G.all) { sym_true(o->p == G.p && o->d == G.d && o->q == G.q && o->P == G.P && o->D == G.D && o->Q == G.Q && (o->P + o->D + o->Q == 0 || o->s == G.s), "orders"); sym_true(o->method == G.meth, "method %d", o->method); if (o->d + o->D == 0) sym_true(o->imean == G.c, "mean"); }
  fill(o); if (G.all) { int hit = o->p == G.p && o->q == G.q && o->P == G.P && o->Q == G.Q && (o->M > G.r) == (G.c && G.d + G.D < 2); if (hit) { tbest++; o->aic = Eaic; } else { o->aic = 1000; if (o->method == 2) o->var = 1e9; } if (hit && o->method == 2) o->var = 1; }
  laic = o->aic;
}
int stub_polyroot(double *c, int n, double *zr, double *zi) {
  npoly++; int hit = 0, isma = 0; for (int w = 0; w < 2; w++) { int m = ncur[w]; while (m > 0 && fabs(cur[w][m]) < 1e-8) m--; int fw = m == n && m > 0, bw = fw; for (int i = 0; i <= n && fw + bw; i++) { if (fw && !(fabs(c[i] - cur[w][i] * c[0]) < 1e-12)) fw = 0; if (bw && !(fabs(c[n - i] - cur[w][i] * c[n]) < 1e-12)) bw = 0; } if (fw) { hit = 1; if (w) { maseen++; isma = 1; } else arseen++; } }
  sym_true(G.all || hit, "polynomial is the autoregressive or moving average one");
  for (int i = 0; i < n; i++) { zr[i] = i & 1 ? -1.25 : 0; zi[i] = i & 1 ? 0 : 1.5; } if (G.all) return 0;
  int k = (npoly + n) % n; double v = sym_n("root", npoly, 0.8, 1.4); if (v < 1.01) badroot = 1; if (npoly & 1) { zr[k] = v; zi[k] = 0; } else { zr[k] = 0; zi[k] = -v; } int rcp = polyrc == 1 || (polyrc == 2 && isma); if (rcp) badroot = 1; return rcp;
}
int stub_nsdiffs(double *x, int N, int f, double *a, const char *t, int *m) { return G.D; }
int stub_ndiffs(double *x, int N, double *a, const char *t, const char *ty, int *m) { return G.d; }
int stub_rank(double *A, int M, int N) { sym_true(M == G.r && N == G.N, "rank of the regressor matrix"); for (int i = 0; i < M * N; i++) sym_eq(A[i], X[i], 0, "rank sees the regressors"); return M; }
void stub_regress(reg_object o, double *x, double *y, double *res, double *vc, double alpha) { for (int i = 0; i < o->N; i++) res[i] = y[i]; }
static void data(int N, int r) { Y = malloc(8 * N); X = malloc(8 * N * r + 8); sym_rseed(N + 3 * r); for (int i = 0; i < N; i++) Y[i] = sym_n("y", i, -1, 1) + 3 * (i % 3 == 0) - 4 * (i % 5 == 1) + (i % 7); for (int i = 0; i < N * r; i++) X[i] = 2 * sym_runi(); }
static void model(int p, int d, int q, int P, int D, int Q, int s, int c, int approx, int method, int r, int rc, int crit, int prc) {
  static const char *IC[] = {"aic", "bic", "aicc"}; int N = 12 + d + D * s + s * P;
  SYM_CASE("model(%d,%d,%d)(%d,%d,%d)%d constant=%d approx=%d method=%d r=%d status=%d %s%s", p, d, q, P, D, Q, s, c, approx, method, r, rc, IC[crit], prc ? " root failure" : "") {
    memset(&G, 0, sizeof G); nexec = npoly = arseen = maseen = badroot = 0; polyrc = prc; data(N, r); est(N); G.N = N; G.r = r; G.p = p; G.d = d; G.q = q; G.P = P; G.D = D; G.Q = Q; G.s = s; G.c = c; G.rc = rc; G.drift = c && d + D == 1; G.meth = method >= 0 ? method : approx ? 2 : 0;
    double a[4], b[4], A[4], B[4], ar[40] = {1}, ma[40] = {1}; for (int i = 0; i < 3; i++) { a[i] = coef(0, i); b[i] = -coef(1, i); A[i] = coef(2, i); B[i] = -coef(3, i); } ncur[0] = ref_expand(a, p, A, P, s, -1, ar + 1); for (int i = 1; i <= ncur[0]; i++) ar[i] = -ar[i]; ncur[1] = ref_expand(b, q, B, Q, s, 1, ma + 1); cur[0] = ar; cur[1] = ma;
    int o[] = {p, d, q}, so[] = {P, D, Q, s}, m = method; double off = 20; myarima_object f = myarima(Y, N, o, so, c, IC[crit], 0, approx, off, r ? X : NULL, r, method >= 0 ? &m : NULL);
    sym_true(nexec == 1, "one fit"); sym_true(f->idrift == G.drift, "drift flag");
    if (rc != 1) sym_true(f->ic == DBL_MAX, "failed fits are never preferred");
    else { sarimax_object x = f->sarimax; int nu = N - d - D * s, k = p + q + P + Q + r + G.drift + (c && d + D == 0) + 1; double aic = G.meth == 2 ? off + nu * log(Evar) + 2 * k : Eaic, bic = aic + k * (log((double)nu) - 2), aicc = aic + 2.0 * k * (k + 1) / (nu - k - 1), ss = 0; for (int i = 0; i < nu; i++) ss += Eres[i] * Eres[i];
      sym_eq(f->aic, aic, 1e-8, "AIC"); sym_eq(f->bic, bic, 1e-8, "BIC"); if (nu - k - 1 > 0) sym_eq(f->aicc, aicc, 1e-8, "AICc"); sym_eq(f->sigma2 * (nu - k + 1), ss, 1e-8, "sigma2");
      if (badroot) sym_true(f->ic == DBL_MAX, "models with roots near the unit circle are rejected"); else { sym_true(f->ic < DBL_MAX, "valid model kept"); sym_eq(f->ic, crit == 0 ? aic : crit == 1 ? bic : aicc, 1e-8, "criterion"); if (p + P) sym_true(arseen, "autoregressive roots examined"); if (q + Q) sym_true(maseen, "moving average roots examined"); } (void)x; }
    sarimax_free(f->sarimax); free(f); free(Y); free(X);
  }
}
static void forecast(int p, int d, int q, int P, int D, int Q, int s, int c, int r, int approx, int step, int special) {
  int N = 16 + d + D * s + s * P, L = 4; if (special) { N = 14 + 2 * s; p = q = P = Q = 0; }
  SYM_CASE("auto(%d,%d,%d)(%d,%d,%d)%d constant=%d r=%d%s%s%s", p, d, q, P, D, Q, s, c, r, approx ? " approx" : "", step ? " stepwise" : "", special == 1 ? " constant after differencing" : "") {
    memset(&G, 0, sizeof G); nexec = npoly = badroot = tbest = 0; polyrc = 0; data(N, r); est(special ? 0 : N); G.N = N; G.r = r; G.p = p; G.d = d; G.q = q; G.P = P; G.D = D; G.Q = Q; G.s = s; G.c = c; G.rc = 1; G.all = 1 + (special > 0);
    if (special) { double a = sym("level", -2, 2), b = sym("slope", -1, 1), se[12]; for (int i = 0; i < s; i++) se[i] = D ? sym_n("season", i, -1, 1) : 0; for (int i = 0; i < N; i++) { Y[i] = a + (s ? se[i % s] : 0); if (d + D) Y[i] += b * i; if (d == 2) Y[i] += i * i; } }
    double *Yk = malloc(8 * N), *nx = malloc(8 * L * r + 8), yp[8], am[8], ry[8], rm[8], dl[40]; memcpy(Yk, Y, 8 * N); for (int i = 0; i < L * r; i++) nx[i] = sym_n("nx", i, -1, 1);
    int mo[] = {p, 2, q}, ms[] = {P, 1, Q}; auto_arima_object o = auto_arima_init(mo, ms, s, r, N); auto_arima_setStepwise(o, step); auto_arima_setApproximation(o, approx);
    auto_arima_exec(o, Y, r ? X : NULL); sym_true(nexec > 0 && (special || tbest), "model fitted");
    sym_true(o->p == p && o->d == d && o->q == q && o->P == P && o->D == D && o->Q == Q, "best model chosen"); sym_true(o->r == r && o->N == N && o->Nused == N - d - D * s && o->M == o->ncoeff - p - q - P - Q, "sizes");
    int cc = c && d + D < 2, dr = cc && d + D == 1, mean = cc && d + D == 0; if (special) { dr = o->idrift; mean = d + D == 0 && o->M == r + dr + 1; cc = dr + mean; sym_true(dr == 0 || d + D < 2, "drift only where it can matter"); } sym_true(o->M == r + cc && o->idrift == dr, "drift or mean %d %d", o->M, o->idrift); if (special && d + D == 1) sym_true(dr, "trend of a constant-difference series kept");
    { int nu = o->Nused, kk = o->ncoeff + 1; double ss = 0, ea = special ? laic : Eaic; for (int i = 0; i < nu; i++) { ss += Eres[i] * Eres[i]; sym_eq(o->res[i], Eres[i], 0, "residual %d", i); } sym_eq(o->aic, ea, 0, "AIC"); sym_eq(o->bic, ea + kk * (log((double)nu) - 2), 1e-8, "BIC"); if (nu - kk - 1 > 0) sym_eq(o->aicc, ea + 2.0 * kk * (kk + 1) / (nu - kk - 1), 1e-8, "AICc"); sym_eq(o->loglik, Ell, 0, "log likelihood"); sym_eq(o->var, Evar, 0, "var"); sym_eq(o->sigma2 * (nu - kk + 1), ss, 1e-8, "sigma2"); }
    double mu = mean ? Emu : 0; sym_eq(o->mean, mu, 0, "mean"); if (mean) mu = o->mean;
    int k = ref_dpoly(d, D, s, dl), nw = N - k, ip = p + s * P, iq = q + s * Q; double a[4], b[4], A[4], B[4], phi[40], th[40]; for (int i = 0; i < 3; i++) { a[i] = coef(0, i); b[i] = -coef(1, i); A[i] = coef(2, i); B[i] = -coef(3, i); } ref_expand(a, p, A, P, s, -1, phi); ref_expand(b, q, B, Q, s, 1, th);
    double *yc = malloc(8 * N), *w = calloc(nw, 8), *g = malloc(8 * (nw + L + 1)), *Li = malloc(8 * nw * nw), s2 = 0, be[4]; for (int j = 0; j < r + dr; j++) { be[j] = Ebeta[j]; sym_eq(o->exog[j], be[j], 0, "regression coefficient %d", j); }
    for (int i = 0; i < N; i++) { yc[i] = Y[i] - mu - (dr ? be[0] * (i + 1) : 0); for (int j = 0; j < r; j++) yc[i] -= be[j + dr] * X[j * N + i]; } for (int i = 0; i < nw; i++) for (int j = 0; j <= k; j++) w[i] += dl[j] * yc[k + i - j];
    ref_gamma(phi, ip, th, iq, nw + L, g); ref_whiten(g, nw, Li); for (int i = 0; i < nw; i++) { double z = sym_dot(Li + i * nw, w, i + 1); s2 += z * z / nw; } ref_forecast(yc, N, dl, k, w, nw, g, L, ry, rm);
    auto_arima_predict(o, Y, r ? X : NULL, L, r ? nx : NULL, yp, am);
    for (int h = 0; h < L; h++) { double f = ry[h] + mu + (dr ? be[0] * (N + 1 + h) : 0); for (int j = 0; j < r; j++) f += be[j + dr] * nx[j * L + h]; sym_eq(yp[h], f, 1e-6, "forecast %d", h + 1); sym_eq(am[h], rm[h] * s2, 1e-5, "forecast MSE %d", h + 1); } for (int i = 0; i < N; i++) sym_eq(Y[i], Yk[i], 0, "data untouched");
    auto_arima_free(o); free(Y); free(X); free(Yk); free(nx); free(yc); free(w); free(g); free(Li);
  }
}
static void direct(int p, int d, int q, int P, int D, int Q, int s, int drift, int mean, int r, int lam) { /* the fit behind trivial and final models, used on its own, and its forecasts */
  int N = 14 + d + D * s + s * P, L = 4;
  SYM_CASE("wrapper(%d,%d,%d)(%d,%d,%d)%d drift=%d mean=%d r=%d lambda=%d", p, d, q, P, D, Q, s, drift, mean, r, lam) {
    memset(&G, 0, sizeof G); nexec = 0; data(N, r); est(N); double l = lam, *raw = Y; if (lam) { raw = malloc(8 * N); for (int i = 0; i < N; i++) { Y[i] = i % 4 - 0.25; raw[i] = 1 + i % 4 - 0.25; } } /* lambda 1 takes one off every value */
    G.N = N; G.r = r; G.p = p; G.d = d; G.q = q; G.P = P; G.D = D; G.Q = Q; G.s = s; G.rc = 1; G.all = 0; G.c = mean; int dr = G.drift = drift && d + D < 2; G.meth = 0;
    double *k0 = malloc(8 * N), *nx = malloc(8 * L * r + 8), yp[8], am[8], ry[8], rm[8], dl[40]; memcpy(k0, raw, 8 * N); for (int i = 0; i < L * r; i++) nx[i] = sym_n("nx", i, -1, 1);
    int o[] = {p, d, q}, so[] = {P, D, Q, s}; tolY = lam ? 1e-9 : 0; sarimax_wrapper_object f = sarimax_wrapper(NULL, raw, N, o, P + D + Q ? so : NULL, r ? X : NULL, r, drift, mean, lam ? &l : NULL, 0, 0); tolY = 0;
    sym_true(nexec == 1 && f->idrift == dr, "drift flag"); int um = mean && d + D == 0, nu = N - d - D * s, k = p + q + P + Q + r + dr + um + 1; double ss = 0; for (int i = 0; i < nu; i++) ss += Eres[i] * Eres[i];
    sym_eq(f->aic, Eaic, 0, "AIC"); sym_eq(f->bic, Eaic + k * (log((double)nu) - 2), 1e-8, "BIC"); if (nu > k + 1) sym_eq(f->aicc, Eaic + 2.0 * k * (k + 1) / (nu - k - 1), 1e-8, "AICc"); sym_eq(f->sigma2 * (nu - k + 1), ss, 1e-8, "sigma2");
    if (!lam) { sarimax_wrapper_predict(f, Y, r ? X : NULL, L, r ? nx : NULL, yp, am);
      double mu = um ? Emu : 0; int kd = ref_dpoly(d, D, s, dl), nw = N - kd, ip = p + s * P, iq = q + s * Q; double a[4], b[4], A[4], B[4], phi[40], th[40]; for (int i = 0; i < 3; i++) { a[i] = coef(0, i); b[i] = -coef(1, i); A[i] = coef(2, i); B[i] = -coef(3, i); } ref_expand(a, p, A, P, s, -1, phi); ref_expand(b, q, B, Q, s, 1, th);
      double *yc = malloc(8 * N), *w = calloc(nw, 8), *g = malloc(8 * (nw + L + 1)), *Li = malloc(8 * nw * nw), s2 = 0;
      for (int i = 0; i < N; i++) { yc[i] = Y[i] - mu - (dr ? Ebeta[0] * (i + 1) : 0); for (int j = 0; j < r; j++) yc[i] -= Ebeta[j + dr] * X[j * N + i]; } for (int i = 0; i < nw; i++) for (int j = 0; j <= kd; j++) w[i] += dl[j] * yc[kd + i - j];
      ref_gamma(phi, ip, th, iq, nw + L, g); ref_whiten(g, nw, Li); for (int i = 0; i < nw; i++) { double z = sym_dot(Li + i * nw, w, i + 1); s2 += z * z / nw; } ref_forecast(yc, N, dl, kd, w, nw, g, L, ry, rm);
      for (int h = 0; h < L; h++) { double v = ry[h] + mu + (dr ? Ebeta[0] * (N + 1 + h) : 0); for (int j = 0; j < r; j++) v += Ebeta[j + dr] * nx[j * L + h]; sym_eq(yp[h], v, 1e-6, "forecast %d", h + 1); sym_eq(am[h], rm[h] * s2, 1e-5, "forecast MSE %d", h + 1); }
      free(yc); free(w); free(g); free(Li); }
    for (int i = 0; i < N; i++) sym_eq(raw[i], k0[i], 0, "data untouched"); sarimax_free(f->sarimax); free(f); free(k0); free(nx); if (lam) free(raw); free(Y); free(X);
  }
}
int main(int argc, char **argv) {
  int t = sym_tier();
  for (int m = 0; m < 64; m++) { int p = m & 1 ? 1 + (m >> 5) : 0, q = m & 2 ? 2 - (m >> 5) : 0, P = m & 4 ? 1 : 0, Q = m & 8 ? 1 + (m >> 5) * t : 0, c = m >> 4 & 1; for (int dd = 0; dd < 5; dd++) { int d = dd % 3, D = dd / 3, s = P + Q + D ? 3 : 0; model(p, d, q, P, D, Q, s, c, (m + dd) & 1, -1, dd % 3, 1, (m + dd) % 3, 0); if (dd < 2) model(p, d, q, P, D, Q, s, c, 0, m % 3, m % 3, 1, (m + 1) % 3, 0); } }
  for (int c = 0; c < 2; c++) for (int rc = 0; rc < 5; rc++) { static const int R[] = {0, 4, 7, 10, 15}; model(1, c, 1, 0, 0, 0, 0, c, 0, -1, rc % 2, R[rc], rc % 3, 0); } model(2, 0, 1, 0, 0, 0, 0, 1, 0, -1, 0, 1, 0, 1); model(0, 1, 2, 1, 0, 0, 4, 1, 1, -1, 0, 1, 2, 1); model(1, 0, 2, 0, 0, 0, 0, 1, 0, -1, 0, 1, 0, 2); model(2, 1, 1, 0, 1, 1, 4, 0, 1, -1, 0, 1, 1, 2);
  for (int c = 0; c < 2; c++) for (int r = 0; r <= 2; r++) for (int d = 0; d <= 2; d++) { int ap = (r + c) & 1; forecast(1, d, 1, 0, 0, 0, 0, c, r, ap, 0, 0); forecast(2, d, 0, 0, 0, 0, 0, c, r, !ap, 0, 0); forecast(0, d, 2, 0, 0, 0, 0, c, r, ap, 0, 0); if (d < 2) for (int D = 0; D < 2; D++) { forecast(1, d, 1, 1, D, 1, 4, c, r, ap, 0, 0); forecast(0, d, 1, 0, D, 1, 3, c, r, !ap, 0, 0); forecast(1, d, 0, 1, D, 0, 2, c, r, ap, 0, 0); } }
  for (int r = 0; r <= 2; r++) for (int d = 0; d <= 2; d++) forecast(1, d, 0, 0, 0, 0, 0, d < 2, r, 0, 1, 0);
  for (int r = 0; r <= 2; r++) { for (int d = 0; d <= 2; d++) forecast(0, d, 0, 0, 0, 0, 0, 0, r, 0, 1, 1); for (int d = 0; d <= 1; d++) forecast(0, d, 0, 0, 1, 0, 4, 0, r, 0, 1, 1); }
  for (int r = 0; r <= 2; r++) for (int d = 0; d <= 2; d++) for (int m = 0; m < 4; m++) { direct(1, d, 0, 0, 0, 0, 0, m & 1, m >> 1, r, 0); direct(0, d, 2, 0, 0, 0, 0, m & 1, m >> 1, r, 0); if (d < 2) direct(1 + (m >> 1), d, 2 - (m >> 1), m & 1, (r + m) % 2, !(m & 1), 3, m & 1, m >> 1, r, 0); } direct(1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1); direct(1, 1, 0, 0, 0, 0, 0, 1, 0, 1, 1);
  return 0;
}
