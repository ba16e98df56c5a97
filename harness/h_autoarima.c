/* P16: automatic order selection.  The model fit (myarima) is replaced by one that returns arbitrary information criteria;
 * the unit-root and seasonality tests return chosen orders.  What is decided: which models are fitted, and that the returned
 * one is the best of them, for every assignment of criteria. */
#include "sym.h"
#include "ctsa.h"
#include "talg.h"
#include "autoutils.h"
#include <float.h>
void auto_arima_allowMean(auto_arima_object, int); void auto_arima_allowDrift(auto_arima_object, int); /* not in the header */
typedef struct { int p, q, P, Q, c, a; double ic; int n; } model;
static model T[3000]; static int nt, nsymic, nev, bad_, approx_seen; static struct { int N, s, d, D, pb, qb, Pb, Qb, om, mean, drift, r, infmod, ksym, season; const char *ic; double off; double *y, *x; } G;
static model *look(int p, int q, int P, int Q, int c, int a, int add) {
  for (int i = 0; i < nt; i++) if (T[i].p == p && T[i].q == q && T[i].P == P && T[i].Q == Q && T[i].c == c && T[i].a == a) return &T[i];
  if (!add) return NULL; model *m = &T[nt++]; *m = (model){p, q, P, Q, c, a};
  unsigned h = p * 7 + q * 13 + P * 29 + Q * 53 + c * 101 + a * 37 + G.ksym * 11 + G.infmod; h = h * 2654435761u; h ^= h >> 13;
  if (G.infmod && (h >> 4) % G.infmod == 0) m->ic = DBL_MAX; else if (nsymic < G.ksym) { char nm[40]; sprintf(nm, "ic%d%d%d%d_%d%d_", p, q, P, Q, c, a); nsymic++; m->ic = sym(nm, -1, 1); } else m->ic = ((h >> 8) % 10007) / 5003.0 - 1;
  return m;
}
myarima_object stub_myarima(double *x, int N, int *order, int *seas, int c, const char *ic, int trace, int a, double offset, double *xreg, int r, int *method) {
  int p = order[0], d = order[1], q = order[2], P = seas[0], D = seas[1], Q = seas[2];
  sym_true(N == G.N && r == G.r && !strcmp(ic, G.ic), "series length, regressors and criterion passed on"); sym_true(!memcmp(x, G.y, 8 * G.N), "series passed on"); sym_true((xreg == NULL) == (G.r == 0), "regressors passed on"); if (xreg) sym_true(!memcmp(xreg, G.x, 8 * G.N * G.r), "regressors passed on");
  sym_true(d == G.d && D == G.D, "differencing orders %d %d", d, D); sym_true(p >= 0 && q >= 0 && P >= 0 && Q >= 0 && p <= G.pb && q <= G.qb && P <= G.Pb && Q <= G.Qb, "orders within limits: %d %d %d %d", p, q, P, Q);
  sym_true(P + D + Q == 0 || seas[3] == G.s, "season"); sym_true(c == 0 || (c == 1 && ((G.mean && d + D == 0) || (G.drift && d + D == 1))), "mean or drift only where allowed"); if (a) { approx_seen = 1; sym_eq(offset, G.off, 1e-9, "offset of the approximation"); }
  model *m = look(p, q, P, Q, c, a != 0, 1); m->n++; nev++;
  myarima_object f = malloc(sizeof(struct myarima_set)); int drift = c && d + D == 1;
  f->sarimax = sarimax_init(p, d, q, P, D, Q, seas[3], r + drift, c, N); f->sarimax->retval = 1; f->idrift = drift; f->ic = m->ic; f->aic = 3; f->bic = 4; f->aicc = 5; f->sigma2 = 6; f->sarimax->loglik = 7; f->sarimax->var = 8; f->sarimax->mean = 9;
  sarimax_object o = f->sarimax; for (int i = 0; i < o->ncoeff + o->Nused + o->lvcov; i++) o->params[i] = i + 1; return f;
}
static int nnd, nns; static double Ex[300];
int stub_nsdiffs(double *x, int N, int f, double *alpha, const char *test, int *maxD) { nns++; sym_true(N == G.N && f == G.s && !strcmp(test, "ocsb") && *maxD == 1, "seasonality test arguments"); sym_eq(*alpha, 0.07, 0, "seasonality level"); for (int i = 0; i < N; i++) sym_eq(x[i], Ex[i], 1e-9, "seasonality test on the regression residuals"); return G.D; }
int stub_ndiffs(double *x, int N, double *alpha, const char *test, const char *type, int *maxd) { nnd++; double z[300]; int n = G.D ? diffs(Ex, G.N, G.D, G.s, z) : G.N; if (!G.D) memcpy(z, Ex, 8 * n); sym_true(N == n && *maxd == 2 && !strcmp(test, "pp") && !strcmp(type, "trend"), "unit root test arguments"); sym_eq(*alpha, 0.03, 0, "unit root level"); for (int i = 0; i < n && i < N; i++) sym_eq(x[i], z[i], 1e-9, "unit root test on the seasonally differenced series"); return G.d; }
void stub_sarimax_exec(sarimax_object o, double *y, double *x) { sym_true(o->p + o->q + o->P + o->Q == 0 && o->d == G.d && o->D == G.D && o->r == G.r && o->N == G.N, "offset model"); o->retval = 1; o->loglik = -12.5; o->var = 2; }
/* regression residuals of the series (what the stationarity tests see) */
static void resid(void) { memcpy(Ex, G.y, 8 * G.N); if (!G.r) return; /* intercept + r <= 2 regressors by normal equations (orthogonalised) */
  double B[3][300]; for (int i = 0; i < G.N; i++) { B[0][i] = 1; for (int j = 0; j < G.r; j++) B[j + 1][i] = G.x[j * G.N + i]; }
  for (int a = 0; a <= G.r; a++) { for (int b = 0; b < a; b++) { double n = 0, c = 0; for (int i = 0; i < G.N; i++) { n += B[b][i] * B[b][i]; c += B[a][i] * B[b][i]; } for (int i = 0; i < G.N; i++) B[a][i] -= c / n * B[b][i]; } double n = 0, c = 0; for (int i = 0; i < G.N; i++) { n += B[a][i] * B[a][i]; c += Ex[i] * B[a][i]; } for (int i = 0; i < G.N; i++) Ex[i] -= c / n * B[a][i]; } }
static int mn(int a, int b) { return a < b ? a : b; }
static void run(int N, int s, int d, int D, int pm, int qm, int Pm, int Qm, int r, int stepwise, int approx, int mean, int drift, int stat, int seas, int ksym, int infmod, int crit) {
  static const char *IC[] = {"aic", "bic", "aicc"};
  SYM_CASE("N=%d s=%d d=%d D=%d max=%d,%d,%d,%d r=%d %s%s mean=%d drift=%d%s%s k=%d inf=%d %s", N, s, d, D, pm, qm, Pm, Qm, r, stepwise ? "stepwise" : "exhaustive", approx ? " approx" : "", mean, drift, stat ? " stationary" : "", seas ? "" : " nonseasonal", ksym, infmod, IC[crit]) {
    memset(&G, 0, sizeof G); nt = nsymic = nev = nnd = nns = approx_seen = 0; int m = s > 1 && seas ? s : 1; if (m == 1) D = 0; if (stat) d = D = 0;
    G.N = N; G.s = s; G.d = d; G.D = D; G.pb = mn(pm, N / 3); G.qb = mn(qm, N / 3); G.Pb = m > 1 ? mn(Pm, N / 3 / m) : 0; G.Qb = m > 1 ? mn(Qm, N / 3 / m) : 0; if (m > 1) { if (G.Pb) G.pb = mn(G.pb, m - 1); if (G.Qb) G.qb = mn(G.qb, m - 1); }
    G.mean = mean; G.drift = drift; G.r = r; G.ksym = ksym; G.infmod = infmod; G.ic = IC[crit]; G.off = -2 * -12.5 - N * log(2.0); G.om = 5;
    double y[300], x[600]; sym_rseed(N + s); for (int i = 0; i < N; i++) y[i] = sym_runi() + (i % 4) * (i % 3); for (int i = 0; i < N * r; i++) x[i] = sym_runi(); G.y = malloc(8 * N); G.x = malloc(8 * N * r + 8); memcpy(G.y, y, 8 * N); memcpy(G.x, x, 8 * N * r); resid();
    int o[] = {pm, 2, qm}, so[] = {Pm, 1, Qm}; auto_arima_object a = auto_arima_init(o, so, s, r, N);
    auto_arima_setStepwise(a, stepwise); auto_arima_setApproximation(a, approx); auto_arima_setStationary(a, stat); auto_arima_setSeasonal(a, seas); auto_arima_allowMean(a, mean); auto_arima_allowDrift(a, drift); auto_arima_setStationarityParameters(a, "pp", 0.03, "trend"); auto_arima_setSeasonalParameters(a, "ocsb", 0.07); strcpy(a->information_criteria, IC[crit]);
    auto_arima_exec(a, y, r ? x : NULL);
    for (int i = 0; i < N; i++) sym_eq(y[i], G.y[i], 0, "data untouched");
    sym_true((nnd > 0) == !stat, "unit root test run %d", nnd); sym_true((nns > 0) == (m > 1 && !stat), "seasonality test run %d", nns);
    sym_true(a->d == d && a->D == D && a->p <= G.pb && a->q <= G.qb && a->P <= G.Pb && a->Q <= G.Qb, "reported orders"); sym_true(a->Nused == N - d - (D ? s * D : 0), "observations used %d", a->Nused);
    int con = a->M - r; sym_true(con == 0 || con == 1, "number of regression coefficients"); sym_true(a->idrift == (con && d + D == 1), "drift flag");
    int nc = a->ncoeff; sym_true(nc == a->p + a->q + a->P + a->Q + a->M && a->lvcov == nc * nc, "coefficient counts"); for (int i = 0; i < a->p; i++) sym_eq(a->phi[i], i + 1, 0, "phi"); for (int i = 0; i < a->q; i++) sym_eq(a->theta[i], a->p + i + 1, 0, "theta"); for (int i = 0; i < a->P; i++) sym_eq(a->PHI[i], a->p + a->q + i + 1, 0, "PHI"); for (int i = 0; i < a->Q; i++) sym_eq(a->THETA[i], a->p + a->q + a->P + i + 1, 0, "THETA"); for (int i = 0; i < a->M; i++) sym_eq(a->exog[i], nc - a->M + i + 1, 0, "exog"); for (int i = 0; i < a->Nused; i++) sym_eq(a->res[i], nc + i + 1, 0, "residuals"); for (int i = 0; i < nc * nc; i++) sym_eq(a->vcov[i], nc + a->Nused + i + 1, 0, "vcov");
    sym_eq(a->aic, 3, 0, "aic"); sym_eq(a->bic, 4, 0, "bic"); sym_eq(a->aicc, 5, 0, "aicc"); sym_eq(a->sigma2, 6, 0, "sigma2"); sym_eq(a->loglik, 7, 0, "loglik"); sym_eq(a->var, 8, 0, "var"); sym_eq(a->mean, 9, 0, "mean"); sym_true(a->retval == 1, "status");
    /* the returned model is the best of those evaluated */
    int p = a->p, q = a->q, P = a->P, Q = a->Q; model *b = look(p, q, P, Q, con, 0, 0); sym_true(b != NULL, "returned model was fitted exactly"); 
    if (b) { model *ba = approx ? look(p, q, P, Q, con, 1, 0) : b; int nmod = 0, nex = 0; for (int i = 0; i < nt; i++) { nmod += T[i].a == approx; nex += T[i].a == 0; }
      if (approx && !stepwise && nex > 1) { double wi = DBL_MAX; model *w = NULL; for (int i = 0; i < nt; i++) if (T[i].a == 1 && T[i].ic < wi) { wi = T[i].ic; w = &T[i]; } if (w) { w = look(w->p, w->q, w->P, w->Q, w->c, 0, 0); sym_true(w && w->ic == DBL_MAX, "exact search only after the approximate choice failed"); } sym_true(nex == nmod, "exact search complete"); for (int i = 0; i < nt; i++) if (T[i].a == 0) sym_le(b->ic, T[i].ic, 0, "no exactly fitted model has a smaller criterion"); ba = NULL; }
      if (approx) sym_true(approx_seen, "approximation used");
      if (!ba) sym_true(!stepwise, "returned model was ranked"); /* exhaustive search falls back to exact fits */
      else if (approx && b->ic == DBL_MAX) { for (int i = 0; i < nt; i++) if (T[i].a == 1 && T[i].ic < DBL_MAX && stepwise) { model *e = look(T[i].p, T[i].q, T[i].P, T[i].Q, T[i].c, 0, 0); sym_true(e && e->ic == DBL_MAX, "all candidates tried before giving up"); } }
      else for (int i = 0; i < nt; i++) if (T[i].a == approx) { model *e = approx ? look(T[i].p, T[i].q, T[i].P, T[i].Q, T[i].c, 0, 0) : NULL; if (e && e->ic == DBL_MAX) continue; /* exact fit failed */ sym_le(ba->ic, T[i].ic, 0, "no evaluated model has a smaller criterion (%d,%d,%d,%d,%d)", T[i].p, T[i].q, T[i].P, T[i].Q, T[i].c); }
      int ck = (G.mean && d + D == 0) || (G.drift && d + D == 1);
      if (!stepwise) { int cnt = 0; for (int i = 0; i <= G.pb; i++) for (int j = 0; j <= G.qb; j++) for (int I = 0; I <= G.Pb; I++) for (int K = 0; K <= G.Qb; K++) if (i + j + I + K <= G.om) for (int c = 0; c <= ck; c++) { sym_true(look(i, j, I, K, c, approx, 0) != NULL, "model %d,%d,%d,%d,%d considered", i, j, I, K, c); cnt++; } sym_true(nmod == cnt, "number of models %d", nmod); }
      else if (nmod < 94 && ba && !(infmod && approx)) { for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) for (int z = 0; z < 2; z++) { int pp = p + (z ? 0 : i), qq = q + (z ? 0 : j), PP = P + (z ? i : 0), QQ = Q + (z ? j : 0); if (pp < 0 || qq < 0 || PP < 0 || QQ < 0 || pp > G.pb || qq > G.qb || PP > G.Pb || QQ > G.Qb) continue; sym_true(look(pp, qq, PP, QQ, 0, approx, 0) || look(pp, qq, PP, QQ, 1, approx, 0), "neighbour %d,%d,%d,%d considered", pp, qq, PP, QQ); } if (ck) sym_true(look(p, q, P, Q, !con, approx, 0) != NULL, "with and without constant considered"); } }
    auto_arima_free(a); free(G.y); free(G.x);
  }
}
int main(int argc, char **argv) {
  int t = sym_tier(), K;
  for (int cr = 0; cr < 3; cr++) for (int st = 0; st < 2; st++) for (int ap = 0; ap < 2; ap++) { K = (t ? 6 : 5) - ap - (ap && st);
    run(30, 0, cr, 0, 1, 1, 0, 0, 0, st, ap, 1, 1, 0, 1, K, 0, cr); run(30, 0, cr, 0, 2, 2, 1, 1, 0, st, ap, 1, 1, 0, 1, K - 2, 0, cr);
    run(48, 4, cr % 2, cr / 2, 1, 1, 1, 1, 0, st, ap, 1, 1, 0, 1, K - 2, 0, cr); run(40, 4, 1, 1, 2, 0, 1, 1, 0, st, ap, 1, 1, 0, 1, K - 2, 0, cr);
    run(30, 0, cr == 2, 0, 2, 1, 0, 0, 1 + cr % 2, st, ap, 1, cr != 1, 0, 1, K - 3, 0, cr); run(48, 4, cr == 1, cr == 2, 1, 1, 1, 0, 2, st, ap, 1, 1, 0, 1, K - 3, 0, cr);
    run(30, 0, cr, 0, 1, 1, 0, 0, 0, st, ap, 0, 1, 0, 1, K - 2, 0, cr); run(30, 0, cr, 0, 1, 1, 0, 0, 0, st, ap, 1, 0, 0, 1, K - 2, 0, cr); run(30, 0, 1, 0, 1, 1, 0, 0, 0, st, ap, 1, 1, 1, 1, K - 2, 0, cr); run(48, 4, 1, 1, 1, 1, 1, 1, 0, st, ap, 1, 1, 1, 1, K - 3, 0, cr); run(48, 4, 1, 1, 1, 1, 1, 1, 0, st, ap, 1, 1, 0, 0, K - 3, 0, cr);
    for (int inf = 2; inf < 5; inf++) { run(30, 0, inf % 2, 0, 1, 1, 0, 0, 0, st, ap, 1, 1, 0, 1, K - 2, inf, cr); run(30, 0, cr % 2, 0, 3, 2, 0, 0, 0, st, ap, 1, 1, 0, 1, K - 4, inf, cr); run(48, 4, 0, cr % 2, 1, 1, 1, 1, 0, st, ap, 1, 1, 0, 1, K - 4, inf, cr); }
    for (int k = 0; k < 4; k++) { int kk = ap && st && k == 3 && !t ? 2 : k; run(60, 0, k % 2, 0, 5, 5, 0, 0, 0, st, ap, 1, 1, 0, 1, kk, 0, cr); run(96, 12, k % 2, k / 2, 3, 3, 2, 2, 0, st, ap, 1, 1, 0, 1, kk, k == 3 ? 3 : 0, cr); }
    run(8, 0, 0, 0, 3, 3, 0, 0, 0, st, ap, 1, 1, 0, 1, K - 1, 0, cr); run(20, 4, 1, 0, 5, 5, 2, 2, 0, st, ap, 1, 1, 0, 1, K - 1, 0, cr);
  }
  return 0;
}
