/* P17: OCSB seasonal unit root statistic from its defining regressions, and the strength-of-seasonality measure.  regress and mstl are replaced. */
#include "sym.h"
#include "ctsa.h"
#include "seastest.h"
typedef struct { int n, k, icpt, fin, lag, ml; double *col[12], *y, b[13], se[13], aic, bic, aicc; } spec;
static spec S[24]; static int NS, NU, deficient; static double *Y;
static void col(spec *s, double *c) { s->col[s->k] = malloc(8 * s->n); memcpy(s->col[s->k++], c, 8 * s->n); }
static int same(double *a, double *b, int n) { int r[3] = {n - 3, n - 2, n - 1}; for (int i = 0; i < 3; i++) if (!(fabs(a[r[i]] - b[r[i]]) < 1e-6)) return 0; return 1; }
/* lag regression of y_t=(1-B)(1-B^f)x on y_{t-1..t-lag} (and a constant, which the library includes), t beyond ml; then the test regression */
static void build(double *x, int n, int f, int lag, int ml) { int ny = n - f - 1, m = ny - ml, cyc = 0; double *yf = malloc(8 * n), *d1 = malloc(8 * n), *y = malloc(8 * n), *c = malloc(8 * n); for (int i = 0; i + f < n; i++) yf[i] = x[i + f] - x[i]; for (int i = 0; i + 1 < n; i++) d1[i] = x[i + 1] - x[i]; for (int i = 0; i < ny; i++) y[i] = yf[i + 1] - yf[i]; (void)cyc;
  spec *a = &S[NS++]; memset(a, 0, sizeof *a); a->n = m; a->icpt = 1; a->lag = lag; a->ml = ml; a->y = malloc(8 * m); memcpy(a->y, y + ml, 8 * m); for (int j = 1; j <= lag; j++) col(a, y + ml - j); if (!lag) { for (int i = 0; i < m; i++) c[i] = 0; col(a, c); } for (int j = 0; j <= a->k; j++) a->b[j] = (j + 1 + lag) / 16.0 * (j & 1 ? -1 : 1), a->se[j] = 1; a->b[0] = 0.375 + 0.125 * lag; if (!lag) a->b[0] = 0;
  spec *g = &S[NS++]; memset(g, 0, sizeof *g); g->n = m; g->fin = 1; g->lag = lag; g->ml = ml; g->y = malloc(8 * m); memcpy(g->y, y + ml, 8 * m); for (int j = 0; j < a->k; j++) col(g, a->col[j]);
  for (int h = 0; h < 2; h++) { double *u = h ? d1 : yf; for (int i = 0; i < m; i++) { int t = ml + i; c[i] = u[t] - a->b[a->k]; for (int j = 1; j <= lag; j++) c[i] -= a->b[j - 1] * u[t - j]; } col(g, c); }
  for (int j = 0; j < g->k; j++) g->b[j] = sym_n("b", 100 * (lag * 10 + ml) + j, -2, 2), g->se[j] = 0.5 + 0.25 * j; g->aic = sym_n("aic", lag * 10 + ml, -3, 3); g->bic = sym_n("bic", lag * 10 + ml, -3, 3); g->aicc = sym_n("aicc", lag * 10 + ml, -3, 3); free(yf); free(d1); free(y); free(c); }
void stub_regress(reg_object o, double *x, double *y, double *res, double *vc, double alpha) {
  NU++; int k = o->p - (o->intercept == 1), hit = -1; for (int t = 0; t < NS && hit < 0; t++) if (S[t].k == k && S[t].icpt == (o->intercept == 1) && S[t].n == o->N) { int ok = same(y, S[t].y, o->N); for (int j = 0; j < k && ok; j++) { int f = 0; for (int c = 0; c < k; c++) if (same(x + (long)j * o->N, S[t].col[c], o->N)) f = 1; ok = f; } if (ok) hit = t; }
  sym_true(hit >= 0, "regression with N=%d, %d regressors, intercept %d is one of the definition", o->N, k, o->intercept); if (hit < 0) exit(0); spec *s = &S[hit];
  for (int i = 0; i < s->n; i++) { sym_eq(y[i], s->y[i], 1e-9, "response"); res[i] = 0; } for (int i = 0; i < o->p * o->p; i++) vc[i] = i % (o->p + 1) ? 0 : 1;
  for (int j = 0; j < o->p; j++) { int r = k; if (!(s->icpt && j == 0)) { double *c = x + (long)(j - s->icpt) * s->n; for (r = 0; r < k && !same(c, s->col[r], s->n); r++); for (int i = 0; i < s->n; i++) sym_eq(c[i], s->col[r][i], 1e-9, "regressor %d row %d", r, i); } (o->beta + j)->value = s->b[r]; (o->beta + j)->stdErr = s->se[r]; vc[j * (o->p + 1)] = s->se[r] * s->se[r]; }
  o->aic = s->aic; o->bic = s->bic; o->aicc = s->aicc; o->rank = s->fin && s->ml == s->lag && (s->lag == 0 || s->lag == deficient) ? o->p - 1 : o->p; (void)alpha; }
static void ocsb(int n, int f, int ml, const char *m, int df) { SYM_CASE("OCSB N=%d f=%d maxlag=%d %s deficient=%d", n, f, ml, m, df) {
  Y = malloc(8 * n); sym_rseed(n + f); for (int i = 0; i < n; i++) Y[i] = (sym_rnd(129) - 64) / 16.0 + i % f + (i >= f && i < f + 2 ? sym_n("y", i, -0.125, 0.125) : 0); NS = NU = 0; deficient = df; double st = 0, cr = 0, *Y0 = malloc(8 * n); memcpy(Y0, Y, 8 * n); int fix = !strcmp(m, "fixed");
  if (!fix) for (int l = 1; l <= ml; l++) build(Y, n, f, l, ml); if (fix) build(Y, n, f, ml, ml); else for (int l = 0; l < ml; l++) build(Y, n, f, l, l);
  OCSBtest(Y, n, f, ml, m, &st, &cr);
  spec *g = NULL; if (fix) g = &S[1]; else { int best = 1; double c[8]; for (int l = 1; l <= ml; l++) { spec *q = &S[2 * l - 1]; c[l] = m[1] == 'i' && m[0] == 'b' ? q->bic : strlen(m) == 4 ? q->aicc : q->aic; if (c[l] < c[best]) best = l; } g = &S[2 * ml + 2 * (best - 1) + 1]; /* order id-1 as in the reference implementation */ if (best == 1 || best - 1 == df) g = &S[2 * best - 1]; }
  sym_eq(st, g->b[g->k - 1] / g->se[g->k - 1], 1e-9, "t ratio of the seasonally lagged term"); double lf = log((double)f) - 0.7656451; sym_eq(cr, -0.2937411 * exp(-0.2850853 * lf - 0.05983644 * lf * lf) - 1.652202, 1e-9, "critical value"); for (int i = 0; i < n; i++) sym_eq(Y[i], Y0[i], 0, "input");
  for (int i = 0; i < NS; i++) { free(S[i].y); for (int j = 0; j < S[i].k; j++) free(S[i].col[j]); } free(Y); free(Y0); } }
static double *SE[3], *RM; static int keep, MN;
void stub_mstl(double *x, int n, int *f, int *nse, int *sw, double *la, int *it, double **seas, double *tr, double *rem) { sym_true(n == MN, "length"); for (int i = 0; i < n; i++) sym_eq(x[i], Y[i], 0, "series"); sym_true(la == NULL, "no transformation"); for (int i = 0; i < n; i++) { rem[i] = RM[i]; tr[i] = 1; } for (int k = 0; k < keep; k++) for (int i = 0; i < n; i++) seas[k][i] = SE[k][i]; *nse = keep; (void)f; (void)sw; (void)it; }
static void sh(int n, int nse, int k) { SYM_CASE("seasonal strength N=%d seasons=%d kept=%d", n, nse, k) {
  MN = n; keep = k; Y = malloc(8 * n); RM = malloc(8 * n); for (int i = 0; i < n; i++) { Y[i] = i; RM[i] = i % 3 - 1 + (i < 1 ? sym_n("r", i, -1, 1) : 0); } for (int q = 0; q < k; q++) { SE[q] = malloc(8 * n); for (int i = 0; i < n; i++) SE[q][i] = i % (q + 2) - 0.5 + (i < 1 ? sym_n("s", 10 * q + i, -1, 1) : 0); } double out[3] = {-5, -5, -5}; int f[3] = {4, 6, 12};
  SHtest(Y, n, f, nse, out); for (int q = 0; q < k; q++) { double a = 0, b = 0, va = 0, vb = 0; for (int i = 0; i < n; i++) { a += RM[i]; b += RM[i] + SE[q][i]; } a /= n; b /= n; for (int i = 0; i < n; i++) { va += (RM[i] - a) * (RM[i] - a); double v = RM[i] + SE[q][i] - b; vb += v * v; } sym_le(0, out[q], 0, "at least 0"); sym_le(out[q], 1, 0, "at most 1"); if (va < vb) sym_eq(out[q], 1 - va / vb, 1e-9, "strength"); else sym_eq(out[q], 0, 1e-12, "no strength"); } free(Y); free(RM); for (int q = 0; q < k; q++) free(SE[q]); } }
int main(int argc, char **argv) { int t = sym_tier(); (void)t;
  for (int f = 2; f <= 12; f += f < 4 ? 2 : 4) { int n = 3 * f + 17; for (int ml = 1; ml < 4 + t; ml++) { ocsb(n, f, ml, "fixed", -1); ocsb(n, f, ml, "aic", -1); ocsb(n, f, ml, "bic", 1); ocsb(n, f, ml, "aicc", ml - 1); } }
  for (int n = 6; n < 16; n += 4) for (int q = 1; q < 4; q++) for (int k = q > 1 ? q - 1 : 1; k <= q; k++) sh(n, q, k);
  return 0; }
