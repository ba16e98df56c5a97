/* P17: the unit root statistics are those of their defining regressions.  regress is replaced: it checks that the design and the
 * response are the ones of the definition (columns in any order) and returns arbitrary estimates, standard errors and residuals. */
#include "sym.h"
#include "ctsa.h"
#include "unitroot.h"
static double *Y; static int N;
typedef struct { int k, icpt, n; double *col[12], *y, b[13], se[13], rss, aic, bic; double *res; } spec; /* role k = intercept */
static spec S[12]; static int NS, NU;
static spec *want(int n, int icpt, double *y) { spec *s = &S[NS++]; memset(s, 0, sizeof *s); s->n = n; s->icpt = icpt; s->y = y; s->res = malloc(8 * n); for (int i = 0; i < n; i++) s->res[i] = 0; s->rss = s->aic = s->bic = 0; for (int i = 0; i < 13; i++) s->b[i] = 0.25, s->se[i] = 0.5; return s; }
static double *dup(double *x, int n) { double *r = malloc(8 * n); memcpy(r, x, 8 * n); return r; }
static void col(spec *s, double *c) { s->col[s->k++] = dup(c, s->n); }
static void wipe(void) { for (int i = 0; i < NS; i++) { free(S[i].res); for (int j = 0; j < S[i].k; j++) free(S[i].col[j]); } NS = NU = 0; }
static int same(double *a, double *b, int n) { int r[3] = {0, n / 2, n - 1}; for (int i = 0; i < 3; i++) if (!(fabs(a[r[i]] - b[r[i]]) < 1e-6)) return 0; return 1; }
void stub_regress(reg_object o, double *x, double *y, double *res, double *vc, double alpha) {
  NU++; int k = o->p - (o->intercept == 1), j, hit = -1; for (int t = 0; t < NS && hit < 0; t++) if (S[t].k == k && S[t].icpt == (o->intercept == 1) && S[t].n == o->N) { /* find by design */ int ok = 1; for (j = 0; j < k && ok; j++) { int f = 0; for (int c = 0; c < k; c++) if (same(x + (long)j * o->N, S[t].col[c], o->N)) f = 1; ok = f; } if (ok) hit = t; }
  sym_true(hit >= 0, "regression with N=%d, %d regressors, intercept %d is one of the definition", o->N, k, o->intercept); if (hit < 0) exit(0); spec *s = &S[hit];
  for (int i = 0; i < s->n; i++) { sym_eq(y[i], s->y[i], 1e-9, "response of the regression"); res[i] = s->res[i]; }
  for (j = 0; j < o->p; j++) { int r = k; if (!(s->icpt && j == 0)) { double *c = x + (long)(j - s->icpt) * s->n; for (r = 0; r < k && !same(c, s->col[r], s->n); r++); sym_true(r < k, "regressor"); for (int i = 0; i < s->n; i++) sym_eq(c[i], s->col[r][i], 1e-9, "regressor %d row %d", r, i); } (o->beta + j)->value = s->b[r]; (o->beta + j)->stdErr = s->se[r]; vc[j * (o->p + 1)] = s->se[r] * s->se[r]; }
  o->RSS = s->rss; o->df_RSS = o->df = s->n - o->p; o->sigma = s->rss / o->df; o->aic = s->aic; o->bic = s->bic; o->rank = o->p; (void)alpha;
}
static void data(int n, int ns) { N = n; Y = malloc(8 * n); sym_rseed(n); for (int i = 0; i < n; i++) { Y[i] = (sym_rnd(65) - 32) / 16.0 + i % 5; if (i >= n / 2 - ns / 2 && i < n / 2 - ns / 2 + ns) Y[i] += sym_n("y", i, -1, 1); } }
static double lin(const double *xk, const double *yk, int m, double z) { /* increasing knots */ if (z <= xk[0]) return yk[0]; for (int i = 1; i < m; i++) if (z <= xk[i]) return yk[i - 1] + (yk[i] - yk[i - 1]) * ((z - xk[i - 1]) / (xk[i] - xk[i - 1])); return yk[m - 1]; }
/* interpolation (its own property, P27): for the statistics whose p-value is a decreasing table the symbolic mode checks the argument and returns an arbitrary value */
static int absm, npv; static double pvz, pvr, pvref; static const double *pvk, *pvp; static int pvm;
double stub_interpolate_linear(double *xin, double *yin, int n, double z) { int id[16]; double a[16], b[16]; for (int i = 0; i < n; i++) { int j = i; for (; j > 0 && xin[id[j - 1]] > xin[i]; j--) id[j] = id[j - 1]; id[j] = i; } for (int i = 0; i < n; i++) a[i] = xin[id[i]], b[i] = yin[id[i]];
  if (!absm || n != pvm) return lin(a, b, n, z); npv++; pvz = z; sym_true(n == pvm, "table size"); for (int i = 0; i < pvm; i++) { sym_eq(a[i], pvk[i], 1e-9, "p-value table knot %d", i); sym_eq(b[i], pvp[i], 1e-12, "p-value table entry %d", i); } return pvr = sym("pval", 0, 1); }
static const double prob[8] = {0.01, 0.025, 0.05, 0.10, 0.90, 0.95, 0.975, 0.99}, nT[6] = {25, 50, 100, 250, 500, 100000};
static const double Dt[8][6] = {{4.38,4.15,4.04,3.99,3.98,3.96},{3.95,3.80,3.73,3.69,3.68,3.66},{3.60,3.50,3.45,3.43,3.42,3.41},{3.24,3.18,3.15,3.13,3.13,3.12},{1.14,1.19,1.22,1.23,1.24,1.25},{0.80,0.87,0.90,0.92,0.93,0.94},{0.50,0.58,0.62,0.64,0.65,0.66},{0.15,0.24,0.28,0.31,0.32,0.33}};
static const double Da[8][6] = {{22.5,25.7,27.4,28.4,28.9,29.5},{19.9,22.4,23.6,24.4,24.8,25.1},{17.9,19.8,20.7,21.3,21.5,21.8},{15.6,16.8,17.5,18.0,18.1,18.3},{3.66,3.71,3.74,3.75,3.76,3.77},{2.51,2.60,2.62,2.64,2.65,2.66},{1.53,1.66,1.73,1.78,1.78,1.79},{0.43,0.65,0.75,0.82,0.84,0.87}};
static void pv(const double (*T)[6], int n1, double stat, const char *alt, double p) { double k[8], r; for (int i = 0; i < 8; i++) { double row[6]; for (int j = 0; j < 6; j++) row[j] = -T[i][j]; k[i] = lin(nT, row, 6, n1); } if (absm && npv) { sym_true(npv == 1, "one table lookup"); sym_eq(pvz, stat, 1e-9, "p-value is that of the statistic"); r = pvr; } else r = lin(k, prob, 8, stat); sym_eq(p, strcmp(alt, "stationary") ? 1 - r : r, 1e-9, "p-value"); }
static double KN[8]; static void knots(const double (*T)[6], int n1) { npv = 0; for (int i = 0; i < 8; i++) { double row[6]; for (int j = 0; j < 6; j++) row[j] = -T[i][j]; KN[i] = lin(nT, row, 6, n1); } pvk = KN; pvp = prob; pvm = 8; }
static double *ramp(int n, double a) { double *t = malloc(8 * n); for (int i = 0; i < n; i++) t[i] = i + a; return t; }
static void symres(spec *s, int ns) { for (int i = 0; i < s->n; i++) { s->res[i] = (i * 5 % 7 - 3) / 4.0; if (i >= s->n / 2 - ns / 2 && i < s->n / 2 - ns / 2 + ns) s->res[i] = ns == 1 ? sym_n("e", i, 0.875, 1) : sym_n("e", i, -1, 1); } }
static int trunclag(int n, int sh) { return (int)floor((sh ? 4 : 12) * pow(n / 100.0, 0.25)); }
static void lrv(double *e, int n, int l, double *s2, double *lr) { double a = 0, b = 0; for (int i = 0; i < n; i++) a += e[i] * e[i]; for (int k = 1; k <= l; k++) { double c = 0; for (int i = k; i < n; i++) c += e[i] * e[i - k]; b += (1 - k / (l + 1.0)) * c; } *s2 = a / n; *lr = (a + 2 * b) / n; }

static void df(int n, int lag, const char *alt) { absm = 0; SYM_CASE("ur_df N=%d lag=%d %s", n, lag, alt) {
  data(n, 3); int k = lag < 0 ? (int)floor(pow(n - 1.0, 1 / 3.0)) : lag, m = n - 1 - k, L = k; double *z = malloc(8 * n), *t = ramp(n, k + 1); for (int i = 0; i < n - 1; i++) z[i] = Y[i + 1] - Y[i];
  spec *s = want(m, 1, z + k); col(s, Y + k); col(s, t); for (int j = 1; j <= k; j++) col(s, z + k - j); s->b[0] = sym("b", -8, 8); s->se[0] = sym("se", 0.5, 2);
  double st = 0, p = 0, *Y0 = dup(Y, n); ur_df(Y, n, alt, lag < 0 ? NULL : &L, &st, &p); sym_true(NU == 1, "one regression"); sym_eq(st, s->b[0] / s->se[0], 1e-9, "t ratio of the lagged level"); pv(Dt, n - 1, st, alt, p); sym_true(L == k, "lag kept"); for (int i = 0; i < n; i++) sym_eq(Y[i], Y0[i], 0, "input"); free(z); free(t); free(Y0); free(Y); wipe(); } }

static const double tl[4] = {0.347, 0.463, 0.574, 0.739}, tt[4] = {0.119, 0.146, 0.176, 0.216}, pr[4] = {0.10, 0.05, 0.025, 0.01};
static void kpss(int n, int tr, int sh, int kl, int ns) { absm = ns > 1; npv = 0; pvk = tr ? tt : tl; pvp = pr; pvm = 4; SYM_CASE("ur_kpss N=%d %s lshort=%d lag=%d", n, tr ? "trend" : "level", sh, kl) {
  data(n, 2); double *t = ramp(n, 1), st = 0, p = 0, eta = 0, c = 0, s2, lr; spec *s = want(n, 1, Y); if (tr) col(s, t); symres(s, ns); int l = kl > 0 ? kl : trunclag(n, sh), L = kl;
  ur_kpss(Y, n, tr ? "trend" : "level", sh, kl < 0 ? NULL : &L, &st, &p); lrv(s->res, n, l, &s2, &lr); for (int i = 0; i < n; i++) { c += s->res[i]; eta += c * c; } sym_eq(st, eta / ((double)n * n) / lr, 1e-8, "statistic"); if (kl >= 0) sym_true(L == l, "lag reported");
  if (absm && npv) { sym_eq(pvz, st, 1e-9, "p-value is that of the statistic"); sym_eq(p, pvr, 0, "p-value"); } else sym_eq(p, lin(tr ? tt : tl, pr, 4, st), 1e-9, "p-value"); free(t); free(Y); wipe(); } }

static void pp(int n, int ta, int sh, int kl, const char *alt, int ns) { absm = ns > 0; knots(ta ? Dt : Da, n - 1); SYM_CASE("ur_pp N=%d %s lshort=%d lag=%d %s", n, ta ? "Z(t_alpha)" : "Z(alpha)", sh, kl, alt) {
  data(n, ta || !ns ? 0 : 1); double nd = n - 1, st = 0, p = 0, s2, lr, sy = 0, syy = 0, sty = 0, tb = 0; int m = n - 1, L = kl, l = kl > 0 ? kl : trunclag(m, sh); double *t = ramp(m, 1 - nd / 2); spec *s = want(m, 1, Y + 1); col(s, Y); col(s, t); symres(s, ns); s->b[0] = sym("alpha", -1, 1); s->se[0] = ns ? 0.75 : sym("se", 0.5, 2);
  ur_pp(Y, n, alt, ta ? "Z(t_alpha)" : "Z(alpha)", sh, kl < 0 ? NULL : &L, &st, &p); lrv(s->res, m, l, &s2, &lr); (void)tb; for (int i = 0; i < m; i++) { sy += Y[i]; syy += Y[i] * Y[i]; sty += (i + 1) * Y[i]; }
  /* D = n^2 (n^2-1)/12 * (residual sum of squares of y on 1,t) */ double q = (2 * nd + 1) / 6, D = nd * nd * (nd * nd - 1) * syy / 12 - nd * sty * sty + nd * (nd + 1) * sty * sy - nd * (nd + 1) * q * sy * sy, n3 = nd * nd * nd;
  double r = ta ? sqrt(s2) / sqrt(lr) * ((s->b[0] - 1) / s->se[0]) - n3 / (4 * sqrt(3.0) * sqrt(D) * sqrt(lr)) * (lr - s2) : nd * (s->b[0] - 1) - n3 / (24 * D) * (n3 * (lr - s2));
  sym_eq(st, r, 1e-6, "statistic"); pv(ta ? Dt : Da, m, st, alt, p); if (kl >= 0) sym_true(L == l, "lag reported"); free(t); free(Y); wipe(); } }

static void pp2(int n, int tau, int tr, int sh, int kl, int ns) { SYM_CASE("ur_pp2 N=%d %s %s lshort=%d lag=%d", n, tau ? "Z-tau" : "Z-alpha", tr ? "trend" : "constant", sh, kl) {
  data(n, 0); double nd = n - 1, cv[3], cp[3], ax[2] = {0, 0}, ts = 0, s2, lr, yb = 0, yy = 0, mt = 0, my = 0, mc = 0; int m = n - 1, L = kl, l = kl > 0 ? kl : trunclag(m, sh), la = 0; double *t = ramp(m, 1 - nd / 2); spec *s = want(m, 1, Y + 1); col(s, Y); if (tr) col(s, t); symres(s, ns); int K = s->k; s->b[0] = sym("alpha", -1, 1); s->se[0] = sym("se", 0.5, 2); s->b[K] = sym("c", -1, 1); s->se[K] = 0.75; if (tr) { s->b[1] = sym("beta", -1, 1); s->se[1] = 1.25; }
  ur_pp2(Y, n, tau ? "Z-tau" : "Z-alpha", tr ? "trend" : "constant", sh, kl < 0 ? NULL : &L, cv, cp, ax, &la, &ts); lrv(s->res, m, l, &s2, &lr); for (int i = 1; i < n; i++) { yb += Y[i] / nd; yy += Y[i] * Y[i]; mt += i * Y[i]; my += Y[i]; } for (int i = 1; i < n; i++) mc += (Y[i] - yb) * (Y[i] - yb); mc /= nd * nd; yy /= nd * nd; mt /= pow(nd, 2.5); my /= pow(nd, 1.5);
  double lam = (lr - s2) / 2, M = (1 - 1 / (nd * nd)) * yy - 12 * mt * mt + 12 * (1 + 1 / nd) * mt * my - (4 + 6 / nd + 2 / (nd * nd)) * my * my, V = tr ? M : mc, rt = sqrt(s2 / lr), sg = sqrt(lr), tc = s->b[K] / s->se[K];
  sym_eq(ts, tau ? rt * ((s->b[0] - 1) / s->se[0]) - lam / lr * sg / sqrt(V) : nd * (s->b[0] - 1) - lam / V, 1e-6, "test statistic"); sym_eq(ax[0], rt * tc - lam / lr * sg * my / (tr ? sqrt(M) * sqrt(M + my * my) : sqrt(yy) * sqrt(mc)), 1e-6, "intercept statistic"); if (tr) sym_eq(ax[1], rt * s->b[1] / s->se[1] - lam / lr * sg * (0.5 * my - mt) / (sqrt(M / 12) * sqrt(mc)), 1e-6, "trend statistic"); sym_true(la == 1 + tr, "number of auxiliary statistics");
  if (tau) { static const double C[2][3][3] = {{{-3.4335, -5.999, -29.25}, {-2.8621, -2.738, -8.36}, {-2.5671, -1.438, -4.48}}, {{-3.9638, -8.353, -47.44}, {-3.4126, -4.039, -17.83}, {-3.1279, -2.418, -7.58}}}; for (int i = 0; i < 3; i++) sym_eq(cv[i], C[tr][i][0] + C[tr][i][1] / nd + C[tr][i][2] / nd / nd, 1e-12, "critical value"); } else for (int i = 0; i < 3; i++) sym_true(cv[i] != cv[i], "no critical values"); sym_eq(cp[0], 0.01, 0, "p"); sym_eq(cp[1], 0.05, 0, "p"); sym_eq(cp[2], 0.1, 0, "p"); free(t); free(Y); wipe(); } }

static const double T1[6][3] = {{-2.66,-1.95,-1.60},{-2.62,-1.95,-1.61},{-2.60,-1.95,-1.61},{-2.58,-1.95,-1.62},{-2.58,-1.95,-1.62},{-2.58,-1.95,-1.62}}, T2[6][3] = {{-3.75,-3.00,-2.63},{-3.58,-2.93,-2.60},{-3.51,-2.89,-2.58},{-3.46,-2.88,-2.57},{-3.44,-2.87,-2.57},{-3.43,-2.86,-2.57}}, T3[6][3] = {{-4.38,-3.60,-3.24},{-4.15,-3.50,-3.18},{-4.04,-3.45,-3.15},{-3.99,-3.43,-3.13},{-3.98,-3.42,-3.13},{-3.96,-3.41,-3.12}};
static const double F1[6][3] = {{7.88,5.18,4.12},{7.06,4.86,3.94},{6.70,4.71,3.86},{6.52,4.63,3.81},{6.47,4.61,3.79},{6.43,4.59,3.78}}, F2[6][3] = {{8.21,5.68,4.67},{7.02,5.13,4.31},{6.50,4.88,4.16},{6.22,4.75,4.07},{6.15,4.71,4.05},{6.09,4.68,4.03}}, F3[6][3] = {{10.61,7.24,5.91},{9.31,6.73,5.61},{8.73,6.49,5.47},{8.43,6.49,5.47},{8.34,6.30,5.36},{8.27,6.25,5.34}};
static void df2(int n, int ty, int lag, const char *sel) { static const char *nm[3] = {"none", "drift", "trend"}; SYM_CASE("ur_df2 N=%d %s lags=%d %s", n, nm[ty], lag, sel) {
  data(n, 2); int K = lag < 0 ? 1 : lag, m = n - 1 - K, L = lag, f = !strcmp(sel, "fixed"); double *z = malloc(8 * n), *t = ramp(n, K + 1); for (int i = 0; i < n - 1; i++) z[i] = Y[i + 1] - Y[i]; double rfull = sym("rss", 0.5, 2);
  for (int j = f ? K : (K > 0); j <= K; j++) { spec *s = want(m, ty > 0, z + K); col(s, Y + K); if (ty == 2) col(s, t); for (int i = 1; i <= j; i++) col(s, z + K - i); s->aic = j ? sym_n("aic", j, -3, 3) : 0; s->bic = j ? sym_n("bic", j, -3, 3) : 0; s->b[0] = sym_n("b", j, -2, 2); s->se[0] = sym_n("se", j, 0.5, 2); s->rss = rfull; }
  int nb = NS; double r1[8], r2[8]; if (ty) for (int j = 0; j < nb; j++) { int q = S[j].k - 1 - (ty == 2); spec *s = want(m, 0, z + K); for (int i = 1; i <= q; i++) col(s, z + K - i); s->rss = r1[j] = rfull + sym_n("d", j, 0, 1); if (ty == 2) { s = want(m, 1, z + K); for (int i = 1; i <= q; i++) col(s, z + K - i); s->rss = r2[j] = rfull + sym_n("d2", j, 0, 1); } }
  double cv[9], cp[3], ts[3] = {0, 0, 0}; int cr = 0, cc = 0, lt = 0; ur_df2(Y, n, nm[ty], lag < 0 ? NULL : &L, sel, cv, &cr, &cc, cp, ts, &lt);
  int pick = 0; if (nb > 1) { int bic = !strcmp(sel, "bic"); for (int j = 1; j < nb; j++) { double a = bic ? S[j].bic : S[j].aic, b = bic ? S[pick].bic : S[pick].aic; if (a < b) pick = j; } }
  int q = S[pick].k + (ty > 0), dfr = m - q; sym_eq(ts[0], S[pick].b[0] / S[pick].se[0], 1e-9, "tau of the selected lag"); if (ty == 1) sym_eq(ts[1], (r1[pick] - rfull) / 2 / (rfull / dfr), 1e-9, "phi1"); if (ty == 2) { sym_eq(ts[1], (r1[pick] - rfull) / 3 / (rfull / dfr), 1e-9, "phi2"); sym_eq(ts[2], (r2[pick] - rfull) / 2 / (rfull / dfr), 1e-9, "phi3"); }
  int row = n - 1 < 25 ? 0 : n - 1 < 50 ? 1 : n - 1 < 100 ? 2 : n - 1 < 250 ? 3 : n - 1 < 500 ? 4 : 5; sym_true(lt == ty + 1 && cr == ty + 1 && cc == 3, "shape"); for (int i = 0; i < 3; i++) { sym_eq(cv[i], ty == 0 ? T1[row][i] : ty == 1 ? T2[row][i] : T3[row][i], 1e-12, "critical value"); if (ty == 1) sym_eq(cv[3 + i], F1[row][i], 1e-12, "critical value"); if (ty == 2) { sym_eq(cv[3 + i], F2[row][i], 1e-12, "critical value"); sym_eq(cv[6 + i], F3[row][i], 1e-12, "critical value"); } }
  sym_eq(cp[0], 0.01, 0, "p"); sym_eq(cp[1], 0.05, 0, "p"); sym_eq(cp[2], 0.1, 0, "p"); free(z); free(t); free(Y); wipe(); } }
int main(int argc, char **argv) { int t = sym_tier(); const char *al[2] = {"stationary", "explosive"};
  for (int n = 10; n <= 40; n += 10) for (int l = -1; l < 4; l++) df(n, l, al[(n / 10 + l) & 1]); df(130, 2, al[0]); df(300, -1, al[1]); df(600, 1, al[0]);
  int ns = 2 + t;
  for (int tr = 0; tr < 2; tr++) for (int n = 6; n <= 30; n += 8) { kpss(n, tr, 1, -1, ns); kpss(n, tr, 0, 0, ns); kpss(n, tr, 1, 3, ns); kpss(n, tr, 1, 1, 1); } kpss(300, 1, 1, -1, 1); kpss(300, 0, 0, 0, 1); if (t) kpss(50000, 0, 1, 1, 1);
  for (int ta = 0; ta < 2; ta++) for (int n = 9; n <= 25; n += 8) { int k = ta ? 1 + t : ns; pp(n, ta, 1, -1, al[ta], k); pp(n, ta, 0, 0, al[1 - ta], k); pp(n, ta, 1, 3, al[ta], k); pp(n, ta, 1, 2, al[ta], 0); pp(n, ta, 0, -1, al[1 - ta], 0); } for (int ta = 0; ta < 2; ta++) { pp(300, ta, 1, -1, al[0], 1); if (t) pp(1500, ta, 1, 2, al[1], 1); }
  for (int q = 0; q < 4; q++) for (int n = 9; n <= 33; n = 2 * n - 1) { int ns = 2; /* n-1 a power of two: exact scaling, so square roots of equal quantities are recognised */ pp2(n, q & 1, q / 2, 1, -1, ns); pp2(n, q & 1, q / 2, 0, 0, ns); pp2(n, q & 1, q / 2, 1, 2, ns); } for (int q = 0; q < 4; q++) pp2(257, q & 1, q / 2, 1, -1, 1);
  for (int ty = 0; ty < 3; ty++) for (int l = -1; l < 4; l++) for (int n = 14; n < 40; n += 14) { df2(n, ty, l, "fixed"); if (l > 1) { df2(n, ty, l, "aic"); df2(n, ty, l, "bic"); } } for (int ty = 0; ty < 3; ty++) { df2(60, ty, 1, "fixed"); df2(120, ty, 2, "aic"); df2(260, ty, 0, "fixed"); df2(510, ty, 1, "fixed"); }
  return 0; }
