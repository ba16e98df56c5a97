/* P17: the number of differences follows from the outcomes of the unit root / seasonality tests on the successively differenced series.
 * The tests are replaced: they check the series and options they get and return arbitrary statistics, critical values and p-values. */
#include "sym.h"
#include "ctsa.h"
#include "autoutils.h"
#include "arma_ref.h"
#include "seastest.h"
static double *Y, al; static int N, F, seas, tr, which, NC, more[12]; static double ps[12];
static void look(double *x, int n) { double dl[80]; int k = seas ? ref_dpoly(0, NC, F, dl) : ref_dpoly(NC, 0, 1, dl); sym_true(n == N - k, "test %d sees %d values", NC, n); for (int i = 0; i < n; i++) { double w = 0; for (int j = 0; j <= k; j++) w += dl[j] * Y[i + k - j]; sym_eq(x[i], w, 1e-9, "test %d sees the %d times differenced series", NC, NC); } }
static double pof(void) { if (NC < 3) return ps[NC]; return 0.5; }
void stub_ur_kpss(double *y, int n, const char *type, int lshort, int *klag, double *st, double *pv) { look(y, n); sym_true(which == 0 && !strcmp(type, tr ? "trend" : "level"), "kpss type"); sym_true(lshort == 1 && (klag == NULL ? 0 : *klag == (int)floor(3 * sqrt((double)n) / 13) || (*klag <= 0 && n < 19)), "kpss lag"); *st = 0.3; *pv = pof(); more[NC] = *pv < al; NC++; }
static double cv[3] = {-3.5, -2.875, -2.5}; static const double cp[3] = {0.01, 0.05, 0.1};
static double pval(double st) { if (st <= cv[0]) return cp[0]; for (int i = 1; i < 3; i++) if (st <= cv[i]) return cp[i - 1] + (cp[i] - cp[i - 1]) * ((st - cv[i - 1]) / (cv[i] - cv[i - 1])); return cp[2]; }
static int gt(double st) { double p = pval(st); sym_assume(!(fabs(p - al) < 1e-6)); return p > al; }
void stub_ur_df2(double *y, int n, const char *type, int *lags, const char *sel, double *c, int *cr, int *cc, double *cb, double *ts, int *lt) { look(y, n); sym_true(which == 1 && !strcmp(type, tr ? "trend" : "drift"), "df type"); sym_true((lags == NULL || *lags == 1) && !strcmp(sel, "fixed"), "df lag"); for (int i = 0; i < 3; i++) c[i] = cv[i], cb[i] = cp[i]; for (int i = 3; i < 6 + 3 * tr; i++) c[i] = 5; *cr = 2 + tr; *cc = 3; *lt = 2 + tr; ts[0] = NC < 3 ? ps[NC] : 0; ts[1] = 9; if (tr) ts[2] = 9; more[NC] = gt(ts[0]); NC++; }
void stub_ur_pp2(double *y, int n, const char *type, const char *model, int lshort, int *klag, double *c, double *cb, double *ax, int *la, double *ts) { look(y, n); sym_true(which == 2 && !strcmp(type, "Z-tau") && !strcmp(model, tr ? "trend" : "constant") && lshort == 1 && (klag == NULL || *klag <= 0), "pp options"); for (int i = 0; i < 3; i++) c[i] = cv[i], cb[i] = cp[i]; *la = 1; ax[0] = 7; *ts = NC < 3 ? ps[NC] : 0; more[NC] = gt(*ts); NC++; }
void stub_OCSBtest(double *x, int n, int f, int ml, const char *m, double *st, double *cr) { look(x, n); sym_true(which == 3 && f == F && ml == 3 && !strcmp(m, "aic"), "ocsb options"); *st = NC < 3 ? ps[NC] : 0; *cr = -1.75 + 0.25 * NC; more[NC] = *st > *cr; NC++; }
void stub_SHtest(double *x, int n, int *f, int ns, double *s) { look(x, n); sym_true(which == 4 && *f == F && ns == 1, "strength options"); s[0] = NC < 3 ? ps[NC] : 0; more[NC] = s[0] > 0.64; NC++; }
static void nd(int n, int w, int t, int ai, int md) { static const char *nm[4] = {"kpss", "df", "pp", "adf"}; static const double av[6] = {0.05, 0.01, 0.0625, 0.1, 0.2, 0.001}; SYM_CASE("ndiffs N=%d %s %s alpha=%d max=%d", n, nm[w], t ? "trend" : "level", ai, md) {
  N = n; seas = 0; tr = t; which = w == 3 ? 1 : w; NC = 0; F = 1; Y = malloc(8 * n); double a = ai < 0 || ai > 5 ? 0.05 : av[ai]; for (int i = 0; i < n; i++) Y[i] = (i * i * i) % 7 + i % 2 * 3 + (i > 3 && i < 6 ? sym_n("y", i, 0, 0.25) : 0); for (int i = 0; i < 3; i++) ps[i] = sym_n(which ? "stat" : "p", i, which ? -4.5 : 0.01, which ? -1.5 : 0.1); al = ai == 4 ? 0.1 : ai == 5 ? 0.01 : a; if (ai == 6) al = a = sym("alpha", 0.02, 0.09);
  int d = ndiffs(Y, n, ai < 0 ? NULL : &a, nm[w], t ? "trend" : "level", md < 0 ? NULL : &md), M = md < 0 ? 2 : md, r = 0; sym_true(NC >= 1, "tested"); while (r < M && r < NC && more[r]) r++; sym_true(d == r, "differenced %d times, tests ask for %d", d, r); sym_true(NC >= (r < M ? r + 1 : r), "every level tested"); free(Y); } }
static void ns(int n, int f, int w, int md) { SYM_CASE("nsdiffs N=%d f=%d %s max=%d", n, f, w ? "seas" : "ocsb", md) {
  N = n; seas = 1; which = 3 + w; NC = 0; F = f; Y = malloc(8 * n); for (int i = 0; i < n; i++) Y[i] = (i * i * i) % 7 + i % f * 3 + i * i % 11 + (i > 3 && i < 6 ? sym_n("y", i, 0, 0.25) : 0); for (int i = 0; i < 3; i++) ps[i] = sym_n("stat", i, w ? 0 : -4, w ? 1 : 1);
  int d = nsdiffs(Y, n, f, NULL, w ? "seas" : "ocsb", md < 0 ? NULL : &md), M = md < 0 ? 1 : md, r = 0; sym_true(NC >= 1, "tested"); while (r < M && r < NC && more[r]) r++; sym_true(d == r, "differenced %d times, tests ask for %d", d, r); free(Y); } }
/* a series that becomes constant is not tested or differenced further */
static void cst(int n, int deg, int f, int w) { static const char *nm[5] = {"kpss", "df", "pp", "ocsb", "seas"}; SYM_CASE("constant after %d differences N=%d f=%d %s", deg, n, f, nm[w]) {
  N = n; seas = w > 2; which = w; NC = 0; F = f; tr = 0; al = 0.05; Y = malloc(8 * n); for (int i = 0; i < n; i++) Y[i] = deg == 0 ? 3 : seas ? i % f * 2 + (deg == 2 ? (i / f) * 5 : i * 0) + (deg == 1 ? i : 0) : deg == 1 ? 2 * i + 1 : i * i; for (int i = 0; i < 3; i++) ps[i] = w == 0 ? 0.01 : w < 3 ? -1.5 : 1; int md = 4; if (deg == 2 && seas) for (int i = 0; i < n; i++) Y[i] += (i / f) * (i / f);
  int d = seas ? nsdiffs(Y, n, f, NULL, nm[w], &md) : ndiffs(Y, n, NULL, nm[w], "level", &md); sym_true(d == deg, "%d differences, constant after %d", d, deg); sym_true(NC == deg, "%d tests", NC); free(Y); } }
int main(int argc, char **argv) { int t = sym_tier(); (void)t;
  for (int k = 0; k < 6; k++) nd((int[]){12, 18, 19, 20, 75, 76}[k], 0, k & 1, -1, k % 3);
  for (int w = 0; w < 4; w++) for (int tr_ = 0; tr_ < 2; tr_++) for (int ai = -1; ai < 7; ai++) for (int md = -1; md < 4; md++) if (md < 2 || ((ai + md + w) & 1)) nd(md > 2 ? 60 : 24, w, tr_, ai, md);
  for (int f = 2; f <= 12; f += 5) for (int w = 0; w < 2; w++) for (int md = -1; md < 4; md++) ns(f * 5 + 3, f, w, md);
  for (int w = 0; w < 5; w++) for (int deg = 0; deg < 3; deg++) cst(24, deg, w > 2 ? 4 : 1, w);
  return 0; }
