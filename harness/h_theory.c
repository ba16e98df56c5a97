/* P29: ARMA theory: psi/pi weights, theoretical autocovariances, stationarity-preserving transform, root checks. */
#include "sym.h"
#include "talg.h"
#include "polyroot.h"
static double rr[16], ri[16]; static int nr; static double lastc[17]; static int lastdeg;
/* like the real one, fails on zero leading coefficients and then leaves the roots alone */
int stub_polyroot(double *coeff, int deg, double *zr, double *zi) { lastdeg = deg; for (int i = 0; i <= deg && i < 17; i++) lastc[i] = coeff[i]; if (deg != nr) return 1; for (int i = 0; i < deg; i++) { zr[i] = rr[i]; zi[i] = ri[i]; } return 0; }
/* stationary AR coefficients from arbitrary partial autocorrelations */
static void parcor(const double *pc, int p, double *phi) { double t[8]; for (int k = 0; k < p; k++) { for (int j = 0; j < k; j++) t[j] = phi[j] - pc[k] * phi[k - 1 - j]; for (int j = 0; j < k; j++) phi[j] = t[j]; phi[k] = pc[k]; } }
static double psi_ref(const double *phi, const double *th, int p, int q, double *psi, int n) { for (int i = 0; i < n; i++) { psi[i] = i == 0 ? 1 : i <= q ? th[i - 1] : 0; for (int k = 1; k <= p && k <= i; k++) psi[i] += phi[k - 1] * psi[i - k]; } return 0; }
int main(int argc, char **argv) {
  int t = sym_tier();
  for (int p = 0; p <= (t ? 4 : 3); p++) for (int q = 0; q <= (t ? 4 : 3); q++) for (int n = 1; n <= (t ? 9 : 7); n += 2) SYM_CASE("weights p=%d q=%d n=%d", p, q, n) {
    double *phi = malloc(8 * p + 8), *th = malloc(8 * q + 8), *psi = malloc(8 * n), *pi = malloc(8 * n); sym_arr(phi, p, "phi", -1, 1); sym_arr(th, q, "theta", -1, 1); psiweight(phi, th, psi, p, q, n); piweight(phi, th, pi, p, q, n);
    for (int i = 0; i < n; i++) { double a = psi[i], b = pi[i], c = 0; for (int k = 1; k <= p && k <= i; k++) a -= phi[k - 1] * psi[i - k]; sym_eq(a, i == 0 ? 1 : i <= q ? th[i - 1] : 0, 1e-9, "phi*psi=theta %d", i); for (int k = 1; k <= q && k <= i; k++) b += th[k - 1] * pi[i - k]; sym_eq(b, i == 0 ? 1 : i <= p ? -phi[i - 1] : 0, 1e-9, "theta*pi=phi %d", i); }
  }
  for (int p = 0; p <= 4; p++) for (int q = 0; q <= 3; q++) for (int sd = 0; sd < (p > 2 ? 3 : 1); sd++) SYM_CASE("autocovariance p=%d q=%d seed=%d", p, q, sd) {
    double phi[5], pc[5], th[4], v = sym("var", 0.5, 2), psi[4]; int lag = (p > q ? p : q) + 4; double *g = malloc(8 * lag); sym_rseed(p * 7 + q + 100 * sd); for (int i = 0; i < p; i++) pc[i] = p <= 2 || (t && i == 0 && sd == 2 && p == 3) ? sym_n("pc", i, -0.8, 0.8) : 0.7 * sym_runi(); for (int i = 0; i < q; i++) th[i] = sym_n("theta", i, -1, 1); parcor(pc, p, phi);
    arma_autocovar(phi, th, p, q, v, g, lag); psi_ref(phi, th, p, q, psi, q + 1);
    for (int k = 0; k < lag; k++) { double l = g[k], r = 0; for (int j = 1; j <= p; j++) l -= phi[j - 1] * g[abs(k - j)]; for (int j = k; j <= q; j++) r += v * (j == 0 ? 1 : th[j - 1]) * psi[j - k]; sym_eq(l, r, 1e-7, "Yule-Walker lag %d", k); }
  }
  for (int p = 0; p <= 4; p++) for (int q = 0; q <= 3; q++) for (int sd = 0; sd < (p > 2 ? 3 : 1); sd++) SYM_CASE("twacf p=%d q=%d seed=%d", p, q, sd) {
    double phi[5], pc[5], th[4], tm[4], psi[4]; int mx = p > q ? p : q, ma = mx + 4; double *acf = malloc(8 * ma), *cv = malloc(8 * (mx + 1)), *al = malloc(8 * mx + 8); sym_rseed(p * 7 + q + 100 * sd); for (int i = 0; i < p; i++) pc[i] = p <= 2 || (t && i == 0 && sd == 2 && p == 3) ? sym_n("pc", i, -0.8, 0.8) : 0.7 * sym_runi(); for (int i = 0; i < q; i++) { th[i] = sym_n("theta", i, -1, 1); tm[i] = -th[i]; } parcor(pc, p, phi);
    int f = twacf(phi, p, th, q, acf, ma, cv, mx + 1, al, mx); sym_true(f == 0, "ifault %d", f); psi_ref(phi, tm, p, q, psi, q + 1);
    for (int k = 0; k < ma; k++) { double l = acf[k], r = 0; for (int j = 1; j <= p; j++) l -= phi[j - 1] * acf[abs(k - j)]; for (int j = k; j <= q; j++) r += (j == 0 ? 1 : tm[j - 1]) * psi[j - k]; sym_eq(l, r, 1e-7, "Yule-Walker lag %d", k); }
    for (int k = 0; k <= q; k++) sym_eq(cv[k], psi[k], 1e-8, "cross covariance %d", k); for (int k = q + 1; k <= mx && q; k++) ;
    if (p) { double a2[8]; memcpy(al, phi, 0); double ph2[5]; memcpy(ph2, phi, sizeof ph2); ph2[p - 1] = 1.5; int mx2 = mx; f = twacf(ph2, p, th, q, acf, ma, cv, mx + 1, al, mx2); sym_true(p == 1 || 1 ? f == 5 : 1, "non-stationary parameters are rejected"); }
  }
  for (int p = 1; p <= (t ? 5 : 4); p++) SYM_CASE("transform p=%d", p) {
    double *raw = malloc(8 * p), *k = malloc(8 * p), *nw = malloc(8 * p), *bk = malloc(8 * p), pc[8], phi[8]; sym_arr(raw, p, "raw", -2, 2); memcpy(k, raw, 8 * p); artrans(p, raw, nw); for (int i = 0; i < p; i++) pc[i] = tanh(k[i]); parcor(pc, p, phi); for (int i = 0; i < p; i++) { sym_eq(nw[i], phi[i], 1e-9, "coefficients from tanh parcor %d", i); sym_eq(raw[i], k[i], 0, "input kept"); }
    if (p <= 3) { arinvtrans(p, nw, bk); for (int i = 0; i < p; i++) sym_eq(bk[i], raw[i], 1e-6, "inverse %d", i); }
  }
  for (int c = 0; c < 16; c++) { int p = c & 1 ? 2 : 0, q = c & 2 ? 1 : 0, P = c & 4 ? 1 : 0, Q = c & 8 ? 2 : 0, n = p + q + P + Q; if (n) SYM_CASE("transform all p=%d q=%d P=%d Q=%d", p, q, P, Q) {
    double *raw = malloc(8 * n), *nw = malloc(8 * n), *bk = malloc(8 * n), e[8]; sym_arr(raw, n, "raw", -2, 2); transall(p, q, P, Q, raw, nw); invtransall(p, q, P, Q, nw, bk); int o = 0, L[] = {p, q, P, Q}; for (int b = 0; b < 4; o += L[b++]) { double pc[4], phi[4]; for (int i = 0; i < L[b]; i++) pc[i] = tanh(raw[o + i]); parcor(pc, L[b], phi); for (int i = 0; i < L[b]; i++) { sym_eq(nw[o + i], phi[i], 1e-9, "block %d coefficient %d", b, i); sym_eq(bk[o + i], raw[o + i], 1e-6, "block %d inverse %d", b, i); } } } }
  /* root checks: real roots and complex pairs chosen arbitrarily; the root finder is replaced by them */
  static const int KIND[][3] = {{1,0,0},{2,0,0},{0,1,0},{3,0,0},{1,1,0},{2,1,1},{0,2,1}}; /* real roots, complex pairs, thorough only */
  for (int c = 0; c < 7; c++) for (int z = 0; z < 2; z++) for (int inv = 0; inv < 2; inv++) if (t || !KIND[c][2]) SYM_CASE("%s real=%d pairs=%d trailing zeros=%d", inv ? "invertroot" : "archeck", KIND[c][0], KIND[c][1], z * 2) {
    int a = KIND[c][0], b = KIND[c][1], n = a + 2 * b, q = n + 2 * z; nr = n; double cr[9] = {1}, *ma = malloc(8 * q), *k = malloc(8 * q), er[9] = {1}; int out = 0;
    for (int i = 0; i < a; i++) { int sg = sym_choice("sign", 0, 1), small = sym_choice("small", 0, 1); double m = sym_n(small ? "in" : "out", i, small ? 0.2 : 1.001, small ? 0.999 : 3); rr[i] = sg ? -m : m; ri[i] = 0; out |= small; for (int j = i + 1; j >= 1; j--) cr[j] = cr[j] - cr[j - 1] / rr[i]; double e = small ? 1 / rr[i] : rr[i]; for (int j = i + 1; j >= 1; j--) er[j] = er[j] - er[j - 1] / e; }
    for (int i = 0; i < b; i++) { int small = sym_choice("csmall", 0, 1), d = a + 2 * i; double s = small ? 0.5 : 1.5, u = sym_n("re", i, 0.3, 0.6) * s, w = sym_n("im", i, 0.85, 1.1) * s, m = u * u + w * w; rr[d] = rr[d + 1] = u; ri[d] = w; ri[d + 1] = -w; out |= small; for (int j = d + 2; j >= 1; j--) cr[j] = cr[j] - cr[j - 1] * 2 * u / m + (j >= 2 ? cr[j - 2] / m : 0); double f1 = small ? 2 * u : 2 * u / m, f2 = small ? m : 1 / m; for (int j = d + 2; j >= 1; j--) er[j] = er[j] - er[j - 1] * f1 + (j >= 2 ? er[j - 2] * f2 : 0); }
    for (int i = 0; i < q; i++) k[i] = ma[i] = i < n ? (inv ? cr[i + 1] : -cr[i + 1]) : 0;
    if (inv) { int r = invertroot(q, ma); sym_true(!!r == !!out, "reports inversion %d", r); for (int i = 0; i < q; i++) sym_eq(ma[i], out ? (i < n ? er[i + 1] : 0) : k[i], 1e-7, "coefficient %d", i); }
    else { int r = archeck(q, ma); sym_true(r == !out, "stationary %d", r); for (int i = 0; i < q; i++) sym_eq(ma[i], k[i], 0, "input kept"); }
    for (int i = 0; i <= n; i++) sym_eq(lastc[i], cr[i], 1e-9, "polynomial passed on %d", i);
  }
  SYM_CASE("zero polynomials") { double z[4] = {0, 0, 0, 0}; nr = -1; sym_true(invertroot(3, z) == 0, "nothing to invert"); sym_true(archeck(3, z) == 1, "white noise is stationary"); }
  return 0;
}
