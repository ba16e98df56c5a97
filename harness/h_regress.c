/* P08: linear regression: estimates, sums of squares, covariance, intervals, tests, prediction. */
#include "sym.h"
#include "regression.h"
#include "pdist.h"
#include "matrix.h"
static double f_x; static int f_k1, f_k2, f_n; static double f_v;
double stub_fcdf(double x, int k1, int k2) { f_x = x; f_k1 = k1; f_k2 = k2; f_n++; char nm[16]; sprintf(nm, "fcdf%d", f_n); f_v = sym(nm, 0, 1); return f_v; }
static double t_x[16]; static int t_df[16], t_n; static double t_v[16];
double stub_tcdf(double x, int df) { char nm[16]; sprintf(nm, "tcdf%d", t_n); t_x[t_n] = x; t_df[t_n] = df; t_v[t_n] = sym(nm, 0, 1); return t_v[t_n++]; }
static void common(reg_object o, const double *X, const double *y, const double *res, const double *vc, int N, int p, int ic, double alpha) {
  /* X: N x p design matrix, row major */
  double rss = 0, tss = 0, ym = 0, fit2 = 0; for (int i = 0; i < N; i++) ym += y[i] / N;
  for (int i = 0; i < N; i++) { double f = 0; for (int j = 0; j < p; j++) f += X[i * p + j] * o->beta[j].value; sym_eq(res[i], y[i] - f, 1e-8, "residual %d", i); }
  for (int j = 0; j < p; j++) { double g = 0; for (int i = 0; i < N; i++) g += X[i * p + j] * res[i]; sym_eq(g, 0, 1e-7, "normal equation %d", j); }
  for (int i = 0; i < N; i++) { rss += res[i] * res[i]; double c = y[i] - (ic ? ym : 0); tss += c * c; }
  sym_eq(o->sigma * (N - p), rss, 1e-6, "residual variance"); sym_true(o->df == N - p, "df"); sym_true(o->df_RSS == N - p && o->df_ESS == (ic ? p - 1 : p), "ANOVA df %d %d", o->df_ESS, o->df_RSS);
  sym_eq(o->RSS, rss, 1e-6, "RSS"); sym_eq(o->TSS, tss, 1e-6, "TSS"); sym_eq(o->ESS + o->RSS, o->TSS, 1e-6, "TSS=ESS+RSS");
  if (!(ic && p == 1)) { if (ic) sym_eq(o->r2 * tss, tss - rss, 1e-6, "R2"); else { double ms = 0, *fb = malloc(8 * N), *bb = malloc(8 * p); for (int j = 0; j < p; j++) bb[j] = o->beta[j].value; mmult((double *)X, bb, fb, N, p, 1); for (int i = 0; i < N; i++) ms += fb[i] * fb[i]; sym_eq(o->r2 * (ms + rss), ms, 1e-6, "R2"); sym_eq(ms, tss - rss, 1e-6, "explained SS"); } sym_eq((1 - o->r2adj) * (N - p), (1 - o->r2) * (N - ic), 1e-6, "adjusted R2"); sym_eq(o->r2, o->R2[0], 0, "R2 copy"); sym_eq(o->r2adj, o->R2[1], 0, "R2adj copy");
    sym_eq(o->FStat * (1 - o->r2) * o->df_ESS, o->r2 * o->df_RSS, 1e-6, "F statistic"); sym_true(f_n == 1 && f_k1 == o->df_ESS && f_k2 == o->df_RSS, "F test degrees of freedom %d,%d", f_k1, f_k2); sym_eq(f_x, o->FStat, 1e-9, "F test argument"); sym_eq(o->PVal, 1 - f_v, 1e-12, "p value"); }
  /* covariance: (X'X) * varcovar = sigma2 I, symmetric */
  for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { double s = 0; for (int k = 0; k < p; k++) { double xx = 0; for (int t = 0; t < N; t++) xx += X[t * p + i] * X[t * p + k]; s += xx * vc[k * p + j]; } sym_eq(s, i == j ? o->sigma : 0, 1e-6, "covariance %d,%d", i, j); }
  double tv = tinv(alpha / 2, N - p); for (int j = 0; j < p; j++) { bparam *b = o->beta + j; double h = b->upper - b->value; sym_eq(b->upper + b->lower, 2 * b->value, 1e-8, "interval centred %d", j); sym_eq(h * h, tv * tv * vc[j * p + j], 1e-6, "interval width %d", j); sym_eq(b->stdErr * b->stdErr, vc[j * p + j], 1e-7, "standard error %d", j); sym_le(b->lower, b->upper, 1e-9, "interval order %d", j); }
  sym_eq(o->sigma_lower * chiinv(1 - alpha / 2, N - p), o->sigma * (N - p), 1e-6, "sigma2 lower"); sym_eq(o->sigma_upper * chiinv(alpha / 2, N - p), o->sigma * (N - p), 1e-6, "sigma2 upper"); sym_true(o->alpha == alpha, "alpha kept");
  double ll = -(N / 2.0) * (log(2 * 3.14159265358979323846) + log(rss / N) + 1); sym_eq(o->loglik, ll, 1e-7, "log likelihood"); sym_eq(o->aic, -2 * ll + 2 * p, 1e-7, "AIC"); sym_eq(o->bic, -2 * ll + log((double)N) * p, 1e-7, "BIC");
  double *tval = malloc(8 * p), *pval = malloc(8 * p); t_n = 0; zerohyp_val(o, tval, pval); sym_true(t_n == p, "one t test each");
  for (int j = 0; j < p; j++) { sym_eq(tval[j] * o->beta[j].stdErr, fabs(o->beta[j].value), 1e-7, "t value %d", j); sym_eq(t_x[j] * t_x[j], tval[j] * tval[j], 1e-7, "t argument"); sym_le(0, t_x[j], 1e-9, "t argument sign"); sym_true(t_df[j] == N - p, "t df"); sym_eq(pval[j], 1 - t_v[j], 1e-12, "t p-value"); }
}
static void ydata(double *y, int N, int ns) { for (int i = 0; i < N; i++) y[i] = sym_runi(); for (int k = 0; k < ns; k++) { int i = (int)((long)k * N / ns); y[i] = sym_n("y", i, -1, 1); } y[N - 1] = 4; if (N > 3) y[N - 2] = -3; }
static void one(const char *m, int N, int p, int ic, int seed, int poly) {
  SYM_CASE("%s %s N=%d p=%d %s seed=%d", poly ? "poly" : "regress", m, N, p, ic ? "intercept" : "no intercept", seed) {
    int q = ic ? p - 1 : p; double *xi = malloc(8 * (poly ? N : N * q) + 8), *X = malloc(8 * N * p), *y = malloc(8 * N), *res = malloc(8 * N), *vc = malloc(8 * p * p), alpha = seed & 1 ? 0.1 : 0.05, *ky = malloc(8 * N); f_n = 0;
    sym_rseed(seed * 100 + N * 10 + p); if (poly) { for (int i = 0; i < N; i++) xi[i] = -1.3 + 2.9 * i / N + 0.1 * sym_runi(); } else for (int i = 0; i < N * q; i++) xi[i] = 2 * sym_runi() + (seed & 1 ? 0.7 : 0);
    for (int i = 0; i < N; i++) { int c = 0; if (ic) X[i * p + c++] = 1; for (int k = 0; k < q; k++) { double v = poly ? xi[i] : xi[k * N + i]; if (poly) for (int e = 0; e < k; e++) v *= xi[i]; X[i * p + c++] = v; } }
    ydata(y, N, p > 2 ? 3 : 4); memcpy(ky, y, 8 * N);
    reg_object o = reg_init(N, p); setIntercept(o, ic); setLLSMethod(o, (char *)m); if (poly) regress_poly(o, xi, y, res, vc, alpha); else regress(o, xi, y, res, vc, alpha);
    if (!strcmp(m, "qr")) sym_true(o->rank == p, "rank %d", o->rank);
    common(o, X, y, res, vc, N, p, ic, alpha); for (int i = 0; i < N; i++) sym_eq(y[i], ky[i], 0, "y preserved");
    if (!poly && q >= 1) { double *in = malloc(8 * q), var[2], e = 0, v = 0, z[8]; int c = 0; if (ic) z[c++] = 1; for (int k = 0; k < q; k++) z[c++] = in[k] = (k ? sym_runi() : sym("at", -2, 2)); double f = fitted(o, in, vc, var);
      for (int j = 0; j < p; j++) { e += z[j] * o->beta[j].value; for (int k = 0; k < p; k++) v += z[j] * vc[j * p + k] * z[k]; } sym_eq(f, e, 1e-8, "prediction"); sym_eq(var[0], v, 1e-7, "mean prediction variance"); sym_eq(var[1], v + o->sigma, 1e-7, "individual prediction variance"); }
    free_reg(o);
  }
}
int main(int argc, char **argv) {
  static const char *M[] = {"qr", "normal", "svd"};
  for (int m = 0; m < 3; m++) for (int ic = 0; ic < 2; ic++) for (int p = 1; p <= 4; p++) for (int N = p + 3; N <= (sym_tier() ? 20 : 14); N += 5) for (int s = 0; s < (sym_tier() ? 4 : 2); s++) { one(M[m], N, p, ic, s, 0); if (p - ic >= 1) one(M[m], N, p, ic, s, 1); }
  one("qr", 60, 3, 1, 0, 0); one("qr", 60, 5, 0, 1, 0); one("qr", 1010, 2, 1, 0, 0);
  for (int N = 4; N <= 1016; N += N == 12 ? 1004 : 4) for (int v = 0; v < (N > 99 ? 1 : 2); v++) SYM_CASE("clrm N=%d %s", N, v ? "x" : "y") {
    double *x = malloc(8 * N), *y = malloc(8 * N), *res = malloc(8 * N), b[2], var[5], an[7], lo[3], up[3], alpha = 0.05, xm = 0, ym = 0, sxx = 0, sx2 = 0, rss = 0, tss = 0; f_n = 0; sym_rseed(N); for (int i = 0; i < N; i++) x[i] = 2 * sym_runi(); if (v) { for (int i = 0; i < N; i++) y[i] = sym_runi(); x[0] = sym("x0", -1, 1); } else ydata(y, N, 4);
    linreg_clrm(x, y, N, b, var, res, alpha, an, lo, up); double g0 = 0, g1 = 0; for (int i = 0; i < N; i++) { xm += x[i] / N; ym += y[i] / N; sx2 += x[i] * x[i]; } for (int i = 0; i < N; i++) { sxx += (x[i] - xm) * (x[i] - xm); tss += (y[i] - ym) * (y[i] - ym); rss += res[i] * res[i]; g0 += res[i]; g1 += res[i] * x[i]; sym_eq(res[i], y[i] - b[0] - b[1] * x[i], 1e-9, "residual"); }
    sym_eq(g0, 0, 1e-7, "normal 0"); sym_eq(g1, 0, 1e-7, "normal 1"); sym_eq(var[0] * (N - 2), rss, 1e-6, "sigma2");
    sym_eq(var[2] * sxx, var[0], 1e-6, "var slope"); sym_eq(var[1] * N, var[2] * sx2, 1e-6, "var intercept"); sym_eq(var[3], -xm * var[2], 1e-7, "cov"); 
    if (!v) { sym_eq(var[4] * tss, tss - rss, 1e-6, "r2"); sym_eq(an[0], tss, 1e-7, "TSS"); sym_eq(an[2], rss, 1e-6, "RSS"); sym_eq(an[1], tss - rss, 1e-6, "ESS"); sym_true(an[3] == 1 && an[4] == N - 2, "df"); sym_eq(an[5] * rss, (tss - rss) * (N - 2), 1e-5, "F"); sym_true(f_n == 1 && f_k1 == 1 && f_k2 == N - 2, "F df"); sym_eq(an[6], 1 - f_v, 1e-12, "p");
      double tv = tinv(alpha / 2, N - 2); for (int j = 0; j < 2; j++) { double h = up[j] - b[j]; sym_eq(up[j] + lo[j], 2 * b[j], 1e-8, "centred"); sym_eq(h * h, tv * tv * var[1 + j], 1e-6, "width"); sym_le(lo[j], up[j], 1e-9, "order"); } sym_eq(lo[2] * chiinv(1 - alpha / 2, N - 2), rss, 1e-6, "sigma lo"); sym_eq(up[2] * chiinv(alpha / 2, N - 2), rss, 1e-6, "sigma up");
      double tval[2], pval[2]; t_n = 0; zerohyp_clrm(N, b, var, tval, pval); for (int j = 0; j < 2; j++) { sym_eq(tval[j] * tval[j] * var[1 + j], b[j] * b[j], 1e-6, "t"); sym_eq(pval[j], 1 - t_v[j], 1e-12, "tp"); sym_true(t_df[j] == N - 2, "t df"); } }
  }
  return 0;
}
