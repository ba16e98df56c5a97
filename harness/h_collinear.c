/* P13: regressors that are collinear after differencing are refused (status 7), whatever the fitting method; others are not.
 * rank() is replaced by one that checks it is given the differenced regressors and answers either way. */
#include "sym.h"
#include "ctsa.h"
#include "regression.h"
#include "optimc.h"
#include "newtonmin.h"
#include "arma_ref.h"
static double *Y, *X, *Wx; static int N, nw, nc, R, nrank, nopt;
int stub_rank(double *A, int m, int n) {
  nrank++; sym_true((m == nc && n == nw) || (m == nw && n == nc), "shape %d x %d given to rank", m, n); if (!(m == nc && n == nw)) { sym_true(nc == 1 || nw == 1 || m != nw, "regressors are stored by column"); return R; }
  for (int j = 0; j < nc; j++) for (int i = 0; i < nw; i++) sym_eq(A[j * nw + i], Wx[j * nw + i], 1e-9, "differenced regressor %d", j); return R;
}
int stub_fminunc(custom_function *f, custom_gradient *g, int n, double *xi, double mx, int me, double *xf) { nopt++; for (int i = 0; i < n; i++) xf[i] = 0.1; FUNCPT_EVAL(f, xf, n); return 1; }
int stub_hessian_fd(custom_function *f, double *x, int n, double *dx, double eps, double *h) { for (int i = 0; i < n * n; i++) h[i] = i % (n + 1) ? 0 : 2; return 0; }
void stub_regress(reg_object o, double *x, double *y, double *res, double *vc, double a) {
  sym_true(o->N == nw && o->p == nc, "starting regression is of the differenced series"); for (int i = 0; i < nw * nc && o->N == nw && o->p == nc; i++) sym_eq(x[i], Wx[i], 1e-9, "starting regression uses the differenced regressors");
  for (int i = 0; i < o->p; i++) { (o->beta + i)->value = 0.1 * i; (o->beta + i)->stdErr = 1; } for (int i = 0; i < o->N; i++) res[i] = 0; }
static void run(int d, int D, int s, int r, int imean, int meth, int def, int p) {
  N = 12 + d + D * s;
  SYM_CASE("sarimax d=%d D=%d s=%d r=%d mean=%d method=%d %s p=%d", d, D, s, r, imean, meth, def ? "collinear" : "independent", p) {
    double dl[40]; int k = ref_dpoly(d, D, s, dl), mean = k == 0 && imean; nw = N - k; nc = r + mean; R = def ? nc - 1 : nc; nrank = nopt = 0; Y = malloc(8 * N); X = malloc(8 * N * r); Wx = calloc(nw * nc, 8);
    for (int i = 0; i < N; i++) Y[i] = sym_n("y", i, -1, 1) + i % 4; for (int i = 0; i < N * r; i++) X[i] = sym_n("x", i, -1, 1);
    for (int i = 0; i < nw; i++) { if (mean) Wx[i] = 1; for (int c = 0; c < r; c++) { double a = 0; for (int j = 0; j <= k; j++) a += dl[j] * X[c * N + k + i - j]; Wx[(c + mean) * nw + i] = a; } }
    sarimax_object o = sarimax_init(p, d, 1, 0, D, 0, s, r, imean, N); sarimax_setMethod(o, meth); sarimax_exec(o, Y, X);
    sym_true(nrank > 0, "collinearity examined"); if (def) { sym_true(o->retval == 7, "collinear regressors refused, status %d", o->retval); sym_true(nopt == 0, "no fit"); } else { sym_true(o->retval == 1, "status %d", o->retval); sym_true(nopt == (meth ? 1 : 2), "fits"); }
    free(Y); free(X); free(Wx);
  }
}
int main(int argc, char **argv) {
  for (int D = 0; D < 3; D++) for (int d = 0; d < 3; d++) for (int r = 1; r < 4; r++) for (int im = 0; im < 2; im++) for (int me = 0; me < 3; me++) for (int df = 0; df < 2; df++) { int s = 2 + (r + d + D) % 3; if (d + D < 3 || sym_tier()) run(d, D, s, r, im, me, df, (d + r + me) % 2); }
  return 0;
}
