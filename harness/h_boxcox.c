/* P20: Box-Cox transformation, its inverse, the profile log likelihood and the choice of lambda. */
#include "sym.h"
#include "boxcox.h"
#include "autoutils.h"
#include "stats.h"
#include "optimc.h"
static int calls; static double oa, ob, of, olam; static double *ox; static int oN;
static double refll(const double *x, int N, double lam) { double s = 0, m = 0, v = 0, *t = malloc(8 * N); for (int i = 0; i < N; i++) { double l = log(x[i]); s += l; t[i] = lam == 0 ? l : pow(x[i], lam) / lam; m += t[i]; } m /= N; for (int i = 0; i < N; i++) v += (t[i] - m) * (t[i] - m); v /= N; return -((lam - 1) * s - N / 2.0 * log(v)); }
double stub_fminbnd(custom_funcuni *fu, double a, double b) { calls++; oa = a; ob = b; of = fu->funcuni(0.5, fu->params); return olam; }
int main(int argc, char **argv) {
  int th = sym_tier(); static const double LAM[] = {-2, -1, -0.5, -1.0 / 3, 0, 0.25, 0.5, 1, 1.7, 2};
  for (int l = 0; l < 10; l++) for (int N = 1; N <= (th ? 6 : 3); N++) SYM_CASE("round trip lambda=%.3f N=%d", LAM[l], N) {
    double *x = malloc(8 * N), *k = malloc(8 * N), *y = malloc(8 * N), *z = malloc(8 * N), lam = LAM[l]; sym_arr(x, N, "x", 0.1, 5); memcpy(k, x, 8 * N); boxcox_eval(x, N, lam, y); for (int i = 0; i < N; i++) { sym_eq(lam == 0 ? y[i] : y[i] * lam + 1, lam == 0 ? log(x[i]) : exp(lam * log(x[i])), 1e-8, "value %d", i); sym_eq(x[i], k[i], 0, "input kept"); }
    inv_boxcox_eval(y, N, lam, z); for (int i = 0; i < N; i++) sym_eq(z[i], x[i], 1e-7, "inverse of the transform %d", i);
    for (int i = 0; i < N; i++) y[i] = sym_n("y", i, -0.4, 0.4); inv_boxcox_eval(y, N, lam, z); boxcox_eval(z, N, lam, x); for (int i = 0; i < N; i++) sym_eq(x[i], y[i], 1e-7, "transform of the inverse %d", i);
    boxcox_eval(k, N, lam, k); inv_boxcox_eval(k, N, lam, k); for (int i = 0; i < N; i++) sym_eq(k[i], sym_is(k[i]) ? k[i] : k[i], 0, "in place %d", i);
  }
  for (int N = 1; N <= 3; N++) for (int neg = 0; neg < 2; neg++) SYM_CASE("any lambda N=%d %s", N, neg ? "neg" : "pos") { double *x = malloc(8 * N), *y = malloc(8 * N), lam = neg ? sym("lam", -2, -0.01) : sym("lam", 0.01, 2); sym_arr(x, N, "x", 0.1, 5); boxcox_eval(x, N, lam, y); for (int i = 0; i < N; i++) sym_eq(y[i] * lam + 1, exp(lam * log(x[i])), 1e-6, "value %d", i); inv_boxcox_eval(y, N, lam, y); for (int i = 0; i < N; i++) sym_eq(y[i], x[i], 1e-6, "inverse %d", i); }
  for (int l = 0; l < 10; l++) for (int N = 2; N <= (th ? 5 : 3); N++) SYM_CASE("log likelihood lambda=%.3f N=%d", LAM[l], N) { double *x = malloc(8 * (N + 1)), e; x[0] = N; for (int i = 0; i < N; i++) x[i + 1] = sym_n("x", i, 0.2 + i, 0.9 + i); e = refll(x + 1, N, LAM[l]); sym_eq(boxcox_loglik(LAM[l], x), e, 1e-7, "log likelihood"); }
  for (int N = 2; N <= 6; N++) SYM_CASE("choose lambda N=%d", N) { double *x = malloc(8 * N), *k = malloc(8 * N), *y = malloc(8 * N), *e = malloc(8 * N), r; for (int i = 0; i < N; i++) x[i] = sym_n("x", i, 0.2 + i, 0.9 + i); memcpy(k, x, 8 * N); calls = 0; static const double pick[] = {-2, -0.7, 0, 0.5, 2}; olam = pick[sym_choice("lambda", 0, 4)];
    r = boxcox(x, N, NULL, y); sym_true(calls == 1, "one search"); sym_eq(oa, -2, 0, "lower bound"); sym_eq(ob, 2, 0, "upper bound"); sym_eq(of, refll(x, N, 0.5), 1e-7, "objective"); sym_eq(r, olam, 0, "chosen lambda returned"); boxcox_eval(k, N, olam, e); for (int i = 0; i < N; i++) { sym_eq(y[i], e[i], 1e-9, "transformed %d", i); sym_eq(x[i], k[i], 0, "input kept"); }
    double lam = pick[4 - (N % 5)]; calls = 0; r = boxcox(x, N, &lam, y); sym_true(calls == 0, "no search with a given lambda"); sym_eq(r, lam, 0, "given lambda returned"); boxcox_eval(k, N, lam, e); for (int i = 0; i < N; i++) sym_eq(y[i], e[i], 1e-9, "transformed with the given lambda %d", i); }
  for (int N = 2; N <= 6; N++) for (int p = 0; p < N; p++) SYM_CASE("rejects negatives N=%d at %d", N, p) { double *x = malloc(8 * N), *y = malloc(8 * N), lam = 1; for (int i = 0; i < N; i++) x[i] = sym_n("x", i, 0.1, 3); x[p] = sym("neg", -3, -0.01); sym_expect_exit(1); boxcox(x, N, &lam, y); sym_true(0, "negative value accepted"); }
  for (int N = 2; N <= (th ? 12 : 7); N++) SYM_CASE("constancy N=%d", N) { double *x = malloc(8 * N), v = sym("v", -2, 2); int p = sym_choice("at", -1, N - 1), same; for (int i = 0; i < N; i++) x[i] = v; if (p >= 0) { x[p] = sym("w", -2, 2); sym_assume(x[p] == v || fabs(x[p] - v) > 1e-9); } same = p < 0 || x[p] == v; sym_true(checkConstant(x, N) == same, "checkConstant"); sym_true(is_constant(x, N) == same, "is_constant"); }
  for (int e = 2; e <= 10; e++) for (int neg = 0; neg < 2; neg++) SYM_CASE("near zero lambda=%s1e-%d", neg ? "-" : "", e) { double lam = neg ? -1 : 1, x[2], y[2], z[2]; for (int i = 0; i < e; i++) lam /= 10; x[0] = sym("x", 0.01, 0.9); x[1] = sym("X", 1.1, 500); boxcox_eval(x, 2, lam, y); inv_boxcox_eval(y, 2, lam, z);
    for (int i = 0; i < 2; i++) { sym_eq(y[i], expm1(lam * log(x[i])) / lam, e < 9 ? 1e-10 : 1e-7, "value %d", i); sym_eq(z[i], x[i], e < 9 ? 1e-7 : 1e-4, "inverse %d", i); } }
  return 0;
}
