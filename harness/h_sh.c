/* P18: strength of seasonality: 1 - var(remainder)/var(remainder + seasonal), limited to [0,1], for every period of the decomposition. */
#include "sym.h"
#include "seastest.h"
static int N, NF, used; static double X[40], R[40], S[3][40]; static int F[3];
void stub_mstl(double *x, int n, int *f, int *ns, int *sw, double *lam, int *it, double **se, double *tr, double *re) { sym_true(n == N && *ns == NF && !sw && !lam && !it, "decomposition options"); for (int i = 0; i < NF; i++) sym_true(f[i] == F[i], "period %d", i); for (int i = 0; i < n; i++) { sym_eq(x[i], X[i], 0, "series"); re[i] = R[i]; tr[i] = i; for (int j = 0; j < used; j++) se[j][i] = S[j][i]; } *ns = used; }
static double vr(const double *a) { double m = 0, v = 0; for (int i = 0; i < N; i++) m += a[i]; m /= N; for (int i = 0; i < N; i++) v += (a[i] - m) * (a[i] - m); return v; }
static void sh(int n, int nf, int u, int seed) { SYM_CASE("strength N=%d periods %d used %d seed %d", n, nf, u, seed) { N = n; NF = nf; used = u; sym_rseed(seed * 5 + n); for (int j = 0; j < 3; j++) F[j] = j + 2; for (int i = 0; i < n; i++) { X[i] = i; R[i] = (sym_rnd(17) - 8) / 8.0; for (int j = 0; j < 3; j++) S[j][i] = (seed % 3 ? 1 : -1) * (sym_rnd(17) - 8) / (4.0 * (j + 1)) - (seed % 3 == 1 ? R[i] : 0); } R[1] = sym("r", -1, 1); for (int j = 0; j < u; j++) S[j][n - 2] = sym_n("s", j, -2, 2);
  double k[40], out[3] = {9, 9, 9}; memcpy(k, X, 8 * n); SHtest(X, n, F, nf, out); for (int i = 0; i < n; i++) sym_eq(X[i], k[i], 0, "series kept"); double a = vr(R); for (int j = 0; j < u; j++) { double v[40]; for (int i = 0; i < n; i++) v[i] = R[i] + S[j][i]; double b = vr(v); if (a > b) sym_eq(out[j], 0, 1e-9, "no strength %d", j); else sym_eq(out[j] * b, b - a, 1e-7, "strength %d", j); sym_true(out[j] >= -1e-12 && out[j] <= 1 + 1e-12, "range %d", j); } } }
int main(int argc, char **argv) { for (int s = 0; s < (sym_tier() ? 12 : 6); s++) { sh(6, 1, 1, s); sh(8, 2, 2, s); sh(8, 2, 1, s); sh(15, 3, 3, s); sh(7, 1, 0, s); } return 0; }
