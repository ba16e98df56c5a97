/* P14: Burg estimates.  Each stage's reflection coefficient minimises the sum of the squared forward and backward prediction
 * errors given the earlier ones (checked on the residuals themselves, without the library's recursions). */
#include "sym.h"
#include "ctsa.h"
#include "initest.h"
/* forward/backward errors of a polynomial 1, a1..ak on x */
static double fwd(const double *x, const double *a, int k, int t) { double s = x[t]; for (int i = 1; i <= k; i++) s += a[i] * x[t - i]; return s; }
static double bwd(const double *x, const double *a, int k, int t) { double s = x[t - k]; for (int i = 1; i <= k; i++) s += a[i] * x[t - k + i]; return s; }
static void run(int N, int p, int ns, int sd) {
  SYM_CASE("burg N=%d p=%d symbolic=%d set=%d", N, p, ns, sd) {
    double *x = malloc(8 * N), *xk = malloc(8 * N), a[16] = {1}, ph[16], v, pb[16], vb, pc[16], va; sym_rseed(N * 5 + p + 11 * sd); for (int i = 0; i < N; i++) x[i] = (sym_rnd(65) - 32) / 16.0; for (int i = 0; i < ns; i++) { int k = (i * (N / (ns > 1 ? ns : 2)) + sd) % N; x[k] = sym_n("x", k, -1, 1) + x[k]; } if (!ns) { double sc = sym("scale", 0.5, 2); for (int i = 0; i < N; i++) x[i] *= sc; } memcpy(xk, x, 8 * N);
    burgalg(x, N, p, ph, &v); burg(x, N, p, pb, &vb); ar(x, N, p, 1, pc, &va); for (int i = 0; i < N; i++) sym_eq(x[i], xk[i], 0, "input untouched"); for (int i = 0; i < p; i++) { sym_eq(pb[i], ph[i], 1e-12, "burg"); sym_eq(pc[i], ph[i], 1e-12, "ar method 1"); } sym_eq(vb, v, 1e-12, "burg variance"); sym_eq(va, v, 1e-12, "ar variance");
    double ref = 0, dn = 0;
    for (int k = 0; k < p; k++) { double num = 0; dn = 0; for (int t = k + 1; t < N; t++) { double f = fwd(x, a, k, t), b = bwd(x, a, k, t - 1); num += f * b; dn += f * f + b * b; } double u = -2 * num / dn, n[16]; ref = dn * (1 - u * u) / (2.0 * (N - 1 - k)); n[0] = 1; for (int i = 1; i <= k; i++) n[i] = a[i] + u * a[k + 1 - i]; n[k + 1] = u; memcpy(a, n, 8 * (k + 2)); }
    for (int i = 0; i < p; i++) sym_eq(ph[i], -a[i + 1], 1e-7, "coefficient %d", i + 1); sym_eq(v, ref, 1e-7, "variance");
    double pa[16]; pacf_opt(x, N, 1, pa, p); sym_eq(pa[p - 1], ph[p - 1], 1e-12, "last partial autocorrelation is the last coefficient"); sym_eq(pa[0], -2 * 0 + pa[0], 0, "lag 1"); free(x); free(xk);
  }
}
int main(int argc, char **argv) { int t = sym_tier();
  for (int N = 3; N <= 7 + t; N++) { run(N, 1, N, 0); if (N > 3) for (int s = 0; s < N; s++) run(N, 2, 1, s); if (N > 3 && N < 7) { run(N, 2, 2, 1); run(N, 2, 3, 0); } if (N > 4) { run(N, 3, 1, 1); run(N, 3, 1, 2); } }
  for (int N = 8; N <= 16; N += 4) for (int p = 1; p <= 6; p++) run(N, p, p == 1 ? 4 : p == 2 ? 1 + t : 0, p);
  return 0; }
