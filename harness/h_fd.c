/* P23: finite-difference derivatives are exact on affine / quadratic objectives with arbitrary coefficients, whatever the
 * point and the scales, with a step relative to max(|x|, typical size); user supplied gradients are used when given. */
#include "sym.h"
#include "lnsrchmp.h"
#include "newtonmin.h"
static int n; static double c0, g[4], H[16], G[16], X[4]; static int nf, ng, bad;
static double quad(double *x, int N, void *p) { double s = c0; nf++; sym_true(N == n && p == (void *)g, "arguments of the objective"); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += H[i * n + j] * x[j] * 0.5; s += x[i] * (g[i] + t); } if (bad == nf) return bad % 2 ? NAN : HUGE_VAL; return s; }
static void grad(double *x, int N, double *o, void *p) { ng++; sym_true(N == n && p == (void *)g, "arguments of the gradient"); for (int i = 0; i < n; i++) { o[i] = g[i]; for (int j = 0; j < n; j++) o[i] += G[i * n + j] * x[j]; } }
static double big(int i, double *dx) { return fmax(fabs(X[i]), 1 / fabs(dx[i])); }
int main(int argc, char **argv) {
  static const double PX[] = {0, 0.5, -0.25, 3, -5, 1, -1, 8, 0x1p-20, -0x1p-20, -0x1p-10, 4}, PD[] = {1, 0.5, 2, 0.125}; int t = sym_tier(); custom_function f = {quad, g}; custom_gradient q = {grad, g};
  for (n = 1; n <= (t ? 4 : 3); n++) for (int k = 0; k < (t ? 60 : 24); k++) for (int what = 0; what < 8; what++)
    SYM_CASE("derivative %d n=%d point %d", what, n, k) {
      double x[4], dx[4], r[16], tol; sym_rseed(100 * n + k); bad = 0; c0 = sym("c", -1, 1);
      for (int i = 0; i < n; i++) { X[i] = x[i] = PX[sym_rnd(12)]; dx[i] = PD[sym_rnd(4)]; g[i] = sym_n("g", i, -1, 1); }
      for (int i = 0; i < n; i++) for (int j = i; j < n; j++) H[i * n + j] = H[j * n + i] = what == 0 ? 0 : sym_n("h", i * n + j, -1, 1);
      for (int i = 0; i < n * n; i++) { r[i] = NAN; G[i] = what == 6 ? sym_n("G", i, -1, 1) : H[i]; } nf = ng = 0;
      switch (what) {
      case 0: /* affine, forward */ sym_true(grad_fd(&f, NULL, x, n, dx, ldexp(1, -20), r) == 0, "status"); for (int i = 0; i < n; i++) sym_eq(r[i], g[i], 1e-7, "forward difference of an affine function %d", i); sym_true(ng == 0, "no gradient"); break;
      case 1: /* quadratic, forward: error at most half the curvature times the step */ tol = ldexp(1, -20); sym_true(grad_fd(&f, NULL, x, n, dx, tol, r) == 0, "status"); for (int i = 0; i < n; i++) { double d = g[i]; for (int j = 0; j < n; j++) d += H[i * n + j] * X[j]; double e = r[i] - d, b = 0.5 * tol * big(i, dx); sym_le(e, 0.5 * tol * big(i, dx) * 1, 1e-7, "error %d", i); sym_le(-e, b, 1e-7, "error %d", i); sym_le(e * e, H[i * n + i] * H[i * n + i] * b * b, 1e-13, "error bounded by the curvature %d", i); } break;
      case 2: sym_true(grad_cd(&f, NULL, x, n, dx, ldexp(1, -14), r) == 0, "status"); for (int i = 0; i < n; i++) { double d = g[i]; for (int j = 0; j < n; j++) d += H[i * n + j] * X[j]; sym_eq(r[i], d, 1e-7, "central difference of a quadratic %d", i); } break;
      case 3: sym_true(grad_fd(&f, &q, x, n, dx, 0.5, r) == 0 && ng == 1 && nf == 0, "given gradient used"); for (int i = 0; i < n; i++) { double d = g[i]; for (int j = 0; j < n; j++) d += G[i * n + j] * X[j]; sym_eq(r[i], d, 1e-9, "gradient %d", i); r[i] = NAN; } sym_true(grad_cd(&f, &q, x, n, dx, 0.5, r) == 0 && ng == 2 && nf == 0, "given gradient used"); for (int i = 0; i < n; i++) { double d = g[i]; for (int j = 0; j < n; j++) d += G[i * n + j] * X[j]; sym_eq(r[i], d, 1e-9, "gradient %d", i); } break;
      case 4: sym_true((k & 1 ? hessian_fd(&f, x, n, dx, ldexp(1, -24), r) : hessian_opt(&f, NULL, x, n, NULL, dx, ldexp(1, -24), 0, r)) == 0, "status"); for (int i = 0; i < n * n; i++) sym_eq(r[i], H[i], 1e-5, "Hessian of a quadratic %d", i); break;
      case 5: sym_true(hessian_fd2(&f, x, n, dx, ldexp(1, -24), r) == 0, "status"); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) sym_eq(r[i * n + j], H[i * n + j], 1e-5, "upper Hessian of a quadratic %d %d", i, j); break;
      case 6: { double jac[4]; grad(x, n, jac, g); if (k % 3 == 0) fdjac(&q, x, n, jac, dx, ldexp(1, -20), r); else if (k % 3 == 1) hessian_fdg(&q, x, n, jac, dx, ldexp(1, -20), r); else sym_true(hessian_opt(&f, &q, x, n, jac, dx, 0.5, ldexp(1, -20), r) == 0, "status"); sym_true(nf == 0, "gradients only"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym_eq(r[i * n + j], k % 3 ? (G[i * n + j] + G[j * n + i]) / 2 : G[i * n + j], 1e-7, "derivative of the gradient %d %d", i, j); break; }
      case 7: /* objective not finite somewhere: refused */ bad = 1 + k % (2 * n); if (k % 4 == 0) { sym_true(grad_fd(&f, NULL, x, n, dx, 0.5, r) == 15, "non-finite objective refused"); } else if (k % 4 == 1) sym_true(grad_cd(&f, NULL, x, n, dx, 0.5, r) == 15, "non-finite objective refused"); else if (k % 4 == 2) sym_true(hessian_fd(&f, x, n, dx, 0.125, r) == 15, "non-finite objective refused"); else sym_true(hessian_fd2(&f, x, n, dx, 0.125, r) == 15, "non-finite objective refused"); break;
      }
      if (what < 7) for (int i = 0; i < n; i++) sym_eq(x[i], X[i], 0, "point kept %d", i);
    }
  return 0;
}
