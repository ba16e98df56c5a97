/* P25: the distribution functions behind p-values, quantiles and intervals. */
#include "sym.h"
#include "pdist.h"
#if PART == 1
/* the special functions are replaced by exact members of the same families: I_x(a,b) with I_x(a,b)+I_{1-x}(b,a)=1, its inverse, an odd sigmoid and its inverse */
double stub_ibeta(double x, double a, double b) { sym_true(x >= 0 && x <= 1, "argument of the incomplete beta function"); return x * a / (x * a + (1 - x) * b); }
double stub_betainv(double p, double a, double b) { sym_true(p >= 0 && p <= 1, "argument of the inverse incomplete beta function"); return p * b / (a * (1 - p) + p * b); }
double stub_erf(double x) { return x / (1 + fabs(x)); }
double stub_erfc(double x) { return 1 - x / (1 + fabs(x)); }
double stub_erfinv(double y) { return y / (1 - fabs(y)); }
double stub_erfcinv(double y) { return stub_erfinv(1 - y); }
double stub_pgamma(double x, double a) { return x / (x + a); }
double ierf(double p) { return stub_erfinv(2 * p - 1); }
static const int DF[] = {1, 2, 3, 4, 7, 10, 29, 30, 100, 999, 1000};
static const int NM[][2] = {{1,1},{1,2},{2,1},{2,7},{3,3},{5,12},{9,40},{30,2},{100,100}};
int main(int argc, char **argv) {
  int th = sym_tier();
  for (int i = 0; i < 11; i++) { int df = DF[i];
    SYM_CASE("t cdf df=%d", df) { double t = sym("t", -50, 50), x, e; x = df / (df + t * t); e = 0.5 * stub_ibeta(x, df / 2.0, 0.5); sym_assume(t < -1e-6 || t > 1e-6); double c = tcdf(t, df); sym_eq(c, t > 0 ? 1 - e : e, 1e-9, "value"); sym_eq(c + tcdf(-t, df), 1, 1e-9, "symmetric"); sym_le(0, c, 1e-12, "at least 0"); sym_le(c, 1, 1e-12, "at most 1"); }
    SYM_CASE("t and F df=%d", df) { double t = sym("t", 0.01, 50); sym_eq(2 * tcdf(t, df) - 1, fcdf(t * t, 1, df), 1e-9, "two-sided t probability is the F probability"); sym_le(0.5, tcdf(t, df), 1e-9, "upper half"); }
    SYM_CASE("t cdf monotone df=%d", df) { double t = sym("t", -50, 50), u = sym("gap", 0, 20); sym_le(tcdf(t, df), tcdf(t + u, df), 1e-9, "monotone"); }
    SYM_CASE("t cdf extremes df=%d", df) { sym_eq(tcdf(0, df), 0.5, 1e-9, "median"); int hi = sym_choice("exponent", 3, 307); double b = pow(10, hi); sym_eq(tcdf(b, df), 1, hi < 10 ? 1 : 1e-9, "right end"); sym_le(0.99, tcdf(b, df), hi < 8 ? 1 : 1e-9, "right tail"); sym_eq(tcdf(-b, df) + tcdf(b, df), 1, 1e-9, "left end"); sym_le(tcdf(-b, df), 0.01, hi < 8 ? 1 : 1e-9, "left tail"); sym_eq(tcdf(INFINITY, df), 1, 1e-9, "infinity"); sym_eq(tcdf(-INFINITY, df), 0, 1e-9, "minus infinity"); }
    SYM_CASE("t quantile df=%d", df) { int up = sym_choice("upper", 0, 1); double p = up ? sym("p", 0.501, 0.999) : sym("q", 0.001, 0.499), t = tinv(p, df); if (up) sym_le(0, t, 1e-9, "sign"); else sym_le(t, 0, 1e-9, "sign"); sym_eq(tinv(1 - p, df), -t, 1e-6, "symmetric"); double x = df / (df + t * t); sym_eq(stub_ibeta(x, df / 2.0, 0.5), up ? 2 * (1 - p) : 2 * p, 1e-7, "tail probability"); sym_eq(tcdf(t, df), p, 1e-7, "inverse of the cdf"); }
    SYM_CASE("t quantile ends df=%d", df) { sym_true(tinv(0, df) <= -1e300, "p=0"); sym_true(tinv(1, df) >= 1e300, "p=1"); sym_eq(tinv(0.5, df), 0, 1e-9, "median"); }
    SYM_CASE("chi-square cdf df=%d", df) { double x = sym("x", 0, 80), c = chicdf(x, df); sym_eq(c, stub_pgamma(x / 2, df / 2.0), 1e-9, "incomplete gamma"); sym_eq(c, gammacdf(x, df / 2.0, 2), 1e-9, "gamma law"); }
  }
  for (int i = 0; i < 5; i++) { int df = (int[]){1001, 1100, 2000, 10000, 1000000}[i]; SYM_CASE("t quantile large df=%d", df) { int up = sym_choice("upper", 0, 1); double p = up ? sym("p", 0.55, 0.9) : sym("q", 0.1, 0.45), t = tinv(p, df), z = sqrt(2.0) * ierf(p), d = df, g1 = (pow(z, 3) + z) / (4 * d), g2 = (5 * pow(z, 5) + 16 * pow(z, 3) + 3 * z) / (96 * d * d), g3 = (3 * pow(z, 7) + 19 * pow(z, 5) + 17 * pow(z, 3) - 15 * z) / (384 * d * d * d), g4 = (79 * pow(z, 9) + 776 * pow(z, 7) + 1482 * pow(z, 5) - 1920 * pow(z, 3) - 945 * z) / (92160 * d * d * d * d); sym_eq(t, z + g1 + g2 + g3 + g4, 1e-8, "asymptotic expansion"); sym_eq(tinv(1 - p, df), -t, 1e-8, "symmetric"); } 
    SYM_CASE("t quantile ends df=%d", df) { sym_true(tinv(0, df) <= -1e300, "p=0"); sym_true(tinv(1, df) >= 1e300, "p=1"); sym_eq(tinv(0.5, df), 0, 1e-9, "median"); } }
  for (int i = 0; i < 9; i++) { int a = NM[i][0], b = NM[i][1];
    SYM_CASE("F cdf %d %d", a, b) { double x = sym("x", 0, 60), c = fcdf(x, a, b); sym_eq(c, stub_ibeta(a * x / (b + a * x), a / 2.0, b / 2.0), 1e-9, "incomplete beta"); sym_le(0, c, 1e-12, "at least 0"); sym_le(c, 1, 1e-12, "at most 1"); }
    SYM_CASE("F reciprocal %d %d", a, b) { double x = sym("x", 0.02, 60); sym_eq(fcdf(x, a, b) + fcdf(1 / x, b, a), 1, 1e-9, "reciprocal"); }
    SYM_CASE("F monotone %d %d", a, b) { double x = sym("x", 0, 60), u = sym("gap", 0, 20); sym_le(fcdf(x, a, b), fcdf(x + u, a, b), 1e-9, "monotone"); }
    SYM_CASE("F quantile %d %d", a, b) { double p = sym("p", 0.01, 0.99), x = finv(p, a, b); sym_le(0, x, 1e-9, "non-negative"); sym_eq(fcdf(x, a, b), p, 1e-7, "inverse of the cdf"); }
    SYM_CASE("F ends %d %d", a, b) { sym_eq(finv(0, a, b), 0, 1e-12, "p=0"); sym_true(finv(1, a, b) >= 1e300, "p=1"); sym_eq(fcdf(0, a, b), 0, 1e-12, "x=0"); } }
  SYM_CASE("normal") { double x = sym("x", -30, 30), mu = sym("mu", -3, 3), s = sym("sigma", 0.1, 4), c = normalcdf(x, mu, s); sym_eq(2 * c - 1, stub_erf((x - mu) / (sqrt(2.0) * s)), 1e-8, "error function"); sym_eq(c + normalcdf(2 * mu - x, mu, s), 1, 1e-8, "symmetric"); }
  for (int up = 0; up < 2; up++) SYM_CASE("normal quantile %d", up) { double p = up ? sym("p", 0.51, 0.99) : sym("p", 0.01, 0.49), mu = sym("mu", -3, 3), s = sym("sigma", 0.1, 4), z = normalinv(p, 0, 1), x = normalinv(p, mu, s); sym_eq(x, mu + s * z, 1e-8, "location and scale"); sym_eq(normalcdf(z, 0, 1), p, 1e-8, "inverse of the cdf"); }
  SYM_CASE("normal density") { double x = sym("x", -5, 5), mu = sym("mu", -3, 3), s = sym("sigma", 0.25, 4); sym_eq(normalpdf(x, mu, s) * s * sqrt(2 * 3.14159265358979323846), exp(-(x - mu) * (x - mu) / (2 * s * s)), 1e-8, "density"); }
  SYM_CASE("gamma cdf") { double x = sym("x", -2, 20), k = sym("k", 0.25, 8), s = sym("theta", 0.25, 4), c = gammacdf(x, k, s); sym_eq(c, x > 0 ? stub_pgamma(x / s, k) : 0, 1e-8, "scale"); }
  for (int i = 0; i < 6; i++) SYM_CASE("bad arguments %d", i) { double p = i < 3 ? sym("p", -4, -0.001) : sym("p", 1.001, 4); sym_expect_exit(1); switch (i % 3) { case 0: tinv(p, 5); break; case 1: finv(p, 3, 4); break; default: normalinv(p, 0, 1); } sym_true(0, "probability outside [0,1] accepted"); }
  return 0;
}
#endif

#if PART == 2
/* the continued fraction is replaced by an arbitrary function of its arguments; nconv: it reports that it did not converge */
static int nconv; static double ap_x, ap_a, ap_b; static int ap_n;
double stub_bfrac(double x, double a, double b, int *ctr) { *ctr = nconv ? 1000 : 7; return 1 / (1 + x * a / (1 + b)); }
double stub_ibeta_appx(double x, double a, double b) { ap_n++; ap_x = x; ap_a = a; ap_b = b; return x * x; }
static double cf(double x, double a, double b) { return 1 / (1 + x * a / (1 + b)); }
/* both ways of writing it: 26.5.8 and its reflection */
static double front(double x, double a, double b) { return exp(gamma_log(a + b) - gamma_log(a + 1) - gamma_log(b) + a * log(x) + b * log1p(-x)); }
int main(int argc, char **argv) {
  static const double AB[] = {0.5, 1, 1.5, 2, 2.5, 3.5, 5, 14.5, 50};
  for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) { double a = AB[i], b = AB[j], th = (a + 1) / (a + b + 2); for (int up = 0; up < 2; up++) 
    SYM_CASE("incomplete beta a=%g b=%g %s", a, b, up ? "above" : "below") { double x = up ? sym("x", th + 1e-6, 0.9999) : sym("x", 0.0001, th - 1e-6), r = ibeta(x, a, b), e = up ? 1 - front(1 - x, b, a) * cf(1 - x, b, a) : front(x, a, b) * cf(x, a, b); sym_eq(r, e, 1e-8, "leading factor times continued fraction"); sym_eq(ibetac(x, a, b), ibeta(1 - x, b, a), 1e-9, "complement"); sym_eq(r + ibeta(1 - x, b, a), 1, 1e-8, "reflection"); double c = betacdf(x, a, b); sym_true(r > 1 ? c == 1 : c == r, "law capped at one"); }
    SYM_CASE("not converged a=%g b=%g", a, b) { double x = sym("x", 0.001, 0.999); nconv = 1; ap_n = 0; sym_eq(ibeta(x, a, b), x * x, 1e-12, "approximation used"); sym_true(ap_n == 1, "approximation called"); sym_eq(ap_x, x, 0, "x"); sym_eq(ap_a, a, 0, "a"); sym_eq(ap_b, b, 0, "b"); nconv = 0; }
    SYM_CASE("ends a=%g b=%g", a, b) { sym_eq(ibeta(0, a, b), 0, 1e-12, "x=0"); sym_eq(ibeta(1, a, b), 1, 1e-12, "x=1"); } 
    SYM_CASE("beta density a=%g b=%g", a, b) { double x = sym("x", 0.001, 0.999); sym_eq(betapdf(x, a, b), exp((a == 1 ? 0 : (a - 1) * log(x)) + (b == 1 ? 0 : (b - 1) * log(1 - x)) - beta_log(a, b)), 1e-7, "density"); } }
  for (int sg = 0; sg < 2; sg++) SYM_CASE("log(1+x) %d", sg) { double x = sg ? sym("x", 0.0001, 9) : sym("x", -0.99, -0.0001); sym_eq(log1p(x), log(1 + x), 1e-9, "value"); sym_eq(log1p(0), 0, 0, "zero"); sym_eq(log1p(1e-300), 1e-300, 1e-310, "tiny"); }
  for (int bad = 0; bad < 4; bad++) SYM_CASE("bad arguments %d", bad) { double x = bad == 0 ? sym("x", -3, -0.001) : bad == 1 ? sym("x", 1.001, 3) : 0.5; sym_expect_exit(1); ibeta(x, bad == 2 ? -1 : 2, bad == 3 ? -1 : 2); sym_true(0, "accepted"); }
  return 0;
}
#endif
#if PART == 3
/* eps() is replaced so that each iteration stops after exactly K steps: what it has computed then is compared with the K-th partial value */
static int K, seen;
double stub_eps(double x) { return seen++ < K ? 0 : 1e300; }
double stub_erfc(double x) { return 1 - x / (1 + fabs(x)); }
double stub_betacdf(double x, double a, double b) { sym_true(a == 1 && b == 1, "shape parameters passed on"); return x; }
int main(int argc, char **argv) {
  int th = sym_tier(); static const double AB[] = {0.5, 1, 2, 2.5, 7};
  for (int up = 0; up < 2; up++) SYM_CASE("inverse of the uniform law %d", up) { double p = up ? sym("p", 0.51, 0.97) : sym("p", 0.03, 0.49); sym_eq(betainv(p, 1, 1), p, 1e-6, "inverse"); sym_eq(betainv(0, 1, 1), 0, 0, "p=0"); sym_eq(betainv(1, 1, 1), 1, 0, "p=1"); }
  for (int up = 0; up < 2; up++) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (!up || AB[i] + AB[j] > 2) SYM_CASE("asymptotic incomplete beta %d a=%g b=%g", up, AB[i], AB[j]) { double a = AB[i], b = AB[j], s = a + b - 1, x, w; if (up) { x = sym("x", 0.01, 0.99 - 0.8 / s); sym_assume(s * (1 - x) > 0.8); w = pow(b * x, 1. / 3); double v = pow(a * (1 - x), 1. / 3); sym_eq(ibeta_appx(x, a, b), stub_erfc(-3 * (w * (1 - 1 / (9 * b)) - v * (1 - 1 / (9 * a))) / sqrt(2.0) / sqrt(w * w / b + v * v / a)) / 2, 1e-7, "26.5.21"); } else { x = sym("x", s > 0.75 ? 1 - 0.75 / s : 0.01, 0.999); double c = (s * (1 - x) * (3 - x) - (1 - x) * (b - 1)) / 2; sym_assume(c > 1e-6); K = 2; seen = 0; double e = qgamma(c, b); seen = 0; sym_assume(e > 1e-6); sym_eq(ibeta_appx(x, a, b), e, 1e-7, "26.5.20"); } }
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int k = 1; k <= (th ? 5 : 3); k++) SYM_CASE("beta continued fraction a=%g b=%g steps=%d", AB[i], AB[j], k) { double a = AB[i], b = AB[j], x = sym("x", 0.001, 0.9 * (a + 1) / (a + b + 2)), r, e = 1; int c = 0; K = k; seen = 0; r = bfrac(x, a, b, &c); for (int n = 2 * k + 1; n >= 1; n--) { int m = n / 2; double d = n % 2 ? -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1)) : m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m)); e = 1 + d / e; } sym_eq(r * e, 1, 1e-7, "convergent"); sym_true(c <= k + 1, "step count %d", c); }
  for (int i = 0; i < 5; i++) for (int k = 1; k <= (th ? 8 : 5); k++) SYM_CASE("gamma series a=%g terms=%d", AB[i], k) { double a = AB[i], x = sym("x", 0.01, 0.5 * a), r, s = 1, d = 1; K = k; seen = 0; r = pgamma(x, a); for (int n = 1; n <= k; n++) { d = d * x / (a + n); s += d; } double e = s * exp(-x + a * log(x) - gamma_log(a + 1)); sym_assume(e <= 1); sym_eq(r, e, 1e-8, "partial sum"); seen = 0; sym_eq(qgamma(x, a), 1 - r, 1e-9, "complement"); }
  for (int i = 0; i < 5; i++) for (int k = 1; k <= (th ? 4 : 3); k++) SYM_CASE("gamma continued fraction a=%g steps=%d", AB[i], k) { double a = AB[i], x = sym("x", a + 1.001, 3 * a + 9), r, e; K = k; seen = 0; r = pgamma(x, a); e = x; for (int n = k; n >= 1; n--) e = x + (n - a) / (1 + n / e); sym_eq(r, 1 - exp(-x + a * log(x) - gamma_log(a)) / e, 1e-8, "convergent"); }
  SYM_CASE("gamma ends") { double a = sym("a", 0.1, 9), x = sym("x", 0.1, 20); K = 3; seen = 0; sym_eq(pgamma(0, a), 0, 0, "x=0"); sym_eq(pgamma(x, 0), 1, 0, "a=0"); }
  return 0;
}
#endif
#if PART == 4
#include "erfunc.h"
static double zeta(int k, double c) { double s = 0, n = c + 20; for (int j = 0; j < 20; j++) s += pow(c + j, -k); return s + pow(n, 1 - k) / (k - 1) + 0.5 * pow(n, -k) + k * pow(n, -k - 1) / 12 - k * (k + 1.0) * (k + 2) * pow(n, -k - 3) / 720; }
static double psi(double c) { double s = 0, n = c + 20; for (int j = 0; j < 20; j++) s -= 1 / (c + j); return s + log(n) - 0.5 / n - 1 / (12 * n * n) + 1 / (120 * n * n * n * n) - 1 / (252 * n * n * n * n * n * n); }
static double lg_ref(double c, double y, int terms) { double s = 0; for (int k = terms; k >= 2; k--) s = ((k % 2 ? -1 : 1) * zeta(k, c) / k + s) * y; return lgamma(c) + y * (psi(c) + s); }
int main(int argc, char **argv) {
  for (int sg = -1; sg <= 1; sg += 2) for (int b = 0; b < 4; b++) SYM_CASE("error function branch %d sign %d", b, sg) { static const double L[] = {0.001, 0.51, 4.01, 5.81}, H[] = {0.499, 3.99, 5.59, 30}; double x = sg * sym("x", L[b], H[b]); sym_eq(erf(-x), -erf(x), 1e-12, "odd"); sym_eq(erf(x) + erfc(x), 1, b < 2 ? 1e-12 : 1e-9, "complement"); sym_eq(erfc(-x), 2 - erfc(x), 1e-12, "reflection"); }
  for (int b = 0; b < 2; b++) SYM_CASE("error function value %d", b) { double x = b ? sym("x", 0.001, 0.5) : sym("x", -0.5, -0.001), s = 0; for (int n = 12; n >= 0; n--) { double f = 1; for (int j = 2; j <= n; j++) f *= j; s = s * x * x + (n % 2 ? -1 : 1) / (f * (2 * n + 1)); } sym_eq(erf(x), 2 / sqrt(3.14159265358979323846) * x * s, 1e-10, "series"); }
  static const double SEG[][3] = {{0.69, 1.5, 1}, {1.51, 2.5, 2}, {2.5, 3.99, 3}, {4.01, 5.5, 5}, {5.5, 7.5, 7}, {7.5, 9.5, 9}, {9.5, 11.99, 11}};
  for (int i = 0; i < 7; i++) SYM_CASE("log gamma on [%g,%g]", SEG[i][0], SEG[i][1]) { double x = sym("x", SEG[i][0], SEG[i][1]); sym_eq(gamma_log(x), lg_ref(SEG[i][2], x - SEG[i][2], 24), 1e-6, "series"); }
  for (int i = 0; i < 2; i++) SYM_CASE("log gamma near zero %d", i) { double x = i ? sym("x", 0.501, 0.679) : sym("x", 0.001, 0.499); sym_eq(gamma_log(x) + log(x), i ? lg_ref(2, x - 1, 24) : lg_ref(1, x, 30), 1e-6, "series"); }
  SYM_CASE("log gamma large") { double x = sym("x", 12.01, 150); sym_eq(gamma_log(x), (x - 0.5) * log(x) - x + 0.5 * log(2 * 3.14159265358979323846) + 1 / (12 * x) - 1 / (360 * x * x * x) + 1 / (1260 * pow(x, 5)) - 1 / (1680 * pow(x, 7)), 1e-9, "Stirling series"); }
  for (int n = 0; n < 11; n++) SYM_CASE("gamma recurrence %d", n) { double x = n ? sym("x", n + 0.001, n + 0.999) : sym("x", 0.001, 0.999); sym_assume(n < 11); double g = gamma(x), h = gamma(x + 1); sym_eq(h / g, x, 1e-8, "recurrence"); }
  return 0;
}
#endif
