/* P07: matrix kernels, factorisations and linear solves. */
#include "sym.h"
#include "matrix.h"
#include "lls.h"
static void rndm(double *a, int n) { for (int i = 0; i < n; i++) a[i] = sym_runi(); }
static void rmul(const double *A, const double *B, double *C, int m, int n, int p) { for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { double s = 0; for (int k = 0; k < n; k++) s += A[i * n + k] * B[k * p + j]; C[i * p + j] = s; } }
typedef void (*mm)(double *, double *, double *, int, int, int);
static const char *MN[] = {"nmult", "tmult", "rmult", "smult", "mmult"};
static mm MF[] = {nmult, tmult, rmult, smult, mmult};
static void multiply(int m, int n, int p, int nsym) {
  for (int f = 0; f < 5; f++) SYM_CASE("%s %dx%dx%d", MN[f], m, n, p) {
    double *A = malloc(8 * m * n), *B = malloc(8 * n * p), *C = malloc(8 * m * p), *R = malloc(8 * m * p); sym_rseed(m * 7 + n * 3 + p); rndm(A, m * n); rndm(B, n * p);
    if (nsym < 0) { sym_arr(A, m * n, "a", -1, 1); sym_arr(B, n * p, "b", -1, 1); }
    else for (int k = 0; k < nsym; k++) { int i = (int)((long)(2 * k + 1) * m * n / (2 * nsym)); A[i] = sym_n("a", i, -1, 1); i = (int)((long)(2 * k + 1) * n * p / (2 * nsym)) ; B[i] = sym_n("b", i, -1, 1); }
    MF[f](A, B, C, m, n, p); rmul(A, B, R, m, n, p); for (int i = 0; i < m * p; i++) sym_eq(C[i], R[i], 1e-9, "%d", i);
  }
}
static void spd(double *A, int N) { double *L = calloc(N * N, 8); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) L[i * N + j] = i == j ? 1.5 + 0.5 * sym_runi() : sym_runi() * 0.6; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) s += L[i * N + k] * L[j * N + k]; A[i * N + j] = s; } free(L); }
/* factor and solve with a concrete matrix and arbitrary right hand sides, or a fully symbolic matrix */
static void lucase(int N, int seed, int mode) { /* mode 0: concrete A; 1: all symbolic; 2: one symbolic entry per row */
  static const char *mn[] = {"concrete", "symbolic", "partly symbolic"};
  SYM_CASE("lu %s N=%d seed=%d", mn[mode], N, seed) {
    double *A = malloc(8 * N * N), *F = malloc(8 * N * N), *b = malloc(8 * N), *x = malloc(8 * N), *L = malloc(8 * N * N), *U = malloc(8 * N * N), *P = malloc(8 * N * N), *T = malloc(8 * N * N), *G = malloc(8 * N * N), *I = malloc(8 * N * N); int *ip = malloc(sizeof(int) * N), *ip2 = malloc(sizeof(int) * N);
    sym_rseed(seed * 100 + N); rndm(A, N * N);
    if (seed % 3 == 2) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if ((i + j) % 2) A[i * N + j] = 0; /* structural zeros: pivoting must cope */
    if (seed % 3 == 2) for (int i = 0; i + 1 < N; i += 2) for (int j = 0; j < N; j++) { double t = A[i * N + j]; A[i * N + j] = A[(i + 1) * N + j]; A[(i + 1) * N + j] = t; }
    if (mode == 1) sym_arr(A, N * N, "A", -1, 1); if (mode == 2) for (int i = 0; i < 2; i++) { int k = i * N + (i + seed) % N; A[k] = sym_n("A", k, -1, 1); }
    sym_arr(b, N, "b", -1, 1); memcpy(F, A, 8 * N * N); memcpy(G, A, 8 * N * N);
    ludecomp(F, N, ip); rludecomp(G, N, N, ip2); getPLU(F, N, N, ip, P, L, U);
    for (int i = 0; i < N; i++) { sym_true(ip[i] == ip2[i], "pivots"); for (int j = 0; j < N; j++) { sym_eq(G[i * N + j], F[i * N + j], 0, "rludecomp square"); if (j > i) sym_eq(L[i * N + j], 0, 0, "L lower"); if (j < i) sym_eq(U[i * N + j], 0, 0, "U upper"); } sym_eq(L[i * N + i], 1, 0, "L unit"); }
    rmul(P, L, T, N, N, N); rmul(T, U, G, N, N, N); for (int i = 0; i < N * N; i++) sym_eq(G[i], A[i], 1e-8, "PLU=A %d", i);
    double *pu = malloc(8 * N * N); getPU(F, N, N, ip, pu, U); rmul(pu, U, G, N, N, N); for (int i = 0; i < N * N; i++) sym_eq(G[i], A[i], 1e-8, "(PL)U=A %d", i);
    if (mode == 0 || N <= 2) {
      double *k = malloc(8 * N); memcpy(k, b, 8 * N); linsolve(F, N, b, ip, x); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s += A[i * N + j] * x[j]; sym_eq(s, b[i], 1e-7, "Ax=b row %d", i); sym_eq(k[i], b[i], 0, "b preserved"); }
      minverse(F, N, ip, I); rmul(A, I, T, N, N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sym_eq(T[i * N + j], i == j, 1e-7, "A inv %d,%d", i, j);
    }
  }
}
static void qrcase(int M, int N, int seed, int nsym) {
  SYM_CASE("qr %dx%d seed=%d sym=%d", M, N, seed, nsym) {
    double *A = malloc(8 * M * N), *F = malloc(8 * M * N), *bv = malloc(8 * N), *Q = malloc(8 * M * N), *R = malloc(8 * N * N), *T = malloc(8 * M * N); sym_rseed(seed * 77 + M * 10 + N); rndm(A, M * N);
    if (seed == 1) for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) if (i > j) A[i * N + j] = 0; /* already triangular */
    if (seed == 2) for (int i = 0; i < M * N; i++) A[i] = -fabs(A[i]);
    for (int k = 0; k < nsym; k++) { int i = (k * (N + 1)) % (M * N); A[i] = sym_n("A", i, -1, 1); }
    memcpy(F, A, 8 * M * N); qrdecomp(F, M, N, bv); getQR(F, M, N, bv, Q, R); rmul(Q, R, T, M, N, N);
    for (int i = 0; i < M * N; i++) sym_eq(T[i], A[i], 1e-8, "QR=A %d", i);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < M; k++) s += Q[k * N + i] * Q[k * N + j]; sym_eq(s, i == j, 1e-8, "Q'Q %d,%d", i, j); if (i > j) sym_eq(R[i * N + j], 0, 0, "R upper"); }
  }
}
static void llscase(int M, int N, int seed, int nsym) {
  for (int m = 0; m < 4; m++) SYM_CASE("lls %s %dx%d seed=%d sym=%d", m == 0 ? "normal" : m == 1 ? "qr" : m == 2 ? "svd" : "svd2", M, N, seed, nsym) {
    double *A = malloc(8 * M * N), *K = malloc(8 * M * N), *b = malloc(8 * M), *kb = malloc(8 * M), *x = malloc(8 * N); sym_rseed(seed * 55 + M * 10 + N); rndm(A, M * N); for (int i = 0; i < N && i < M; i++) A[i * N + i] += 2; if (seed == 2) for (int i = 0; i < M * N; i++) A[i] = -A[i];
    sym_arr(b, M, "b", -1, 1); for (int k = 0; k < nsym; k++) A[k * N] = sym_n("A", k * N, 0.5, 1.5);
    memcpy(K, A, 8 * M * N); memcpy(kb, b, 8 * M);
    int rc = m == 0 ? lls_normal(A, b, M, N, x) : m == 1 ? lls_qr(A, b, M, N, x) : m == 2 ? lls_svd(A, b, M, N, x) : lls_svd2(A, b, M, N, x);
    if (m == 1) sym_true(rc == (M < N ? M : N), "rank %d", rc); else sym_true(rc == 0, "rc %d", rc);
    if (M >= N) for (int j = 0; j < N; j++) { double g = 0; for (int i = 0; i < M; i++) { double r = -kb[i]; for (int k = 0; k < N; k++) r += K[i * N + k] * x[k]; g += K[i * N + j] * r; } sym_eq(g, 0, 1e-7, "normal equation %d", j); }
    else { for (int i = 0; i < M; i++) { double r = 0; for (int k = 0; k < N; k++) r += K[i * N + k] * x[k]; sym_eq(r, kb[i], 1e-7, "exact fit %d", i); } }
  }
}
int main(int argc, char **argv) {
  for (int m = 1; m <= 3; m++) for (int n = 1; n <= 3; n++) for (int p = 1; p <= 3; p++) multiply(m, n, p, -1);
  multiply(4, 5, 3, -1); multiply(1, 9, 1, -1); multiply(9, 1, 5, -1); multiply(40, 45, 38, 3); multiply(65, 66, 67, 2); multiply(100, 30, 70, 2); multiply(31, 130, 40, 2); multiply(20, 33, 150, 2); multiply(97, 97, 2, 2); multiply(1, 195, 3, 3); if (sym_tier()) { multiply(130, 129, 131, 1); multiply(200, 50, 33, 2); }
  static const int tr[][2] = {{1, 1}, {1, 5}, {5, 1}, {2, 3}, {3, 2}, {4, 4}, {7, 3}, {3, 8}, {6, 6}, {9, 5}, {70, 65}, {64, 90}, {130, 70}};
  for (int i = 0; i < 13; i++) SYM_CASE("transpose %dx%d", tr[i][0], tr[i][1]) {
    int r = tr[i][0], c = tr[i][1]; double *A = malloc(8 * r * c), *B[5]; for (int k = 0; k < 5; k++) B[k] = malloc(8 * r * c); sym_arr(A, r * c, "a", -1, 1); memcpy(B[4], A, 8 * r * c);
    dtranspose(A, r, c, B[0]); stranspose(A, r, c, B[1]); ctranspose(A, r, c, B[2]); mtranspose(A, r, c, B[3]); itranspose(B[4], r, c);
    for (int k = 0; k < 5; k++) for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) sym_eq(B[k][y * r + x], A[x * c + y], 0, "%s %d,%d", k == 0 ? "dtranspose" : k == 1 ? "stranspose" : k == 2 ? "ctranspose" : k == 3 ? "mtranspose" : "itranspose", x, y);
  }
  SYM_CASE("elementwise") { double A[12], B[12], C[12], D[12], E[16]; sym_arr(A, 12, "a", -1, 1); sym_arr(B, 12, "b", -1, 1); double s = sym("s", -3, 3); madd(A, B, C, 3, 4); msub(A, B, D, 4, 3); for (int i = 0; i < 12; i++) { sym_eq(C[i], A[i] + B[i], 1e-13, "madd"); sym_eq(D[i], A[i] - B[i], 1e-13, "msub"); } memcpy(C, A, sizeof A); scale(C, 4, 3, s); for (int i = 0; i < 12; i++) sym_eq(C[i], A[i] * s, 1e-13, "scale");
    eye(E, 4); for (int i = 0; i < 16; i++) sym_eq(E[i], i % 5 == 0, 0, "eye"); eye_scale(E, 4, s); for (int i = 0; i < 16; i++) sym_eq(E[i], i % 5 == 0 ? s : 0, 0, "eye_scale"); double q = 0; for (int i = 0; i < 5; i++) q += A[i] * A[i]; double n = l2norm(A, 5); sym_eq(n * n, q, 1e-10, "l2norm"); }
  for (int N = 1; N <= 12; N++) for (int s = 0; s < 6; s++) lucase(N, s, 0);
  lucase(1, 0, 1); lucase(2, 0, 1); lucase(3, 0, 1); for (int s = 0; s < 3; s++) { lucase(3, s, 2); lucase(4, s, 2); } if (sym_tier()) for (int N = 5; N <= 6; N++) lucase(N, 0, 2);
  for (int i = 0; i < 6; i++) { static const int d[][2] = {{3, 2}, {2, 3}, {4, 3}, {3, 5}, {6, 2}, {2, 6}}; int M = d[i][0], N = d[i][1], K = M < N ? M : N;
    SYM_CASE("rludecomp %dx%d", M, N) { double *A = malloc(8 * M * N), *F = malloc(8 * M * N), *P = malloc(8 * M * M), *L = malloc(8 * M * K), *U = malloc(8 * K * N), *T = malloc(8 * M * K), *G = malloc(8 * M * N); int *ip = malloc(4 * M); sym_rseed(M * 9 + N); rndm(A, M * N); for (int k = 0; k < 3 && k < M; k++) { int e = k * N + (k ? (k + 1) % N : 0); A[e] = sym_n("A", e, -1, 1); } memcpy(F, A, 8 * M * N); rludecomp(F, M, N, ip); getPLU(F, M, N, ip, P, L, U); rmul(P, L, T, M, M, K); rmul(T, U, G, M, K, N); for (int e = 0; e < M * N; e++) sym_eq(G[e], A[e], 1e-8, "PLU=A %d", e); } }
  for (int s = 0; s < 3; s++) { for (int M = 1; M <= 9; M++) for (int N = 1; N <= M && N <= 6; N++) qrcase(M, N, s, 0); qrcase(1, 1, s, 1); qrcase(2, 1, s, 1); qrcase(2, 1, s, 2); qrcase(3, 1, s, 3); if (s == 1) { qrcase(2, 2, s, 1); qrcase(3, 2, s, 1); } }
  for (int N = 1; N <= 4; N++) SYM_CASE("house N=%d", N) { double x[4], v[4], H[16]; sym_arr(x, N, "x", -1, 1); double be = house(x, N, v); sym_eq(v[0], 1, 1e-12, "v0"); if (N <= 3) { housemat(v, N, be, H); double nn = 0; for (int i = 0; i < N; i++) nn += x[i] * x[i]; for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s += H[i * N + j] * x[j]; if (i) sym_eq(s, 0, 1e-8, "Hx[%d]", i); else { sym_eq(s * s, nn, 1e-8, "|Hx|"); } } double vv = 0; for (int i = 0; i < N; i++) vv += v[i] * v[i]; sym_eq(be * (be * vv - 2), 0, 1e-8, "orthogonal"); } }
  for (int N = 1; N <= 9; N++) for (int s = 0; s < 3; s++) SYM_CASE("cholesky concrete N=%d seed=%d", N, s) {
    double *A = malloc(8 * N * N), *C = malloc(8 * N * N), *D = malloc(8 * N * N), *E = malloc(8 * N * N); sym_rseed(N * 10 + s); spd(A, N); for (int i = 0; i + 1 < N; i++) { A[i * N + N - 1] = A[(N - 1) * N + i] = sym_n("a", i, -0.3, 0.3); } A[N * N - 1] = 60;
    memcpy(C, A, 8 * N * N); memcpy(D, A, 8 * N * N); memcpy(E, A, 8 * N * N); sym_true(chol(C, N) == 0, "chol accepts SPD"); sym_true(bcholu(E, N) == 0, "bcholu accepts SPD"); chold(D, N);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s1 = 0, s2 = 0; for (int k = 0; k < N; k++) { s1 += C[k * N + i] * C[k * N + j]; s2 += (k == i ? 1 : D[k * N + i]) * D[k * N + k] * (k == j ? 1 : D[k * N + j]) * (k <= i && k <= j); } sym_eq(s1, A[i * N + j], 1e-8, "U'U %d,%d", i, j); sym_eq(s2, A[i * N + j], 1e-8, "U'DU %d,%d", i, j); sym_eq(E[i * N + j], C[i * N + j], 1e-10, "bcholu"); if (j < i) sym_eq(C[i * N + j], 0, 0, "upper"); }
  }
  SYM_CASE("cholesky blocked N=70") { int N = 70; double *A = malloc(8 * N * N), *C = malloc(8 * N * N); sym_rseed(5); spd(A, N); for (int i = 0; i < N; i++) A[i * N + i] += 1; for (int i = 0; i < 3; i++) { int k = i * 33; A[k * N + N - 1] = A[(N - 1) * N + k] = sym_n("a", k, -0.3, 0.3); } A[N * N - 1] = 4000; memcpy(C, A, 8 * N * N); sym_true(chol(C, N) == 0, "accepts"); for (int i = 0; i < N; i += 3) for (int j = i; j < N; j++) { double s = 0; for (int k = 0; k <= i; k++) s += C[k * N + i] * C[k * N + j]; sym_eq(s, A[i * N + j], 1e-6, "U'U %d,%d", i, j); } }
  SYM_CASE("cholesky 2x2 symbolic") { double a = sym("a", -1, 2), b = sym("b", -1, 1), c = sym("c", -1, 2), A[4] = {a, b, b, c}, C[4]; memcpy(C, A, sizeof A); int rc = cholu(C, 2); if (rc == 0) { sym_eq(C[0] * C[0], a, 1e-9, "0"); sym_eq(C[0] * C[1], b, 1e-9, "1"); sym_eq(C[1] * C[1] + C[3] * C[3], c, 1e-9, "3"); } else { sym_true(rc == -1, "rc"); if (a > 1e-4) sym_le(a * c - b * b, 0, 1e-7, "rejected only when not PD"); } }
  for (int s = 0; s < 3; s++) { for (int M = 1; M <= 10; M++) for (int N = 1; N <= M && N <= 5; N++) llscase(M, N, s, 0); llscase(30, 6, s, 0); }
  for (int N = 2; N <= 6; N++) for (int M = 1; M < N; M++) for (int s = 0; s < 2; s++) SYM_CASE("lls qr under %dx%d seed=%d", M, N, s) { double *A = malloc(8 * M * N), *b = malloc(8 * M), *x = malloc(8 * N); sym_rseed(s * 3 + M * 10 + N); rndm(A, M * N); for (int i = 0; i < M; i++) A[i * N + i] += s ? -2 : 2; sym_arr(b, M, "b", -1, 1); lls_qr(A, b, M, N, x); for (int i = 0; i < M; i++) { double r = 0; for (int k = 0; k < N; k++) r += A[i * N + k] * x[k]; sym_eq(r, b[i], 1e-7, "exact fit %d", i); } }
  SYM_CASE("eig 2x2") { double A[4], re[2], im[2]; A[3] = sym("d", -1, 1); A[1] = 0.5; A[2] = 0.25; A[0] = 1; double tr = A[0] + A[3], de = A[0] * A[3] - A[1] * A[2]; eig(A, 2, re, im); sym_eq(re[0] + re[1], tr, 1e-7, "trace"); sym_eq(im[0] + im[1], 0, 1e-9, "conjugate"); sym_eq(re[0] * re[1] - im[0] * im[1], de, 1e-6, "determinant"); }
  return 0;
}
