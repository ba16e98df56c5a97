/* P06: wavelet packet trees: node definition, best basis selection for arbitrary node costs, reconstruction, accessors, reuse. */
#include "sym.h"
#include "wavelib.h"
#define TOL 1e-7
static double sx(const double *x, int N, int i, int per) { if (per) { int Ne = N + N % 2; i = ((i % Ne) + Ne) % Ne; return x[i < N ? i : N - 1]; } i = ((i % (2 * N)) + 2 * N) % (2 * N); return x[i < N ? i : 2 * N - 1 - i]; }
static int step(wave_object w, const double *x, int N, int per, double *a, double *d) { int lf = w->lpd_len, n = per ? (N + 1) / 2 : (N + lf - 1) / 2; for (int i = 0; i < n; i++) { a[i] = d[i] = 0; for (int l = 0; l < lf; l++) { double v = sx(x, N, 2 * i + (per ? lf / 2 : 1) - l, per); a[i] += w->lpd[l] * v; d[i] += w->hpd[l] * v; } } return n; }
static void fill(double *x, int N, int nsym) { sym_rseed(N * 17 + nsym); for (int i = 0; i < N; i++) x[i] = sym_runi(); if (nsym >= N) sym_arr(x, N, "x", -1, 1); else for (int k = 0; k < nsym; k++) { int i = (int)((long)(2 * k + 1) * N / (2 * nsym)); x[i] = sym_n("x", i, -1, 1); } }
static double *nd[64]; static int nl[64], NN; /* heap order: root 0, children of k at 2k+1 (low pass), 2k+2 (high pass) */
static void nodes(wave_object w, const double *x, int N, int J, int per) { NN = (1 << (J + 1)) - 1; nl[0] = N; nd[0] = malloc(8 * N); memcpy(nd[0], x, 8 * N); for (int k = 0; 2 * k + 1 < NN; k++) { nd[2 * k + 1] = malloc(8 * (nl[k] + w->lpd_len)); nd[2 * k + 2] = malloc(8 * (nl[k] + w->lpd_len)); nl[2 * k + 1] = nl[2 * k + 2] = step(w, nd[k], nl[k], per, nd[2 * k + 1], nd[2 * k + 2]); } }
static void nfree(void) { for (int k = 0; k < NN; k++) free(nd[k]); }
static void treecase(const char *nm, int N, int J, int per, int nsym) {
  SYM_CASE("wtree %s %s N=%d J=%d", nm, per ? "per" : "sym", N, J) {
    wave_object w = wave_init(nm); wtree_object t = wtree_init(w, N, J); double *x = malloc(8 * N), *k = malloc(8 * N), *z = malloc(8 * N); sym_rseed(5); for (int i = 0; i < N; i++) z[i] = sym_runi(); fill(x, N, nsym); memcpy(k, x, 8 * N);
    if (per || N % 2) setWTREEExtension(t, per ? "per" : "sym"); if (N % 2) wtree(t, z); wtree(t, x); for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved");
    nodes(w, x, N, J, per); int tot = 0; for (int i = 1; i < NN; i++) tot += nl[i]; sym_true(t->outlength == tot, "outlength %d", t->outlength); sym_true(t->nodes == NN - 1, "nodes");
    for (int l = J, p = 0; l >= 1; l--) for (int y = 0; y < 1 << l; y++) { int q = (1 << l) - 1 + y, n = getWTREENodelength(t, l); sym_true(n == nl[q] && t->coeflength[l] == n, "node length level %d", l); double *c = malloc(8 * n); getWTREECoeffs(t, l, y, c, n); for (int i = 0; i < n; i++) { sym_eq(c[i], nd[q][i], TOL, "node (%d,%d)[%d]", l, y, i); (void)p; } free(c); }
    nfree(); free(x); free(k); free(z); wtree_free(t); wave_free(w);
  }
}
static int mode, ncall, J_; static double cost[64]; static char seen[64]; static const char *ent; static double epar;
double stub_costfunc(double *x, int n, char *entropy, double p) {
  sym_true(!strcmp(entropy, ent), "entropy %s", entropy); if (!strcmp(ent, "threshold") || !strcmp(ent, "norm")) sym_eq(p, epar, 0, "entropy parameter"); ncall++;
  if (mode == 0) { for (int k = 0; k < NN; k++) if (!seen[k] && nl[k] == n) { int ok = 1; for (int i = 0; ok && i < n; i++) ok = fabs(x[i] - nd[k][i]) < TOL; if (ok) { seen[k] = 1; return cost[k]; } } sym_true(0, "cost of %d values that are no node", n); return 0; }
  if (mode == 1) { int l = 0; while ((1 << (l + 1)) - 1 < NN && nl[(1 << l) - 1] != n) l++; return cost[l] / (1 << l); }
  return cost[ncall % 61];
}
static int ntree; static unsigned trees[1024]; /* every admissible basis as a bit set of nodes */
static int gen(int k, unsigned *out) { out[0] = 1u << k; int n = 1; if (2 * k + 1 < NN) { unsigned l[700], r[700]; int a = gen(2 * k + 1, l), b = gen(2 * k + 2, r); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) out[n++] = l[i] | r[j]; } return n; }
static double tcost(unsigned m) { double s = 0; for (int k = 0; k < NN; k++) if (m >> k & 1) s += cost[k]; return s; }
static unsigned check(wpt_object t, wave_object w, double *x, int N, int J, int full) {
  unsigned m = 0; sym_true(t->nodes >= 1 && t->nodes <= 1 << J, "%d basis nodes", t->nodes); int tot = 0; for (int i = 0; i < t->nodes; i++) { int l = t->nodeindex[2 * i], y = t->nodeindex[2 * i + 1]; sym_true(l >= 0 && l <= J && y >= 0 && y < 1 << l, "basis node (%d,%d)", l, y); int q = (1 << l) - 1 + y; m |= 1u << q; for (int v = 0; v < nl[q]; v++) sym_eq(t->output[tot + v], nd[q][v], TOL, "output of node (%d,%d)[%d]", l, y, v); tot += nl[q]; }
  sym_true(t->outlength == tot, "output length %d of %d", t->outlength, tot);
  int cover = 1, cnt = 0; for (int b = 0; b < 1 << J; b++) { int q = (1 << J) - 1 + b, c = 0; for (;; q = (q - 1) / 2) { c += m >> q & 1; if (!q) break; } cover &= c == 1; } sym_true(cover, "basis covers the tree once: %x", m); for (int k = 0; k < NN; k++) { cnt += m >> k & 1; sym_true((t->basisvector[k] == 1) == (int)(m >> k & 1), "basis vector %d", k); } sym_true(cnt == t->nodes, "%d nodes reported", t->nodes);
  for (int l = 0; l <= J; l++) { int c = 0; for (int y = 0; y < 1 << l; y++) c += m >> ((1 << l) - 1 + y) & 1; if (l || c) sym_true(t->numnodeslevel[l] == c, "%d nodes at level %d, reported %d", c, l, t->numnodeslevel[l]); sym_true(t->coeflength[l] == nl[(1 << l) - 1], "coefficient length %d", l); if (l) sym_true(getDWPTNodelength(t, l) == nl[(1 << l) - 1], "node length %d", l); }
  for (int k = 1; k < NN; k++) if (m >> k & 1) { int l = 0; while ((1 << (l + 1)) - 1 <= k) l++; double *c = malloc(8 * nl[k]); getDWPTCoeffs(t, l, k - (1 << l) + 1, c, nl[k]); for (int i = 0; i < nl[k]; i++) sym_eq(c[i], nd[k][i], TOL, "accessor node %d [%d]", k, i); free(c); }
  double *y = malloc(8 * N); if (full) { idwpt(t, y); for (int i = 0; i < N; i++) sym_eq(y[i], x[i], TOL, "reconstruction %d from basis %x", i, m); } free(y); return m;
}
static void ent_of(wpt_object t, int e) { static const char *E[] = {"shannon", "threshold", "norm", "logenergy", "energy"}; epar = e == 1 ? 0.375 : e == 2 ? 1.5 : 0; if (e >= 0) setDWPTEntropy(t, E[e], epar); ent = e < 0 ? "shannon" : e == 4 ? "logenergy" : E[e]; }
/* arbitrary node costs, fixed signal */
static void bestcase(const char *nm, int N, int J, int per, int e, int reuse, int from) {
  SYM_CASE("best basis %s %s N=%d J=%d entropy %d reuse %d costs from %d", nm, per ? "per" : "sym", N, J, e, reuse, from) {
    wave_object w = wave_init(nm); wpt_object t = wpt_init(w, N, J); if (per || reuse) setDWPTExtension(t, per ? "per" : "sym"); ent_of(t, e); mode = 0; double *x = malloc(8 * N), *z = malloc(8 * N); fill(x, N, 0); for (int i = 0; i < N; i++) z[i] = x[N - 1 - i] * 0.5 + 0.25 * i / N;
    for (int r = 0; r <= reuse; r++) { double *s = r == reuse ? x : z; nodes(w, s, N, J, per); for (int k = 0; k < NN; k++) cost[k] = r < reuse ? (reuse == 2 ? (k == 0 ? 0 : 1) : k ? 1.0 / (8 * k) : 9) : k >= from || k < 3 ? sym_n("cost", k, -2, 2) : 0.5 / (1 + k % 5); ncall = 0; memset(seen, 0, sizeof seen); dwpt(t, s); for (int k = 0; k < NN; k++) sym_true(seen[k], "node %d was costed", k); unsigned m = check(t, w, s, N, J, 1);
      if (r == reuse) { ntree = gen(0, trees); for (int i = 0; i < ntree; i++) if (trees[i] != m) sym_le(tcost(m), tcost(trees[i]), 1e-9, "basis %x costs no more than %x", m, trees[i]); } nfree(); }
    free(x); free(z); wpt_free(t); wave_free(w);
  }
}
/* arbitrary signal, fixed costs */
static void packcase(const char *nm, int N, int J, int per, int pat, int nsym) {
  SYM_CASE("packet %s %s N=%d J=%d pattern %d", nm, per ? "per" : "sym", N, J, pat) {
    wave_object w = wave_init(nm); wpt_object t = wpt_init(w, N, J); setDWPTExtension(t, per ? "per" : "sym"); ent_of(t, pat % 6 - 1); double *x = malloc(8 * N), *k = malloc(8 * N); fill(x, N, nsym); memcpy(k, x, 8 * N); nodes(w, x, N, J, per); ncall = 0;
    if (pat <= J) { mode = 1; for (int l = 0; l <= J; l++) cost[l] = l == pat ? 1 : 2; } else { mode = 2; sym_rseed(pat * 7 + J); for (int i = 0; i < 61; i++) cost[i] = (1 + sym_rnd(16)) / 16.0; cost[1] = 100; }
    dwpt(t, x); for (int i = 0; i < N; i++) sym_eq(x[i], k[i], 0, "input preserved"); unsigned m = check(t, w, x, N, J, 1); int dl = 1; for (int l = 1; l <= J; l++) for (int q = 0; q < l; q++) dl &= nl[(1 << l) - 1] != nl[(1 << q) - 1]; if (pat <= J && dl) { unsigned want = 0; for (int y = 0; y < 1 << pat; y++) want |= 1u << ((1 << pat) - 1 + y); sym_true(m == want, "basis %x is level %d", m, pat); }
    nfree(); free(x); free(k); wpt_free(t); wave_free(w);
  }
}
static int okper(int N, int J, int lf) { int c = N, ok = N >= lf; for (int j = 1; j <= J; j++) { c = (c + 1) / 2; ok &= c >= lf / 2 && c >= 2; } return ok; }
int main(int argc, char **argv) {
  int th = sym_tier(); static const char *S[] = {"haar", "db2", "db4", "sym4", "coif1", "bior2.2", "rbior1.3", "bior3.3", "db7"}; static const int Ns[] = {8, 9, 11, 16, 21, 22, 23, 30, 40, 57, 64};
  for (int i = 0; i < 9; i++) { int lf = filtlength(S[i]); for (int n = 0; n < 11; n++) for (int per = 0; per < 2; per++) for (int J = 1; J <= (int)log((double)Ns[n]) && J <= 4; J++) { int N = Ns[n]; if (N < lf || (per && !okper(N, J, lf))) continue; 
      if (th || (i + n + J) % 2 == 0) treecase(S[i], N, J, per, N <= 11 ? N : 4);
      if (th || (i + n + J + per) % 3 == 0 || N <= 11) for (int pat = 0; pat <= J + (th ? 6 : 3); pat++) packcase(S[i], N, J, per, pat, N <= 11 ? N : 3);
      if (J <= 2 && (th || (i + n) % 2 == 0)) bestcase(S[i], N, J, per, (i + n) % 6 - 1, (n + i / 2) % 3, 0);
      if (J == 3 && (i == 0 || i == 5) && (th || N < 24)) bestcase(S[i], N, J, per, (i + n) % 6 - 1, n % 3, th ? 0 : per ? 0 : 7); } }
  return 0;
}
