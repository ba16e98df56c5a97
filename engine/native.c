/* Native runtime: runs one harness case on the concrete values of a model (replay / witness). */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
static char casesel[256]; static int incase; static FILE *out; static double slack = 1.0;
static struct { char n[64]; double v; } *mod; static int nmod; static int nviol, nassert, expect_exit, printvals;
static void load(void) {
  static int done; if (done) return; done = 1;
  out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) {}
  const char *f = getenv("SYM_MODEL"); FILE *fp = f ? fopen(f, "r") : 0; char line[512];
  printvals = getenv("SYM_VALUES") != 0;
  if (getenv("SYM_SLACK")) slack = atof(getenv("SYM_SLACK"));
  if (!fp) { fprintf(out, "no model\n"); exit(4); }
  while (fgets(line, sizeof line, fp)) {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "case ", 5)) { strncpy(casesel, line + 5, 255); continue; }
    char *sp = strrchr(line, ' '); if (!sp) continue; *sp = 0;
    mod = realloc(mod, sizeof(*mod) * (nmod + 1)); strncpy(mod[nmod].n, line, 63); mod[nmod].n[63] = 0; mod[nmod].v = strtod(sp + 1, 0); nmod++;
  }
  fclose(fp);
}
static int find(const char *n, double *v) { for (int i = 0; i < nmod; i++) if (!strcmp(mod[i].n, n)) { *v = mod[i].v; return 1; } return 0; }
double sym(const char *name, double lo, double hi) { double v; load(); if (find(name, &v)) return v; return lo + (hi - lo) * 0.5; }
double sym_n(const char *name, int i, double lo, double hi) { char b[96]; snprintf(b, 96, "%s[%d]", name, i); return sym(b, lo, hi); }
void sym_arr(double *v, int n, const char *name, double lo, double hi) { for (int i = 0; i < n; i++) v[i] = sym_n(name, i, lo, hi); }
int sym_choice(const char *name, int lo, int hi) { double v; load(); if (find(name, &v)) return (int)v; return lo; (void)hi; }
double sym_cut(double a, const char *n, double lo, double hi) { (void)n; (void)lo; (void)hi; return a; }
static void finish(int code) { fprintf(out, "done asserts=%d violations=%d\n", nassert, nviol); fflush(out); _exit(code); }
void sym_assume(int c) { if (!c) { fprintf(out, "assume-false\n"); finish(nviol ? 1 : 5); } }
static void viol(const char *k, double a, double b, const char *fmt, va_list ap) { char l[256]; vsnprintf(l, 256, fmt, ap); fprintf(out, "VIOL %s %s : %.17g vs %.17g\n", k, l, a, b); nviol++; }
void sym_eq(double a, double b, double tol, const char *fmt, ...) { va_list ap; va_start(ap, fmt); nassert++;
  if (printvals) fprintf(out, "VAL %.17g %.17g\n", a, b);
  if (!(fabs(a - b) <= tol * slack) && a != b) viol("eq", a, b, fmt, ap); va_end(ap); }
void sym_le(double a, double b, double tol, const char *fmt, ...) { va_list ap; va_start(ap, fmt); nassert++;
  if (printvals) fprintf(out, "VAL %.17g %.17g\n", a, b);
  if (!(a <= b + tol * slack)) viol("le", a, b, fmt, ap); va_end(ap); }
void sym_true(int c, const char *fmt, ...) { va_list ap; va_start(ap, fmt); nassert++; if (!c) viol("true", 0, 1, fmt, ap); va_end(ap); }
void sym_def(double a, const char *fmt, ...) { va_list ap; va_start(ap, fmt); nassert++; if (a != a) viol("def", a, a, fmt, ap); va_end(ap); }
int sym_case_begin(const char *fmt, ...) { char b[256]; load(); va_list ap; va_start(ap, fmt); vsnprintf(b, 256, fmt, ap); va_end(ap); if (!strcmp(b, casesel)) { incase = 1; return 1; } return 0; }
int sym_case_end(void) { finish(nviol ? 1 : 0); return 0; }
void sym_expect_exit(int on) { expect_exit = on; }
int sym_tier(void) { const char *t = getenv("SYM_TIER"); return t && !strcmp(t, "thorough"); }
int sym_native(void) { return 1; }
int sym_is(double a) { (void)a; return 0; }
static void onexit(void) { if (incase && out && !expect_exit) { fprintf(out, "VIOL exit library terminated the process : 0 vs 1\n"); nviol++; } if (incase && out) { fprintf(out, "done asserts=%d violations=%d\n", nassert, nviol); fflush(out); _exit(nviol ? 1 : 0); } }
__attribute__((constructor)) static void init(void) { atexit(onexit); }

double sym_dot(const double *c, const double *x, int n) { double s = 0; for (int i = 0; i < n; i++) s += c[i] * x[i]; return s; }
