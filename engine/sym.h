/* Harness interface.  The same harness source is built twice: against the symbolic runtime
 * (engine/runtime.cpp, after the FP-rewriting pass) and against the native runtime
 * (engine/native.c), which reads concrete values of a model and is used for replay. */
#ifndef SYM_H
#define SYM_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
double sym(const char *name, double lo, double hi);          /* arbitrary real in [lo,hi] */
void sym_arr(double *v, int n, const char *name, double lo, double hi);
double sym_n(const char *name, int i, double lo, double hi); /* name[i] */
int sym_choice(const char *name, int lo, int hi);            /* arbitrary int in [lo,hi], forks */
void sym_assume(int cond);                                   /* cut the path if cond is false */
void sym_eq(double a, double b, double tol, const char *fmt, ...);   /* |a-b| <= tol */
void sym_le(double a, double b, double tol, const char *fmt, ...);   /* a <= b + tol */
void sym_true(int cond, const char *fmt, ...);               /* concrete / branch-decided condition */
void sym_def(double a, const char *fmt, ...);                /* a is a defined number (not NaN/uninit) */
double sym_dot(const double *c, const double *x, int n);      /* sum of c[i]*x[i] (one node) */
int  sym_case_begin(const char *fmt, ...);
int  sym_case_end(void);
void sym_expect_exit(int on);                                /* library may call exit() from here on */
int  sym_tier(void);                                         /* 0 quick, 1 thorough */
int  sym_native(void);
double sym_cut(double a, const char *name, double lo, double hi); /* cut point: fresh value (symbolic build) */
int  sym_is(double a);                                       /* is symbolic (0 in native) */
#define SYM_CASE(...) for (int sym_c_ = sym_case_begin(__VA_ARGS__); sym_c_; sym_c_ = sym_case_end())
/* fixed pseudo-random constants for the concrete side of a harness */
static unsigned long long sym_rs_ = 88172645463325252ULL;
static inline void sym_rseed(unsigned s) { sym_rs_ = 88172645463325252ULL ^ ((unsigned long long)(s + 1) * 2654435761ULL); sym_rs_ ^= sym_rs_ << 13; sym_rs_ ^= sym_rs_ >> 7; sym_rs_ ^= sym_rs_ << 17; }
static inline int sym_rnd(int n) { sym_rs_ ^= sym_rs_ << 13; sym_rs_ ^= sym_rs_ >> 7; sym_rs_ ^= sym_rs_ << 17; return (int)((sym_rs_ >> 20) % (unsigned long long)n); }
static inline double sym_runi(void) { return (sym_rnd(2001) - 1000) / 1000.0; }
#endif
