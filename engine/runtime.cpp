// Symbolic runtime.  Symbolic doubles are NaN-boxed handles (0x7FFC | 48-bit node id) to a hash-consed
// expression DAG; see DESIGN.md.  Branches on symbolic values are decided by z3 and explored by fork().
#include <sys/prctl.h>
#include <z3++.h>
#include <gmp.h>
#include <atomic>
#include <cfloat>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <map>
#include <vector>
#include <algorithm>
#include <execinfo.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
typedef __float128 Q;
typedef uint32_t u32;
using std::string; using std::vector;
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<long> queries, sat, unsat, unknown, us, paths, cases, asserts, trivial, fpok, fpno, nodesmax, divassume,
    timeouts, viol, crashed, assumecut, inconclusive, forks, zeroid, unexplored;
  std::atomic<int> tokens; std::atomic<int> lock; int nfun; char fun[3000][48];
};
static Shared *S; static int outfd = -1; static int g_tier; static unsigned g_seed = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double g_start, g_budget = 600, g_casebudget = 120; static long g_rlimit = 20000000; static unsigned g_qms = 6000;
static long g_maxpaths = 20000;

// ---------------------------------------------------------------- polynomials over atoms
struct Poly { vector<std::pair<u32, Q>> t; double slop = 0; };
static vector<vector<std::pair<int, int>>> monos; static vector<double> monomag;
static std::map<vector<std::pair<int, int>>, u32> monoid;
static std::unordered_map<uint64_t, u32> monomulc;
enum { V_INPUT, V_DIV, V_SQRT, V_ABS, V_EXP, V_LOG, V_UF };
struct Var { int kind; string name; double lo, hi; u32 node; Poly num, den; string fn; int polyarg; };
static vector<Var> vars;
static u32 getMono(const vector<std::pair<int, int>> &m) {
  auto it = monoid.find(m); if (it != monoid.end()) return it->second;
  u32 id = monos.size(); monos.push_back(m); monoid[m] = id; double g = 1;
  for (auto &p : m) { double a = std::max(fabs(vars[p.first].lo), fabs(vars[p.first].hi)); for (int i = 0; i < p.second; i++) g *= a; }
  monomag.push_back(g * (1 + 1e-12)); return id;
}
static u32 mulMono(u32 a, u32 b) {
  if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | b; auto it = monomulc.find(k); if (it != monomulc.end()) return it->second;
  vector<std::pair<int, int>> r; auto &x = monos[a], &y = monos[b]; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  u32 id = getMono(r); monomulc[k] = id; return id;
}
static const double QEPS = 2e-34; // > 2^-112
static inline Q qabs(Q x) { return x < 0 ? -x : x; }
static void addSlop(Poly &p, u32 m, Q c) { double s = (double)qabs(c) * monomag[m]; if (std::isfinite(s)) p.slop += s * QEPS; }
static Poly pconst(double c) { Poly p; if (c != 0) p.t.push_back({0, (Q)c}); return p; }
static Poly padd(const Poly &a, const Poly &b, Q sb) {
  Poly r; r.slop = a.slop + b.slop * (double)qabs(sb); r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { Q c = b.t[j].second * sb; r.t.push_back({b.t[j].first, c}); if (sb != 1 && sb != -1) addSlop(r, b.t[j].first, c); j++; }
    else {
      Q x = a.t[i].second, y = b.t[j].second * sb, c = x + y; Q big = qabs(x) > qabs(y) ? qabs(x) : qabs(y);
      addSlop(r, a.t[i].first, 2 * big);
      if (qabs(c) > big * (Q)1e-27) r.t.push_back({a.t[i].first, c}); // cancelled to noise: dropped, kept in slop
      else { double s = (double)qabs(c) * monomag[a.t[i].first]; if (std::isfinite(s)) r.slop += s; }
      i++; j++;
    }
  }
  return r;
}
static Poly pscale(const Poly &a, Q c) { Poly r; if (c == 0) return r; r.slop = a.slop * (double)qabs(c); r.t.reserve(a.t.size()); for (auto &p : a.t) { Q v = p.second * c; r.t.push_back({p.first, v}); addSlop(r, p.first, v); } return r; }
static double pmag(const Poly &a) { double s = a.slop; for (auto &p : a.t) s += (double)qabs(p.second) * monomag[p.first]; return s; }
static size_t g_maxterms = 60000; struct TooBig {};
static Poly preduce(Poly p);
static bool haveSquares = false;
static Poly pmul(const Poly &a, const Poly &b) {
  if (a.t.size() == 1 && a.t[0].first == 0 && a.slop == 0) return pscale(b, a.t[0].second);
  if (b.t.size() == 1 && b.t[0].first == 0 && b.slop == 0) return pscale(a, b.t[0].second);
  if (a.t.empty() && a.slop == 0) return a; if (b.t.empty() && b.slop == 0) return b;
  if ((double)a.t.size() * b.t.size() > 4e6) throw TooBig();
  struct Acc { Q c; Q big; }; std::unordered_map<u32, Acc> acc; acc.reserve(a.t.size() * b.t.size());
  for (auto &x : a.t) for (auto &y : b.t) { u32 m = mulMono(x.first, y.first); Q v = x.second * y.second; auto &e = acc[m]; if (e.big == 0) { e.c = v; e.big = qabs(v); } else { e.c += v; if (qabs(v) > e.big) e.big = qabs(v); } }
  Poly r; double sl = 0;
  if (a.slop > 0 || b.slop > 0) { double ma = pmag(a), mb = pmag(b); if (std::isfinite(ma) && std::isfinite(mb)) sl = a.slop * mb + b.slop * ma; }
  r.slop = sl; r.t.reserve(acc.size());
  for (auto &e : acc) { Q c = e.second.c; double s = (double)e.second.big * monomag[e.first] * 4 * QEPS * std::min(a.t.size(), b.t.size()); if (std::isfinite(s)) r.slop += s;
    if (qabs(c) > e.second.big * (Q)1e-27) r.t.push_back({e.first, c}); else { double z = (double)qabs(c) * monomag[e.first]; if (std::isfinite(z)) r.slop += z; } }
  std::sort(r.t.begin(), r.t.end(), [](const std::pair<u32, Q> &x, const std::pair<u32, Q> &y) { return x.first < y.first; });
  if (r.t.size() > g_maxterms) throw TooBig();
  return haveSquares ? preduce(std::move(r)) : r;
}
// s^2 -> argument for s = sqrt(poly); |a|^2 -> a^2
static Poly preduce(Poly p) {
  for (int guard = 0; guard < 40; guard++) {
    bool any = false; Poly rest, add; rest.slop = p.slop;
    for (auto &t : p.t) {
      int hit = -1; for (auto &f : monos[t.first]) if (f.second >= 2 && (vars[f.first].kind == V_SQRT || vars[f.first].kind == V_ABS) && vars[f.first].polyarg) { hit = f.first; break; }
      if (hit < 0) { rest.t.push_back(t); continue; }
      any = true; vector<std::pair<int, int>> m = monos[t.first];
      for (size_t i = 0; i < m.size(); i++) if (m[i].first == hit) { m[i].second -= 2; if (!m[i].second) m.erase(m.begin() + i); break; }
      Poly mono; mono.t.push_back({getMono(m), t.second});
      bool save = haveSquares; haveSquares = false;
      Poly sub = vars[hit].kind == V_SQRT ? vars[hit].num : pmul(vars[hit].num, vars[hit].num);
      Poly pr = pmul(mono, sub); haveSquares = save; add = padd(add, pr, 1);
    }
    if (!any) return p;
    p = padd(rest, add, 1);
  }
  return p;
}
static bool pnear(const Poly &a, const Poly &b, int sgn) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) { if (a.t[i].first != b.t[i].first) return false; Q d = a.t[i].second - b.t[i].second * sgn; if (qabs(d) > qabs(a.t[i].second) * (Q)1e-24) return false; }
  return true;
}
// ---------------------------------------------------------------- DAG
enum { CONST, VAR, ADD, SUB, MUL, DIV, NEG, LIN };
static std::vector<std::vector<std::pair<u32, double>>> lins; // LIN nodes: sum of c*node
struct Ratio { Poly num; vector<std::pair<int, int>> den; };
struct Node { int op; u32 a, b; double c; int var; double lo, hi, err; Poly *nf = nullptr; Ratio *ra = nullptr; char hasdiv = 0; };
static vector<Node> N; static std::unordered_map<string, u32> cons;
static const uint64_t TAG = 0x7FFCULL << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double fromu(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isS(double d) { return (bits(d) >> 48) == 0x7FFC; }
static inline u32 idOf(double d) { return (u32)bits(d); }
static inline double mk(u32 id) { return fromu(TAG | id); }
static string key(int op, uint64_t a, uint64_t b) { char buf[20]; memcpy(buf, &op, 4); memcpy(buf + 4, &a, 8); memcpy(buf + 12, &b, 8); return string(buf, 20); }
static u32 newNode(const string &k, Node n) { if (N.size() > 30000000) { fprintf(stderr, "too many nodes\n"); _exit(9); } N.push_back(n); cons[k] = N.size() - 1; return N.size() - 1; }
static u32 cnode(double c) { string k = key(CONST, bits(c), 0); auto it = cons.find(k); if (it != cons.end()) return it->second; Node n; n.op = CONST; n.a = n.b = 0; n.c = c; n.var = -1; n.lo = n.hi = c; n.err = 0; return newNode(k, n); }
static u32 toNode(double d) { return isS(d) ? idOf(d) : cnode(d); }
static const double U = 1.2e-16;
static double dn(double x) { return std::isfinite(x) ? x - fabs(x) * 1e-14 - 1e-300 : x; }
static double up(double x) { return std::isfinite(x) ? x + fabs(x) * 1e-14 + 1e-300 : x; }
static double mx(const Node &n) { return std::max(fabs(n.lo), fabs(n.hi)); }
static double nz(double x) { return std::isnan(x) ? INFINITY : x; }
static const Poly &nf(u32 id); static const Ratio &ratio(u32 id);
static void newVarHook(int v); // declares solver variable
static int newVar(int kind, const string &name, double lo, double hi) { Var v; v.kind = kind; v.name = name; v.lo = lo; v.hi = hi; v.node = 0; v.polyarg = 0; vars.push_back(v); return vars.size() - 1; }
static Poly pvar(int v) { Poly p; p.t.push_back({getMono({{v, 1}}), (Q)1}); return p; }
static bool isConstPoly(const Poly &p, Q *c) { if (p.t.empty()) { *c = 0; return true; } if (p.t.size() == 1 && p.t[0].first == 0) { *c = p.t[0].second; return true; } return false; }
static double bin(int op, double x, double y) {
  u32 a = toNode(x), b = toNode(y); if ((op == ADD || op == MUL) && a > b) std::swap(a, b);
  string k = key(op, a, b); auto it = cons.find(k); if (it != cons.end()) return mk(it->second);
  Node n; n.op = op; n.a = a; n.b = b; n.c = 0; n.var = -1; const Node &A = N[a], &B = N[b]; n.hasdiv = A.hasdiv | B.hasdiv;
  if (op == ADD) { n.lo = dn(A.lo + B.lo); if (A.lo >= 0 && B.lo >= 0 && n.lo < 0) n.lo = 0; n.hi = up(A.hi + B.hi); }
  else if (op == SUB) { n.lo = dn(A.lo - B.hi); n.hi = up(A.hi - B.lo); }
  else if (op == MUL) {
    double p[4] = {A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi}; n.lo = INFINITY; n.hi = -INFINITY;
    for (double v : p) { if (std::isnan(v)) { n.lo = -INFINITY; n.hi = INFINITY; break; } n.lo = std::min(n.lo, v); n.hi = std::max(n.hi, v); }
    n.lo = dn(n.lo); n.hi = up(n.hi);
    if (a == b) { double h = up(std::max(A.lo * A.lo, A.hi * A.hi)), l = (A.lo <= 0 && A.hi >= 0) ? 0 : dn(std::min(A.lo * A.lo, A.hi * A.hi)); n.lo = std::max(0.0, l); n.hi = nz(h); }
  } else { // DIV
    n.hasdiv |= B.op != CONST;
    if (B.lo <= 0 && B.hi >= 0) { n.lo = -INFINITY; n.hi = INFINITY; }
    else { double p[4] = {A.lo / B.lo, A.lo / B.hi, A.hi / B.lo, A.hi / B.hi}; n.lo = INFINITY; n.hi = -INFINITY; for (double v : p) { if (std::isnan(v)) { n.lo = -INFINITY; n.hi = INFINITY; break; } n.lo = std::min(n.lo, v); n.hi = std::max(n.hi, v); } n.lo = dn(n.lo); n.hi = up(n.hi); }
  }
  double ma = mx(A), mb = mx(B), m = mx(n), e;
  if (op == ADD || op == SUB) e = A.err + B.err; else if (op == MUL) e = nz(ma * B.err) + nz(mb * A.err) + nz(A.err * B.err);
  else { double minb = (B.lo <= 0 && B.hi >= 0) ? 0 : std::min(fabs(B.lo), fabs(B.hi)); e = minb - B.err <= 0 ? INFINITY : (A.err + nz(m * B.err)) / (minb - B.err); }
  if (A.err == 0 && ma == 0) e = 0;
  n.err = up(nz(e + U * (m + e))); n.err = nz(n.err);
  return mk(newNode(k, n));
}
static inline bool bad(double d) { return !isS(d) && !std::isfinite(d); }
static inline bool allones(double d) { return bits(d) == ~0ULL; }
static double poison() { return fromu(~0ULL); }
extern "C" {
double __s_add(double a, double b) { bool x = isS(a), y = isS(b); if (!x && !y) { if (allones(a) || allones(b)) return poison(); return a + b; } if (bad(a)) return a; if (bad(b)) return b; if (!x && a == 0) return b; if (!y && b == 0) return a; return bin(ADD, a, b); }
double __s_neg(double a);
double __s_sub(double a, double b) { bool x = isS(a), y = isS(b); if (!x && !y) { if (allones(a) || allones(b)) return poison(); return a - b; } if (bad(a)) return a; if (bad(b)) return allones(b) ? b : -b; if (!y && b == 0) return a; if (!x && a == 0) return __s_neg(b); if (bits(a) == bits(b)) return 0.0; return bin(SUB, a, b); }
double __s_mul(double a, double b) { bool x = isS(a), y = isS(b); if (!x && !y) { if (allones(a) || allones(b)) return poison(); return a * b; } if (bad(a)) return allones(a) ? a : NAN; if (bad(b)) return allones(b) ? b : NAN; if ((!x && a == 0) || (!y && b == 0)) return 0.0; if (!x && a == 1) return b; if (!y && b == 1) return a; if (!x && a == -1) return __s_neg(b); if (!y && b == -1) return __s_neg(a); return bin(MUL, a, b); }
double __s_div(double a, double b) { bool x = isS(a), y = isS(b); if (!x && !y) { if (allones(a) || allones(b)) return poison(); return a / b; } if (bad(a)) return allones(a) ? a : NAN; if (bad(b)) return allones(b) ? b : (std::isnan(b) ? b : 0.0); if (!y && b == 0) return NAN; if (!y && b == 1) return a; if (!y && b == -1) return __s_neg(a); if (bits(a) == bits(b)) { S->divassume++; return 1.0; } if (!x && a == 0) return 0.0; return bin(DIV, a, b); }
double __s_neg(double a) { if (!isS(a)) return -a; u32 i = idOf(a); if (N[i].op == NEG) return mk(N[i].a); string k = key(NEG, i, 0); auto it = cons.find(k); if (it != cons.end()) return mk(it->second); Node n; n.op = NEG; n.a = i; n.b = 0; n.c = 0; n.var = -1; n.lo = -N[i].hi; n.hi = -N[i].lo; n.err = N[i].err; n.hasdiv = N[i].hasdiv; return mk(newNode(k, n)); }
}
// ---------------------------------------------------------------- normal forms
static void divVar(u32 id);
static const Poly &nf(u32 root) {
  if (N[root].nf) return *N[root].nf;
  vector<u32> st{root};
  while (!st.empty()) {
    u32 i = st.back(); if (N[i].nf) { st.pop_back(); continue; }
    int op = N[i].op; u32 a = N[i].a, b = N[i].b;
    if (op == CONST) { N[i].nf = new Poly(pconst(N[i].c)); continue; }
    if (op == VAR) { N[i].nf = new Poly(pvar(N[i].var)); continue; }
    if (op == LIN) { bool ok = true; for (auto &t : lins[N[i].a]) if (!N[t.first].nf) { st.push_back(t.first); ok = false; } if (!ok) continue;
      std::map<u32, std::pair<Q, Q>> acc; Poly r; for (auto &t : lins[N[i].a]) { const Poly &p = *N[t.first].nf; r.slop += p.slop * fabs(t.second); for (auto &m : p.t) { Q v = m.second * (Q)t.second; auto &e = acc[m.first]; e.first += v; if (qabs(v) > e.second) e.second = qabs(v); } }
      double k = lins[N[i].a].size() + 2; for (auto &e : acc) { double sl = (double)e.second.second * monomag[e.first] * QEPS * k; if (std::isfinite(sl)) r.slop += sl; if (qabs(e.second.first) > e.second.second * (Q)1e-27) r.t.push_back({e.first, e.second.first}); }
      N[i].nf = new Poly(std::move(r)); st.pop_back(); continue; }
    bool ok = true; if (!N[a].nf) { st.push_back(a); ok = false; } if (op != NEG && !N[b].nf) { st.push_back(b); ok = false; }
    if (!ok) continue;
    Poly r;
    if (op == ADD) r = padd(*N[a].nf, *N[b].nf, 1); else if (op == SUB) r = padd(*N[a].nf, *N[b].nf, -1);
    else if (op == NEG) r = pscale(*N[a].nf, -1); else if (op == MUL) r = pmul(*N[a].nf, *N[b].nf);
    else { Q c; if (isConstPoly(*N[b].nf, &c) && c != 0) r = pscale(*N[a].nf, (Q)1 / c); else { divVar(i); r = pvar(N[i].var); } }
    N[i].nf = new Poly(std::move(r)); st.pop_back();
  }
  return *N[root].nf;
}
static vector<Poly> factors_; static vector<double> factlo_; // denominator factors and lower bounds of |factor|
static int getFactor(const Poly &p) { for (size_t i = 0; i < factors_.size(); i++) if (pnear(factors_[i], p, 1)) return i; factors_.push_back(p); factlo_.push_back(0); return factors_.size() - 1; }
static Poly factPow(int f, int e) { Poly r = pconst(1); for (int i = 0; i < e; i++) r = pmul(r, factors_[f]); return r; }
typedef vector<std::pair<int, int>> Den;
static Den dlcm(const Den &a, const Den &b) { std::map<int, int> m; for (auto &p : a) m[p.first] = std::max(m[p.first], p.second); for (auto &p : b) m[p.first] = std::max(m[p.first], p.second); return Den(m.begin(), m.end()); }
static Poly cofactor(const Den &l, const Den &d) { Poly r = pconst(1); for (auto &p : l) { int e = p.second; for (auto &q : d) if (q.first == p.first) e -= q.second; if (e > 0) r = pmul(r, factPow(p.first, e)); } return r; }
// exact multivariate division attempt: num = q * f ?  (lead term by mono id order is not a monomial order; use graded lex on var exps)
static bool monoLess(u32 a, u32 b) { // graded lex
  if (a == b) return false; int da = 0, db = 0; for (auto &p : monos[a]) da += p.second; for (auto &p : monos[b]) db += p.second; if (da != db) return da < db;
  auto &x = monos[a], &y = monos[b]; size_t i = 0; for (;; i++) { if (i >= x.size()) return i < y.size(); if (i >= y.size()) return false; if (x[i].first != y[i].first) return x[i].first > y[i].first; if (x[i].second != y[i].second) return x[i].second < y[i].second; }
}
static bool monoDiv(u32 a, u32 b, u32 *r) { vector<std::pair<int, int>> o; auto &x = monos[a], &y = monos[b]; size_t j = 0; for (auto &p : x) { int e = p.second; if (j < y.size() && y[j].first == p.first) { e -= y[j].second; j++; } if (e < 0) return false; if (e) o.push_back({p.first, e}); } if (j < y.size()) return false; *r = getMono(o); return true; }
static bool pdivide(const Poly &n, const Poly &f, Poly *q) {
  if (f.t.empty() || n.t.size() > 3000) return false; if (haveSquares) return false;
  auto lead = [&](const Poly &p) { size_t b = 0; for (size_t i = 1; i < p.t.size(); i++) if (monoLess(p.t[b].first, p.t[i].first)) b = i; return b; };
  size_t lf = lead(f); Poly r = n, res; int steps = 0; Q mxc = 0; for (auto &t : n.t) if (qabs(t.second) > mxc) mxc = qabs(t.second);
  while (!r.t.empty()) { if (++steps > 400) return false; size_t lr = lead(r); u32 m; if (!monoDiv(r.t[lr].first, f.t[lf].first, &m)) return false; Poly t; t.t.push_back({m, r.t[lr].second / f.t[lf].second}); u32 lm = r.t[lr].first; Poly pr = pmul(t, f); r = padd(r, pr, -1); for (size_t i = 0; i < r.t.size(); i++) if (r.t[i].first == lm) { r.t.erase(r.t.begin() + i); break; } for (size_t i = 0; i < r.t.size();) if (qabs(r.t[i].second) < mxc * (Q)1e-24) r.t.erase(r.t.begin() + i); else i++; res = padd(res, t, 1); }
  *q = res; return true;
}
static void rsimplify(Ratio &r) {
  if (r.num.t.empty()) { r.den.clear(); return; }
  for (size_t i = 0; i < r.den.size();) { Poly q; bool done = false; while (r.den[i].second > 0 && pdivide(r.num, factors_[r.den[i].first], &q)) { r.num = q; r.den[i].second--; done = true; } (void)done; if (!r.den[i].second) r.den.erase(r.den.begin() + i); else i++; }
}
static const Ratio &ratio(u32 root) {
  if (N[root].ra) return *N[root].ra;
  vector<u32> st{root};
  while (!st.empty()) {
    u32 i = st.back(); if (N[i].ra) { st.pop_back(); continue; }
    int op = N[i].op; u32 a = N[i].a, b = N[i].b; Ratio r;
    if (!N[i].hasdiv || op == CONST || op == VAR) { r.num = nf(i); N[i].ra = new Ratio(r); continue; }
    if (op == LIN) { bool ok = true; for (auto &t : lins[N[i].a]) if (!N[t.first].ra) { st.push_back(t.first); ok = false; } if (!ok) continue;
      for (auto &t : lins[N[i].a]) { const Ratio &B = *N[t.first].ra; Den l = dlcm(r.den, B.den); r.num = padd(pmul(r.num, cofactor(l, r.den)), pmul(B.num, cofactor(l, B.den)), (Q)t.second); r.den = l; }
      rsimplify(r); N[i].ra = new Ratio(std::move(r)); st.pop_back(); continue; }
    bool ok = true; if (!N[a].ra) { st.push_back(a); ok = false; } if (op != NEG && !N[b].ra) { st.push_back(b); ok = false; } if (!ok) continue;
    const Ratio &A = *N[a].ra; 
    if (op == NEG) { r = A; r.num = pscale(r.num, -1); }
    else { const Ratio &B = *N[b].ra;
      if (op == ADD || op == SUB) { Den l = dlcm(A.den, B.den); r.num = padd(pmul(A.num, cofactor(l, A.den)), pmul(B.num, cofactor(l, B.den)), op == ADD ? 1 : -1); r.den = l; }
      else if (op == MUL) { r.num = pmul(A.num, B.num); std::map<int, int> m; for (auto &p : A.den) m[p.first] += p.second; for (auto &p : B.den) m[p.first] += p.second; r.den = Den(m.begin(), m.end()); }
      else { Q c; // A / B = A.num * B.den / (A.den * B.num)
        std::map<int, int> m; for (auto &p : A.den) m[p.first] += p.second; Poly n = A.num;
        for (auto &p : B.den) { int e = p.second; int &h = m[p.first]; int k = std::min(e, h); h -= k; e -= k; if (e) n = pmul(n, factPow(p.first, e)); }
        if (isConstPoly(B.num, &c)) n = pscale(n, (Q)1 / c);
        else { // normalise factor by leading coefficient
          Q lc = B.num.t.back().second; Poly f = pscale(B.num, (Q)1 / lc); n = pscale(n, (Q)1 / lc); int fi = getFactor(f); m[fi]++; if (B.den.empty()) { const Node &bn = N[b]; double lb = (bn.lo <= 0 && bn.hi >= 0) ? 0 : std::min(fabs(bn.lo), fabs(bn.hi)); lb /= (double)qabs(lc); if (lb > factlo_[fi]) factlo_[fi] = lb * (1 - 1e-12); } }
        r.num = n; for (auto &p : m) if (p.second) r.den.push_back(p); }
      rsimplify(r); }
    N[i].ra = new Ratio(std::move(r)); st.pop_back();
  }
  return *N[root].ra;
}
// ---------------------------------------------------------------- z3
enum { C_LT, C_LE, C_EQ, C_NE, C_GT, C_GE };
struct Con { Poly p; int op; };
static vector<Con> pc; static z3::context *Z; static z3::solver *L; static vector<Z3_ast> zv, zm; // vars, monos in the relaxed solver
static int zvdone = 0;
static z3::expr qnum(Q c) {
  unsigned __int128 b; memcpy(&b, &c, 16); bool neg = (b >> 127) & 1; int e = (int)((b >> 112) & 0x7fff); unsigned __int128 m = b & ((((unsigned __int128)1) << 112) - 1);
  if (e) m |= ((unsigned __int128)1) << 112; else e = 1; e -= 16383 + 112;
  if (!m) return Z->real_val(0); while (!(m & 1)) { m >>= 1; e++; }
  mpz_t z; mpz_init(z); mpz_set_ui(z, (unsigned long)(m >> 64)); mpz_mul_2exp(z, z, 64); mpz_t lo; mpz_init(lo); mpz_set_ui(lo, (unsigned long)m); mpz_add(z, z, lo); if (e > 0) mpz_mul_2exp(z, z, e); if (neg) mpz_neg(z, z);
  char *s = mpz_get_str(nullptr, 10, z); string str = s; free(s);
  if (e < 0) { mpz_set_ui(z, 1); mpz_mul_2exp(z, z, -e); s = mpz_get_str(nullptr, 10, z); str += "/"; str += s; free(s); }
  mpz_clear(z); mpz_clear(lo); return Z->real_val(str.c_str());
}
static z3::expr dnum(double d) { return qnum((Q)d); }
static void zinit() { if (Z) return; Z = new z3::context(); L = new z3::solver(*Z); }
static z3::expr zvar(int v) { zinit(); while ((int)zv.size() <= v) { int i = zv.size(); z3::expr e = Z->real_const((vars[i].name + "!" + std::to_string(i)).c_str()); Z3_inc_ref(*Z, e); zv.push_back(e); if (std::isfinite(vars[i].lo)) L->add(e >= dnum(vars[i].lo)); if (std::isfinite(vars[i].hi)) L->add(e <= dnum(vars[i].hi)); } return z3::expr(*Z, zv[v]); }
static bool g_nonlin;
static z3::expr zmonoRelax(u32 m) {
  auto &f = monos[m]; if (f.size() == 1 && f[0].second == 1) { if (vars[f[0].first].kind != V_INPUT) g_nonlin = true; return zvar(f[0].first); }
  g_nonlin = true; while (zm.size() <= m) zm.push_back(nullptr);
  if (!zm[m]) { z3::expr e = Z->real_const(("m!" + std::to_string(m)).c_str()); Z3_inc_ref(*Z, e); zm[m] = e;
    double lo = 1, hi = 1; for (auto &p : f) for (int i = 0; i < p.second; i++) { double l = vars[p.first].lo, h = vars[p.first].hi; if (p.second % 2 == 0) { double a = std::max(fabs(l), fabs(h)), mi = (l <= 0 && h >= 0) ? 0 : std::min(fabs(l), fabs(h)); l = mi; h = a; } double q[4] = {lo * l, lo * h, hi * l, hi * h}; lo = INFINITY; hi = -INFINITY; for (double v : q) { if (std::isnan(v)) { lo = -INFINITY; hi = INFINITY; break; } lo = std::min(lo, v); hi = std::max(hi, v); } }
    lo = dn(lo); hi = up(hi); if (std::isfinite(lo)) L->add(e >= dnum(lo)); if (std::isfinite(hi)) L->add(e <= dnum(hi)); }
  return z3::expr(*Z, zm[m]);
}
static z3::expr zpoly(const Poly &p, bool relax) {
  zinit(); z3::expr_vector v(*Z);
  for (auto &t : p.t) {
    z3::expr c = qnum(t.second); if (!t.first) { v.push_back(c); continue; }
    if (relax) { v.push_back(c * zmonoRelax(t.first)); continue; }
    z3::expr m = c; for (auto &f : monos[t.first]) for (int i = 0; i < f.second; i++) m = m * zvar(f.first);
    v.push_back(m);
  }
  if (v.empty()) return Z->real_val(0); if (v.size() == 1) return v[0]; return z3::sum(v);
}
static z3::expr zcon(const Con &c, bool relax) { z3::expr e = zpoly(c.p, relax), o = Z->real_val(0); switch (c.op) { case C_LT: return e < o; case C_LE: return e <= o; case C_EQ: return e == o; case C_NE: return e != o; case C_GT: return e > o; default: return e >= o; } }
static std::map<int, double> *lastModel; // values of input vars satisfying pc
static void flushStats(z3::check_result r, double t0) { S->queries++; S->us += (long)((now() - t0) * 1e6); if (r == z3::sat) S->sat++; else if (r == z3::unsat) S->unsat++; else S->unknown++; }
static double zval(const z3::model &m, const z3::expr &v) { z3::expr e = m.eval(v, true); double d = 0; if (e.is_numeral(d)) return d; if (e.is_algebraic()) { z3::expr l(e.ctx(), Z3_get_algebraic_number_lower(e.ctx(), e, 60)); if (l.is_numeral(d)) return d; } return 0; }
static std::map<int, double> getModel(const z3::model &m) { std::map<int, double> r; for (size_t i = 0; i < vars.size(); i++) if (vars[i].kind == V_INPUT) { double v = i < zv.size() ? zval(m, z3::expr(*Z, zv[i])) : 0.5 * (vars[i].lo + vars[i].hi); if (v < vars[i].lo || v > vars[i].hi) v = fabs(v - vars[i].lo) < 1e-9 ? vars[i].lo : fabs(v - vars[i].hi) < 1e-9 ? vars[i].hi : 0.5 * (vars[i].lo + vars[i].hi); r[i] = v; } return r; }
static void atomDefs(z3::solver &s, std::vector<char> &seen, const Poly &p) {
  for (auto &t : p.t) for (auto &f : monos[t.first]) { int v = f.first; if (v < (int)seen.size() && seen[v]) continue; if (v >= (int)seen.size()) seen.resize(vars.size() + 1, 0); seen[v] = 1; const Var &V = vars[v]; z3::expr e = zvar(v);
      if (std::isfinite(V.lo)) s.add(e >= dnum(V.lo)); if (std::isfinite(V.hi)) s.add(e <= dnum(V.hi));
      if (V.kind == V_DIV) { z3::expr d = zpoly(V.den, false); s.add(e * d == zpoly(V.num, false)); s.add(d != Z->real_val(0)); atomDefs(s, seen, V.num); atomDefs(s, seen, V.den); }
      else if (V.kind == V_SQRT) { s.add(e * e == zpoly(V.num, false)); s.add(e >= Z->real_val(0)); atomDefs(s, seen, V.num); }
      else if (V.kind == V_ABS) { z3::expr n = zpoly(V.num, false); s.add(e == z3::ite(n >= Z->real_val(0), n, -n)); atomDefs(s, seen, V.num); } }
}
// full nonlinear check of pc + extra
static z3::check_result fullCheck(const vector<vector<Con>> &clauses, std::map<int, double> *model) {
  zinit(); double t0 = now(); z3::check_result r = z3::unknown;
  try {
    z3::solver s(*Z); z3::params p(*Z); p.set("rlimit", (unsigned)g_rlimit); p.set("timeout", g_qms); s.set(p); std::vector<char> seen(vars.size() + 1, 0);
    for (auto &c : pc) { atomDefs(s, seen, c.p); s.add(zcon(c, false)); }
    for (auto &cl : clauses) { z3::expr_vector v(*Z); for (auto &c : cl) { atomDefs(s, seen, c.p); v.push_back(zcon(c, false)); } s.add(v.size() == 1 ? v[0] : z3::mk_or(v)); }
    for (size_t i = 0; i < vars.size(); i++) if (vars[i].kind == V_INPUT && i < seen.size() && !seen[i]) {}
    r = s.check(); if (r == z3::sat && model) *model = getModel(s.get_model());
  } catch (z3::exception &e) { r = z3::unknown; }
  flushStats(r, t0); return r;
}
// relaxed (linear) check first, then full if needed
static bool pcNonlin = false;
static z3::check_result checkClauses(const vector<vector<Con>> &clauses, std::map<int, double> *model, bool relaxOnly = false) {
  zinit(); double t0 = now(); z3::check_result r = z3::unknown; bool nl = pcNonlin;
  try {
    L->push(); g_nonlin = false;
    for (auto &cl : clauses) { z3::expr_vector v(*Z); for (auto &c : cl) v.push_back(zcon(c, true)); L->add(v.size() == 1 ? v[0] : z3::mk_or(v)); }
    nl |= g_nonlin; z3::params p(*Z); p.set("rlimit", (unsigned)g_rlimit); p.set("timeout", g_qms); L->set(p); r = L->check();
    if (r == z3::sat && model) *model = getModel(L->get_model());
    L->pop();
  } catch (z3::exception &e) { r = z3::unknown; }
  // variables/monomials declared inside the pushed scope lose their bounds on pop: re-declare
  flushStats(r, t0);
  if (r == z3::unsat || (r == z3::sat && !nl) || relaxOnly) return r;
  return fullCheck(clauses, model);
}
static void predeclare(const Poly &p) { for (auto &t : p.t) if (t.first) zmonoRelax(t.first); }
static std::map<int, double> curModel; static bool curValid; // a model of the path condition, when known
static void addPC(const Con &c) { curValid = false; pc.push_back(c); zinit(); g_nonlin = false; predeclare(c.p); L->add(zcon(c, true)); if (g_nonlin) pcNonlin = true; }
static void divVar(u32 id) {
  Poly num = *N[N[id].a].nf, den = *N[N[id].b].nf; Q lc = den.t.back().second; num = pscale(num, (Q)1 / lc); den = pscale(den, (Q)1 / lc);
  for (size_t i = 0; i < vars.size(); i++) if (vars[i].kind == V_DIV && pnear(vars[i].num, num, 1) && pnear(vars[i].den, den, 1)) { N[id].var = i; return; }
  int v = newVar(V_DIV, "q", N[id].lo, N[id].hi); vars[v].num = num; vars[v].den = den; vars[v].node = id; N[id].var = v;
  const Node &B = N[N[id].b]; if (B.lo <= 0 && B.hi >= 0) { S->divassume++; Con c{den, C_NE}; addPC(c); }
}
// ---------------------------------------------------------------- concrete evaluation of the DAG
static double evalNode(u32 root, const std::map<int, double> &m, std::unordered_map<u32, double> &memo);
static double fnEval(const Var &v, double x) { const string &f = v.fn; if (v.kind == V_SQRT) return sqrt(x); if (v.kind == V_ABS) return fabs(x); if (v.kind == V_EXP) return exp(x); if (v.kind == V_LOG) return log(x);
  if (f == "tanh") return tanh(x); if (f == "sin") return sin(x); if (f == "cos") return cos(x); if (f == "tan") return tan(x); if (f == "atan") return atan(x); if (f == "sinh") return sinh(x); if (f == "cosh") return cosh(x); if (f == "asin") return asin(x); if (f == "acos") return acos(x); if (f == "expm1") return expm1(x); if (f == "cbrt") return cbrt(x); if (f == "atanh") return atanh(x); if (f == "erf") return erf(x); if (f == "lgamma") return lgamma(x); return NAN; }
static double evalNode(u32 root, const std::map<int, double> &m, std::unordered_map<u32, double> &memo) {
  vector<u32> st{root};
  while (!st.empty()) { u32 i = st.back(); if (memo.count(i)) { st.pop_back(); continue; } const Node &n = N[i];
    if (n.op == CONST) { memo[i] = n.c; continue; }
    if (n.op == VAR) { const Var &v = vars[n.var]; if (v.kind == V_INPUT) { auto it = m.find(n.var); memo[i] = it == m.end() ? 0.5 * (v.lo + v.hi) : it->second; continue; } if (!memo.count(v.node)) { st.push_back(v.node); continue; } memo[i] = fnEval(v, memo[v.node]); continue; }
    if (n.op == LIN) { bool ok = true; for (auto &t : lins[n.a]) if (!memo.count(t.first)) { st.push_back(t.first); ok = false; } if (!ok) continue; double v = 0; for (auto &t : lins[n.a]) v += t.second * memo[t.first]; memo[i] = v; continue; }
    bool ok = true; if (!memo.count(n.a)) { st.push_back(n.a); ok = false; } if (n.op != NEG && !memo.count(n.b)) { st.push_back(n.b); ok = false; } if (!ok) continue;
    double a = memo[n.a], b = n.op == NEG ? 0 : memo[n.b]; memo[i] = n.op == ADD ? a + b : n.op == SUB ? a - b : n.op == MUL ? a * b : n.op == DIV ? a / b : -a; }
  return memo[root];
}
static double evalD(double d, const std::map<int, double> &m, std::unordered_map<u32, double> &memo) { return isS(d) ? evalNode(idOf(d), m, memo) : d; }
// ---------------------------------------------------------------- case / path management
static string g_case; static vector<std::pair<string, int>> choices; static bool in_case = false, expect_exit = false; static pid_t casePid; static double caseStart; static bool g_root = true;
static vector<pid_t> kids; static long *casePaths; static int g_viols = 0;
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void emit(const string &s) { string l = s + "\n"; if (write(outfd, l.data(), l.size())) {} }
static string modelJson(const std::map<int, double> &m) { string s = "{"; char b[64]; bool f = true; for (size_t i = 0; i < vars.size(); i++) if (vars[i].kind == V_INPUT) { auto it = m.find(i); double v = it == m.end() ? 0.5 * (vars[i].lo + vars[i].hi) : it->second; snprintf(b, 64, "%.17g", v); s += string(f ? "" : ",") + "\"" + jesc(vars[i].name) + "\":" + b; f = false; } for (auto &c : choices) { s += string(f ? "" : ",") + "\"" + c.first + "\":" + std::to_string(c.second); f = false; } return s + "}"; }
static void record(const char *kind, const string &label, const std::map<int, double> &m) { S->viol++; emit(string("{\"t\":\"viol\",\"case\":\"") + jesc(g_case) + "\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"model\":" + modelJson(m) + "}"); }
static std::map<int, double> randPoint(unsigned k) { std::map<int, double> m; uint64_t s = 0x9E3779B97F4A7C15ULL * (k + 1 + 1000003ULL * g_seed); for (size_t i = 0; i < vars.size(); i++) if (vars[i].kind == V_INPUT) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; double u = (s >> 11) * (1.0 / 9007199254740992.0); m[i] = vars[i].lo + (vars[i].hi - vars[i].lo) * u; } return m; }
static bool satisfiesPC(const std::map<int, double> &m) { for (auto &c : pc) { double v = 0; for (auto &t : c.p.t) { double x = (double)t.second; for (auto &f : monos[t.first]) { double y; if (vars[f.first].kind == V_INPUT) { auto it = m.find(f.first); y = it->second; } else return false; for (int i = 0; i < f.second; i++) x *= y; } v += x; } bool ok = c.op == C_LT ? v < 0 : c.op == C_LE ? v <= 0 : c.op == C_EQ ? v == 0 : c.op == C_NE ? v != 0 : c.op == C_GT ? v > 0 : v >= 0; if (!ok) return false; } return true; }
static std::map<int, double> pcModel() { for (unsigned k = 0; k < 20; k++) { auto m = randPoint(k); if (satisfiesPC(m)) return m; if (pc.size() > 12) break; } std::map<int, double> m; vector<vector<Con>> none; if (checkClauses(none, &m) == z3::sat) return m; return randPoint(0); }
struct Assert { double a, b, tol; int kind; string label; }; // kind 0 eq, 1 le
static vector<Assert> pend; static vector<Assert> doneA;
static Con relC(const Poly &d, double t, int op) { Con c; c.p = padd(d, pconst(t), -1); c.op = op; return c; }
struct Prep { Poly d; double tol; int idx; bool zero; };
static Poly dropSmall(const Poly &d, double budget) { Poly r; r.slop = d.slop; vector<double> g; for (auto &t : d.t) { double s = (double)qabs(t.second) * monomag[t.first]; if (std::isfinite(s) && s < budget / (d.t.size() + 1)) r.slop += s; else r.t.push_back(t); } return r; }
// coefficients rounded to a common power-of-two grid far below the tolerance; the rounding goes into the slop
static Poly quantize(const Poly &d, double budget) { if (!(budget > 0)) return d; Poly r; r.slop = d.slop; for (auto &t : d.t) { double mg = monomag[t.first]; if (!(mg > 0) || !std::isfinite(mg)) { r.t.push_back(t); continue; } double g = budget / (d.t.size() + 1) / mg; int e = ilogb(g); Q grid = 1; for (int i = 0; i < abs(e); i++) grid = e > 0 ? grid * 2 : grid / 2; Q v = t.second / grid; if (qabs(v) > (Q)1e17) { r.t.push_back(t); continue; } Q rv = (Q)(int64_t)v * grid; r.slop += (double)qabs(t.second - rv) * mg * (1 + 1e-9); if (rv != 0) r.t.push_back({t.first, rv}); } return r; }
static bool hasNonInput(const Poly &p) { for (auto &t : p.t) for (auto &f : monos[t.first]) if (vars[f.first].kind != V_INPUT) return true; return false; }
static void violFound(const Assert &A, const std::map<int, double> &m0, bool confirmed) { (void)confirmed; if (g_viols++ < 3) record(A.kind ? "le" : "eq", A.label, m0); }
static bool concreteViolates(const Assert &A, const std::map<int, double> &m) { std::unordered_map<u32, double> memo; double x = evalD(A.a, m, memo), y = evalD(A.b, m, memo); if (A.kind == 0) return !(fabs(x - y) <= A.tol * 0.5); return !(x <= y + A.tol * 0.5); }
static void flushAsserts() {
  if (pend.empty()) return; vector<Assert> P; P.swap(pend); vector<Prep> todo;
  for (size_t i = 0; i < P.size(); i++) {
    Assert &A = P[i]; S->asserts++; doneA.push_back(A); double ea = isS(A.a) ? N[idOf(A.a)].err : 0, eb = isS(A.b) ? N[idOf(A.b)].err : 0, e = ea + eb;
    double t = A.tol; if (e < A.tol * 0.5) { t = A.tol - e; S->fpok++; } else if (isS(A.a) || isS(A.b)) { if (e > 0) S->fpno++; else S->fpok++; } else S->fpok++;
    if (!isS(A.a) && !isS(A.b)) { bool ok = A.kind == 0 ? (fabs(A.a - A.b) <= A.tol || A.a == A.b) : A.a <= A.b + A.tol; S->trivial++; if (!ok) violFound(A, pcModel(), true); continue; }
    if (bad(A.a) || bad(A.b)) { double ia = isS(A.a) ? 0 : A.a, ib = isS(A.b) ? 0 : A.b; if (A.kind == 1 && !std::isnan(ia) && !std::isnan(ib) && ia <= ib) continue; violFound(A, pcModel(), true); continue; }
    if (bits(A.a) == bits(A.b)) { S->zeroid++; continue; }
    try {
      u32 na = toNode(A.a), nb = toNode(A.b); Prep p; p.idx = i; p.tol = t; p.d = padd(nf(na), nf(nb), -1); 
      p.d = quantize(dropSmall(p.d, t * 1e-3), t * 1e-3); p.tol = t - p.d.slop; if (!(p.tol > 0)) { p.tol = t; }
      if (A.tol == 0) p.tol = 0;
      if (p.d.t.empty()) S->zeroid++;
      else if (N[na].hasdiv || N[nb].hasdiv) {
        try { u32 nd = idOf(bin(SUB, mk(na), mk(nb))); const Ratio &r = ratio(nd); if (r.num.t.empty()) { S->zeroid++; p.d = Poly(); p.d.t.clear(); if (A.kind == 1 && A.tol < 0) p.d = pconst(0); } else { double lb = 1; for (auto &f : r.den) lb *= pow(factlo_[f.first], f.second); if (lb > 0 && pmag(r.num) <= p.tol * lb) { S->zeroid++; p.d = Poly(); } } } catch (TooBig &) {}
      }
      todo.push_back(p);
    } catch (TooBig &) { S->inconclusive++; emit("{\"t\":\"toobig\",\"case\":\"" + jesc(g_case) + "\",\"label\":\"" + jesc(A.label) + "\"}"); bool hit = false; for (unsigned k = 0; k < 50 && !hit; k++) { auto m = randPoint(k); if (satisfiesPC(m) && concreteViolates(A, m)) { hit = true; violFound(A, m, true); } } }
  }
  if (todo.empty()) return;
  if (getenv("SYM_TRACE")) for (auto &p : todo) if (!p.d.t.empty()) fprintf(stderr, "open: %s terms %zu noninput %d div %d\n", P[p.idx].label.c_str(), p.d.t.size(), hasNonInput(p.d), (int)((isS(P[p.idx].a) && N[idOf(P[p.idx].a)].hasdiv) || (isS(P[p.idx].b) && N[idOf(P[p.idx].b)].hasdiv)));
  for (auto &p : todo) { g_nonlin = false; zinit(); predeclare(p.d); }
  auto clause = [&](const Prep &p, double f) { vector<Con> c; double t = p.tol * f; c.push_back(relC(p.d, t, C_GT)); if (P[p.idx].kind == 0) c.push_back(relC(p.d, -t, C_LT)); return c; };
  // one batched query over all pending assertions of the path, in chunks
  for (size_t s = 0, e; s < todo.size(); s = e) {
    size_t terms = 0; for (e = s; e < todo.size() && (e == s || (e - s < 64 && terms + todo[e].d.t.size() <= 48)); e++) terms += todo[e].d.t.size();
    vector<Con> all; for (size_t i = s; i < e; i++) { auto c = clause(todo[i], 1); all.insert(all.end(), c.begin(), c.end()); }
    vector<vector<Con>> cl{all}; std::map<int, double> m;
    if (checkClauses(cl, &m, true) == z3::unsat) continue;
    for (size_t i = s; i < e; i++) {
      Prep &p = todo[i]; Assert &A = P[p.idx]; bool nl = pcNonlin || hasNonInput(p.d); for (auto &t : p.d.t) if (t.first && !(monos[t.first].size() == 1 && monos[t.first][0].second == 1)) nl = true;
      std::map<int, double> m; z3::check_result r = checkClauses({clause(p, 1)}, &m);
      if (r == z3::unsat) continue;
      if (r == z3::sat) { // look for a larger violation, which survives rounding in the replay
        for (double f : {1e6, 1e3, 30.0}) { std::map<int, double> m2; if (p.tol > 0 && checkClauses({clause(p, f)}, &m2) == z3::sat) { m = m2; break; } }
        bool over = hasNonInput(p.d) && !concreteViolates(A, m);
        if (over) { bool hit = false; for (unsigned k = 0; k < 300 && !hit; k++) { auto m2 = randPoint(k); if (satisfiesPC(m2) && concreteViolates(A, m2)) { m = m2; hit = true; } } if (!hit) { S->inconclusive++; emit("{\"t\":\"inconclusive\",\"case\":\"" + jesc(g_case) + "\",\"label\":\"" + jesc(A.label) + "\",\"model\":" + modelJson(m) + "}"); continue; } }
        violFound(A, m, !nl);
      } else { bool hit = false; std::map<int, double> m2; for (unsigned k = 0; k < 300 && !hit; k++) { m2 = randPoint(k); if (satisfiesPC(m2) && concreteViolates(A, m2)) hit = true; }
        if (hit) violFound(A, m2, true); else { S->inconclusive++; emit("{\"t\":\"unknown\",\"case\":\"" + jesc(g_case) + "\",\"label\":\"" + jesc(A.label) + "\"}"); } }
    }
  }
}
static std::map<pid_t, long *> heldOf; // root only: page of each running case
static void tokRel() { S->tokens++; if (casePaths) __atomic_fetch_sub(&casePaths[3], 1, __ATOMIC_SEQ_CST); }
static void crashRec(int st) { S->crashed++; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) emit("{\"t\":\"crash\",\"case\":\"" + jesc(g_case) + "\",\"status\":" + std::to_string(st) + "}"); }
static void reap(bool block) {
  for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, block ? 0 : WNOHANG); if (r == 0 || (r < 0 && errno == EINTR)) { i++; continue; }
    if (r == kids[i]) { bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); if (bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 76)) crashRec(st);
      if (g_root) { auto it = heldOf.find(r); if (it != heldOf.end()) { long h = it->second[3]; if (h > 0) S->tokens += (int)h; munmap(it->second, 4096); heldOf.erase(it); } } else if (bad) tokRel(); }
    kids.erase(kids.begin() + i); } }
static void dieWithParent(pid_t parent) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(78); }
static bool tryToken() { int v = S->tokens.load(); while (v > 0) if (S->tokens.compare_exchange_weak(v, v - 1)) { if (casePaths) __atomic_fetch_add(&casePaths[3], 1, __ATOMIC_SEQ_CST); return true; } return false; }
static void pathEnd(bool completed) {
  flushAsserts(); if (completed) { S->paths++; if (getpid() == casePid || !(casePaths[1]++)) { // witness
      if (!casePaths[0]) { casePaths[0] = 1; auto m = pcModel(); std::unordered_map<u32, double> memo; string v = "["; char b[80]; for (size_t i = 0; i < doneA.size() && i < 400; i++) { double x = evalD(doneA[i].a, m, memo), y = evalD(doneA[i].b, m, memo); if (!std::isfinite(x)) x = 9e99; if (!std::isfinite(y)) y = 9e99; snprintf(b, 80, "%s[%.17g,%.17g]", i ? "," : "", x, y); v += b; } v += "]"; emit("{\"t\":\"witness\",\"case\":\"" + jesc(g_case) + "\",\"model\":" + modelJson(m) + ",\"values\":" + v + "}"); } } }
  else S->assumecut++;
  long n = N.size(), o = S->nodesmax.load(); if (n > o) S->nodesmax = n;
  while (!kids.empty()) reap(true);
  tokRel(); _exit(0);
}
// fork: returns true in the child.  The child gets a free token when there is one and otherwise runs on ours while we wait.
static bool doFork() {
  S->forks++; reap(false); bool tok = tryToken(); fflush(nullptr); pid_t me = getpid(), p = fork();
  if (p == 0) { kids.clear(); g_root = false; dieWithParent(me); return true; }
  if (p < 0) { S->unexplored++; if (tok) tokRel(); return false; }
  if (tok) kids.push_back(p);
  else { int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crashRec(st); else { S->tokens--; __atomic_fetch_add(&casePaths[3], 1, __ATOMIC_SEQ_CST); } }
  return false;
}
static void onDeath() { static int once; if (once++ || !in_case) return; std::map<int, double> m; m = pcModel(); record("crash", "memory error or crash in the code under test", m); _exit(77); }
static void onAlarm(int) { static int once; if (once++) _exit(0); S->timeouts++; emit("{\"t\":\"timeout\",\"case\":\"" + jesc(g_case) + "\",\"model\":" + modelJson(randPoint(0)) + "}"); _exit(76); }
static void onSegv(int) { onDeath(); _exit(77); }
extern "C" {
double sym_dot(const double *c, const double *x, int n) {
  std::vector<std::pair<u32, double>> l; double k = 0; double lo = 0, hi = 0, e = 0, mg = 0; char hd = 0; bool any = false;
  for (int i = 0; i < n; i++) { if (isS(c[i])) { double s = 0; for (int j = 0; j < n; j++) s = __s_add(s, __s_mul(c[j], x[j])); return s; } if (!isS(x[i])) { k += c[i] * x[i]; continue; } if (c[i] == 0) continue; any = true; l.push_back({idOf(x[i]), c[i]}); }
  if (!any) return k; if (k != 0) l.push_back({cnode(k), 1.0});
  for (auto &t : l) { const Node &n = N[t.first]; double p = t.second * n.lo, q = t.second * n.hi; lo += std::min(p, q); hi += std::max(p, q); e += fabs(t.second) * n.err; mg += fabs(t.second) * mx(n); hd |= n.hasdiv; }
  lins.push_back(l); Node nd; nd.op = LIN; nd.a = lins.size() - 1; nd.b = 0; nd.c = 0; nd.var = -1; nd.lo = dn(lo) - 1e-12 * mg; nd.hi = up(hi) + 1e-12 * mg; nd.err = nz(e + U * mg * (l.size() + 1)); nd.hasdiv = hd; return mk(newNode(key(LIN, nd.a, 0), nd));
}
int sym_case_begin(const char *fmt, ...) {
  char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, 256, fmt, ap); va_end(ap);
  const char *only = getenv("SYM_CASE_ONLY"); if (only && strcmp(only, b)) return 0;
  if (now() - g_start > g_budget) { S->unexplored++; return 0; }
  while (!tryToken()) { reap(false); if (S->tokens.load() <= 0) usleep(2000); }
  S->cases++; long *pg = (long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pg[3] = 1; pid_t me = getpid(), p = fork();
  if (p) { if (p > 0) { kids.push_back(p); heldOf[p] = pg; } else { S->tokens++; S->unexplored++; munmap(pg, 4096); } return 0; }
  dieWithParent(me); kids.clear(); heldOf.clear(); g_root = false; in_case = true; g_case = b; casePid = getpid(); caseStart = now(); casePaths = pg;
  signal(SIGALRM, onAlarm); double left = std::min(g_casebudget, g_budget - (now() - g_start)); alarm((unsigned)std::max(1.0, left));
  return 1;
}
int sym_case_end(void) { in_case = false; try { pathEnd(true); } catch (...) { _exit(78); } return 0; }
static double newInput(const char *name, double lo, double hi) { int v = newVar(V_INPUT, name, lo, hi); string k = key(VAR, v, 0); Node n; n.op = VAR; n.a = n.b = 0; n.c = 0; n.var = v; n.lo = lo; n.hi = hi; n.err = 0; u32 id = newNode(k, n); zvar(v); return mk(id); }
double sym(const char *name, double lo, double hi) { return newInput(name, lo, hi); }
double sym_n(const char *name, int i, double lo, double hi) { char b[96]; snprintf(b, 96, "%s[%d]", name, i); return newInput(b, lo, hi); }
void sym_arr(double *v, int n, const char *name, double lo, double hi) { for (int i = 0; i < n; i++) v[i] = sym_n(name, i, lo, hi); }
int sym_choice(const char *name, int lo, int hi) { for (int v = lo; v < hi; v++) { if (doFork()) { choices.push_back({name, v}); return v; } } choices.push_back({name, hi}); return hi; }
double sym_cut(double a, const char *n, double lo, double hi) { if (!isS(a)) return a; return newInput(n, lo, hi); }
void sym_assume(int c) { if (!c) pathEnd(false); }
static void addA(double a, double b, double tol, int kind, const char *fmt, va_list ap) { char l[256]; vsnprintf(l, 256, fmt, ap); Assert A; A.a = a; A.b = b; A.tol = tol; A.kind = kind; A.label = l; pend.push_back(A); }
void sym_eq(double a, double b, double tol, const char *fmt, ...) { va_list ap; va_start(ap, fmt); addA(a, b, tol, 0, fmt, ap); va_end(ap); }
void sym_le(double a, double b, double tol, const char *fmt, ...) { va_list ap; va_start(ap, fmt); addA(a, b, tol, 1, fmt, ap); va_end(ap); }
void sym_true(int c, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char l[256]; vsnprintf(l, 256, fmt, ap); va_end(ap); S->asserts++; if (!c) { flushAsserts(); if (g_viols++ < 3) record("true", l, pcModel()); } }
void sym_def(double a, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char l[256]; vsnprintf(l, 256, fmt, ap); va_end(ap); S->asserts++; if (!isS(a) && a != a) if (g_viols++ < 3) record("def", l, pcModel()); }
void sym_expect_exit(int on) { expect_exit = on; }
int sym_tier(void) { return g_tier; }
int sym_native(void) { return 0; }
int sym_is(double a) { return isS(a); }
void __s_exit(int code) { (void)code; if (!in_case) _exit(6); if (!expect_exit) { flushAsserts(); record("exit", "library terminated the process", pcModel()); } pathEnd(true); }
void __s_enter(int *slot, const char *name) { if (*slot) return; *slot = 1; if (!in_case) { *slot = 0; return; } int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) z = 0; int i; for (i = 0; i < S->nfun; i++) if (!strncmp(S->fun[i], name, 47)) break; if (i == S->nfun && i < 3000) { strncpy(S->fun[i], name, 47); S->nfun++; } S->lock = 0; }
}
// ---------------------------------------------------------------- comparisons
static void fixModel(std::map<int, double> &m) { if (!lastModel) lastModel = new std::map<int, double>(); *lastModel = m; }
static int evalCon(const Con &c, const std::map<int, double> &m) { // 1 clearly true, -1 clearly false, 0 not known
  Q v = 0, mag = 0; for (auto &t : c.p.t) { Q x = t.second; for (auto &f : monos[t.first]) { if (vars[f.first].kind != V_INPUT) return 0; auto it = m.find(f.first); if (it == m.end()) return 0; for (int i = 0; i < f.second; i++) x *= it->second; } v += x; mag += qabs(x); }
  if (c.op == C_EQ || c.op == C_NE) { if (qabs(v) <= mag * (Q)1e-15) return 0; return c.op == C_NE ? 1 : -1; }
  if (qabs(v) <= mag * (Q)1e-15) return 0; bool pos = v > 0; return pos == (c.op == C_GT || c.op == C_GE) ? 1 : -1; }
static int decide(const Con &c, const Con &nc, u32 dnode) { // 1 true, 0 false; forks if both feasible
  // interval
  double lo = 0, hi = 0; bool fin = true;
  { double c0 = 0, r = c.p.slop; for (auto &t : c.p.t) { if (!t.first) { c0 = (double)t.second; continue; } double l = 0, h = 0; auto &f = monos[t.first]; if (f.size() == 1 && f[0].second == 1) { l = vars[f[0].first].lo; h = vars[f[0].first].hi; } else { h = monomag[t.first]; bool even = true; for (auto &g : f) if (g.second & 1) even = false; l = even ? 0 : -h; } double q = (double)t.second; double x = q * l, y = q * h; lo += std::min(x, y); hi += std::max(x, y); } if (std::isnan(lo) || std::isnan(hi) || !std::isfinite(lo) || !std::isfinite(hi)) fin = false; lo += c0 - r; hi += c0 + r; double g = 1e-13 * (fabs(lo) + fabs(hi)); lo -= g; hi += g; }
  if (dnode) { const Node &n = N[dnode]; if (!fin) { lo = n.lo; hi = n.hi; fin = true; } else { lo = std::max(lo, n.lo); hi = std::min(hi, n.hi); } }
  if (fin || true) { auto test = [&](int op) { switch (op) { case C_LT: return hi < 0; case C_LE: return hi <= 0; case C_GT: return lo > 0; case C_GE: return lo >= 0; case C_NE: return lo > 0 || hi < 0; default: return false; } }; if (test(c.op)) return 1; if (test(nc.op)) return 0; }
  predeclare(c.p);
  int t = -1, f = -1; std::map<int, double> mt, mf; z3::check_result rt = z3::unknown, rf = z3::unknown;
  // a known model of the path condition decides one of the two sides without a query
  int k = curValid ? evalCon(c, curModel) : 0; if (k > 0) { mt = curModel; t = 1; rt = z3::sat; } else if (k < 0) { mf = curModel; f = 1; rf = z3::sat; }
  if (t < 0) { rt = checkClauses({{c}}, &mt); if (rt == z3::unsat) { if (rf == z3::sat) return 0; f = 1; t = 0; } }
  if (t && f < 0) { rf = checkClauses({{nc}}, &mf); if (rf == z3::unsat) f = 0; }
  if (t == 0) { return 0; } if (f == 0) { if (rt == z3::sat) { curModel = mt; curValid = true; } return 1; }
  if (getenv("SYM_TRACE")) { fprintf(stderr, "fork: op %d terms %zu lo %g hi %g r %d\n", c.op, c.p.t.size(), lo, hi, (int)rt); void *bt[12]; int n = backtrace(bt, 12); backtrace_symbols_fd(bt, n, 2); }
  flushAsserts();
  if (++casePaths[2] > g_maxpaths) { S->unexplored++; pathEnd(false); }
  if (doFork()) { addPC(c); curValid = rt == z3::sat; curModel = mt; return 1; }
  addPC(nc); curValid = rf == z3::sat; curModel = mf; return 0;
}
static int cmpD(int op, double a, double b) { // a op b, both finite, at least one symbolic
  u32 na = toNode(a), nb = toNode(b); if (na == nb) return op == C_LE || op == C_GE || op == C_EQ;
  double lo = N[na].lo - N[nb].hi, hi = N[na].hi - N[nb].lo; // quick interval
  switch (op) { case C_LT: if (hi < 0) return 1; if (lo >= 0) return 0; break; case C_LE: if (hi <= 0) return 1; if (lo > 0) return 0; break; case C_GT: if (lo > 0) return 1; if (hi <= 0) return 0; break; case C_GE: if (lo >= 0) return 1; if (hi < 0) return 0; break; case C_EQ: if (lo > 0 || hi < 0) return 0; break; case C_NE: if (lo > 0 || hi < 0) return 1; break; }
  Poly d;
  try { d = padd(nf(na), nf(nb), -1); if ((N[na].hasdiv || N[nb].hasdiv) && d.t.size() > 1) { try { double dd = bin(SUB, mk(na), mk(nb)); if (ratio(idOf(dd)).num.t.empty()) d = Poly(); } catch (TooBig &) {} } }
  catch (TooBig &) { S->inconclusive++; emit("{\"t\":\"toobig-branch\",\"case\":\"" + jesc(g_case) + "\"}"); flushAsserts(); return doFork() ? 1 : 0; }
  Q c; if (isConstPoly(d, &c)) { if (qabs(c) < (Q)1e-28) c = 0; switch (op) { case C_LT: return c < 0; case C_LE: return c <= 0; case C_GT: return c > 0; case C_GE: return c >= 0; case C_EQ: return c == 0; default: return c != 0; } }
  // drop relative noise
  { Q big = 0; for (auto &t : d.t) if (qabs(t.second) > big) big = qabs(t.second); Poly r; r.slop = d.slop; for (auto &t : d.t) if (qabs(t.second) > big * (Q)1e-26) r.t.push_back(t); d = r; }
  static const int neg[] = {C_GE, C_GT, C_NE, C_EQ, C_LE, C_LT}; Con k{d, op}, nk{d, neg[op]};
  return decide(k, nk, 0);
}
static void inExact(double &a) { (void)a; }
extern "C" {
int __s_cmp(int pred, double a, double b) {
  // LLVM predicates: 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true
  bool x = isS(a), y = isS(b);
  if (!x && !y) { bool un = a != a || b != b; int lt = a < b, eq = a == b, gt = a > b; switch (pred) { case 0: return 0; case 1: return eq; case 2: return gt; case 3: return gt | eq; case 4: return lt; case 5: return lt | eq; case 6: return lt | gt; case 7: return !un; case 8: return un; case 9: return un | eq; case 10: return un | gt; case 11: return un | gt | eq; case 12: return un | lt; case 13: return un | lt | eq; case 14: return !eq; default: return 1; } }
  if (pred == 0) return 0; if (pred == 15) return 1;
  if (bad(a) || bad(b)) { double c = x ? 0 : a, d = y ? 0 : b; return __s_cmp(pred, c, d); }
  if (pred == 7) return 1; if (pred == 8) return 0; int p = pred & 7;
  switch (p) { case 1: return cmpD(C_EQ, a, b); case 2: return cmpD(C_GT, a, b); case 3: return cmpD(C_GE, a, b); case 4: return cmpD(C_LT, a, b); case 5: return cmpD(C_LE, a, b); default: return cmpD(C_NE, a, b); }
}
int __s_fpclass(double a, int mask) { if (isS(a)) return (mask & 0x1F8) ? ((mask & 0x1F8) == 0x1F8 ? 1 : ((mask & 0x108) == 0x108 && (mask & 0x3F8) == 0x3F8)) : 0; int c; int k = std::fpclassify(a); bool s = std::signbit(a); if (k == FP_NAN) c = 3; else if (k == FP_INFINITE) c = s ? 4 : 512; else if (k == FP_NORMAL) c = s ? 8 : 256; else if (k == FP_SUBNORMAL) c = s ? 16 : 128; else c = s ? 32 : 64; return (mask & c) != 0; }
static double atomNode(int kind, const char *fn, double a, double lo, double hi, double err) {
  u32 i = idOf(a); Poly p; bool ok = true; try { p = nf(i); } catch (TooBig &) { ok = false; }
  if (ok && N[i].hasdiv && kind != V_SQRT) {}
  int found = -1; bool neg = false;
  if (ok) for (size_t v = 0; v < vars.size(); v++) if (vars[v].kind == kind && vars[v].fn == fn) { if (pnear(vars[v].num, p, 1)) { found = v; break; } if ((kind == V_ABS) && pnear(vars[v].num, p, -1)) { found = v; break; } if (!strcmp(fn, "tanh") && pnear(vars[v].num, p, -1)) { found = v; neg = true; break; } }
  if (found < 0 && ok && N[i].hasdiv) for (size_t v = 0; v < vars.size(); v++) if (vars[v].kind == kind && vars[v].fn == fn) { try { double d = __s_sub(mk(vars[v].node), a); if (isS(d) && ratio(idOf(d)).num.t.empty()) { found = v; break; } } catch (TooBig &) {} }
  if (found < 0) { found = newVar(kind, fn, lo, hi); vars[found].fn = fn; vars[found].node = i; if (ok) { vars[found].num = p; vars[found].polyarg = 1; if (kind == V_SQRT || kind == V_ABS) haveSquares = true; } zvar(found); }
  string k = key(VAR, found, 1); auto it = cons.find(k); u32 id; if (it != cons.end()) id = it->second; else { Node n; n.op = VAR; n.a = n.b = 0; n.c = 0; n.var = found; n.lo = lo; n.hi = hi; n.err = nz(err); id = newNode(k, n); }
  return neg ? __s_neg(mk(id)) : mk(id);
}
double __s_sqrt(double a) { if (!isS(a)) return allones(a) ? a : sqrt(a); u32 i = idOf(a); if (N[i].lo < 0 && __s_cmp(4, a, 0.0)) return NAN; 
  if (N[i].op == MUL && N[i].a == N[i].b) { extern double __s_fabs(double); return __s_fabs(mk(N[i].a)); }
  double lo = sqrt(std::max(0.0, N[i].lo)), hi = sqrt(N[i].hi); double e = lo > 0 ? N[i].err / lo : (N[i].err == 0 ? 0 : sqrt(N[i].err)); return atomNode(V_SQRT, "sqrt", a, dn(lo) < 0 ? 0 : dn(lo), up(hi), e + U * hi); }
double __s_fabs(double a) { if (!isS(a)) return fabs(a); u32 i = idOf(a); if (N[i].lo >= 0) return a; if (N[i].hi <= 0) return __s_neg(a); return atomNode(V_ABS, "fabs", a, 0, mx(N[i]), N[i].err); }
// exp(c + sum k_j log b_j) = e^c * prod b_j^k_j for integer k_j (coefficients compared modulo 1e-13: constants of the code are doubles)
double __s_pow(double a, double b);
double __s_exp(double a) {
  if (!isS(a)) return allones(a) ? a : exp(a);
  u32 i = idOf(a);
  try {
    Poly p = nf(i); if (N[i].hasdiv) { const Ratio &r = ratio(i); if (r.den.empty()) p = r.num; }
    double c0 = 0; bool ok = true, any = false; vector<std::pair<u32, int>> f_;
    for (auto &t : p.t) {
      if (!t.first) { c0 = (double)t.second; continue; }
      auto &f = monos[t.first]; double k = (double)t.second, rk = round(k);
      if (fabs(k) < 1e-13) continue;
      if (f.size() == 1 && f[0].second == 1 && vars[f[0].first].kind == V_LOG && fabs(k - rk) < 1e-13 && fabs(rk) <= 6) { f_.push_back({vars[f[0].first].node, (int)rk}); any = true; } else { ok = false; break; }
    }
    if (ok && any) { double r = exp(c0); for (auto &q : f_) r = q.second > 0 ? __s_mul(r, __s_pow(mk(q.first), q.second)) : __s_div(r, __s_pow(mk(q.first), -q.second)); return r; }
  } catch (TooBig &) {}
  double lo = exp(N[i].lo), hi = exp(N[i].hi); return atomNode(V_EXP, "exp", a, dn(lo), up(hi), hi * (expm1(N[i].err)) + 4 * U * hi);
}
double __s_log(double a) {
  if (!isS(a)) return allones(a) ? a : log(a);
  u32 i = idOf(a); if (N[i].lo > -1e-290 && N[i].lo < 1e-290) S->divassume++; /* a sum of squares is assumed not to vanish */ else if (N[i].lo <= 0 && __s_cmp(5, a, 0.0)) return NAN;
  try { Poly p = nf(i); if (N[i].hasdiv) { const Ratio &r = ratio(i); if (r.den.empty()) p = r.num; } if (p.t.size() == 1 && qabs(p.t[0].second - 1) < (Q)1e-24 && p.t[0].first) { auto &f = monos[p.t[0].first]; if (f.size() == 1 && f[0].second == 1 && vars[f[0].first].kind == V_EXP) return mk(vars[f[0].first].node); } } catch (TooBig &) {}
  double lo = log(N[i].lo > 0 ? N[i].lo : 0), hi = log(N[i].hi); return atomNode(V_LOG, "log", a, dn(lo), up(hi), (N[i].lo - N[i].err > 0 ? N[i].err / (N[i].lo - N[i].err) : (N[i].err == 0 ? 0 : INFINITY)) + 4 * U * std::max(fabs(lo), fabs(hi)));
}
#define UF(name, lo, hi) double __s_##name(double a) { if (!isS(a)) return allones(a) ? a : name(a); return atomNode(V_UF, #name, a, lo, hi, INFINITY); }
double __s_tanh(double a) { if (!isS(a)) return tanh(a); u32 i = idOf(a);
  try { const Poly &p = nf(i); if (p.t.size() == 1 && qabs(p.t[0].second - 1) < (Q)1e-24 && p.t[0].first) { auto &f = monos[p.t[0].first]; if (f.size() == 1 && f[0].second == 1 && vars[f[0].first].fn == "atanh") return mk(vars[f[0].first].node); } } catch (TooBig &) {} return atomNode(V_UF, "tanh", a, dn(tanh(N[i].lo)), up(tanh(N[i].hi)), N[i].err + 4 * U); }
UF(sin, -1, 1) UF(cos, -1, 1) UF(tan, -INFINITY, INFINITY) UF(atan, -1.5707963267949, 1.5707963267949) UF(sinh, -INFINITY, INFINITY) UF(cosh, 1, INFINITY) UF(asin, -1.5707963267949, 1.5707963267949) UF(acos, 0, 3.1415926535898) UF(cbrt, -INFINITY, INFINITY) UF(lgamma, -INFINITY, INFINITY) UF(tgamma, -INFINITY, INFINITY) UF(erf, -1, 1) UF(erfc, 0, 2) UF(asinh, -INFINITY, INFINITY) UF(acosh, 0, INFINITY)
double __s_atanh(double a) { if (!isS(a)) return allones(a) ? a : atanh(a); // atanh(tanh(x)) = x
  try { u32 i = idOf(a); Poly p = nf(i); if (N[i].hasdiv) { const Ratio &r = ratio(i); if (r.den.empty()) p = r.num; }
    if (p.t.size() == 1 && p.t[0].first) { auto &f = monos[p.t[0].first]; if (f.size() == 1 && f[0].second == 1 && vars[f[0].first].fn == "tanh") { if (qabs(p.t[0].second - 1) < (Q)1e-24) return mk(vars[f[0].first].node); if (qabs(p.t[0].second + 1) < (Q)1e-24) return __s_neg(mk(vars[f[0].first].node)); } }
  } catch (TooBig &) {}
  return atomNode(V_UF, "atanh", a, -INFINITY, INFINITY, INFINITY); }
double __s_expm1(double a) { if (!isS(a)) return allones(a) ? a : expm1(a); return __s_sub(__s_exp(a), 1.0); }
double __s_log1p(double a) { if (!isS(a)) return log1p(a); return __s_log(__s_add(1.0, a)); }
double __s_log10(double a) { if (!isS(a)) return log10(a); return __s_div(__s_log(a), log(10.0)); }
double __s_log2(double a) { if (!isS(a)) return log2(a); return __s_div(__s_log(a), log(2.0)); }
double __s_exp2(double a) { if (!isS(a)) return exp2(a); return __s_exp(__s_mul(a, log(2.0))); }
double __s_pow(double a, double b) {
  if (!isS(a) && !isS(b)) { if (allones(a) || allones(b)) return poison(); return pow(a, b); }
  if (!isS(b) && b == (int)b && fabs(b) <= 32) { int n = abs((int)b); double r = 1; for (int i = 0; i < n; i++) r = __s_mul(r, a); return b < 0 ? __s_div(1.0, r) : r; }
  if (!isS(b) && b == 0.5) return __s_sqrt(a);
  return __s_exp(__s_mul(b, __s_log(a)));
}
static double concretize(double a, int mode) { // integer part by case split: 0 trunc 1 floor 2 ceil
  u32 i = idOf(a); 
  if (N[i].lo < N[i].hi) {
    for (int guard = 0; guard < 64; guard++) {
      std::map<int, double> m = pcModel(); std::unordered_map<u32, double> memo; double v = evalNode(i, m, memo); double k = mode == 1 ? floor(v) : mode == 2 ? ceil(v) : trunc(v);
      int in; if (mode == 1) in = __s_cmp(3, a, k) && __s_cmp(4, a, k + 1); else if (mode == 2) in = __s_cmp(5, a, k) && __s_cmp(2, a, k - 1);
      else if (k > 0) in = __s_cmp(3, a, k) && __s_cmp(4, a, k + 1); else if (k < 0) in = __s_cmp(5, a, k) && __s_cmp(2, a, k - 1); else in = __s_cmp(2, a, -1.0) && __s_cmp(4, a, 1.0);
      if (in) return k;
    }
  }
  S->unexplored++; pathEnd(false); return 0;
}
int64_t __s_toi(double a) { if (!isS(a)) return (int64_t)a; return (int64_t)concretize(a, 0); }
double __s_concrete(double a) { if (!isS(a)) return a; S->unexplored++; pathEnd(false); return 0; }
double __s_floor(double a) { return isS(a) ? concretize(a, 1) : floor(a); }
double __s_ceil(double a) { return isS(a) ? concretize(a, 2) : ceil(a); }
double __s_trunc(double a) { return isS(a) ? concretize(a, 0) : trunc(a); }
double __s_round(double a) { return isS(a) ? (__s_cmp(3, a, 0.0) ? concretize(__s_add(a, 0.5), 1) : concretize(__s_sub(a, 0.5), 2)) : round(a); }
double __s_rint(double a) { return isS(a) ? __s_round(a) : rint(a); }
double __s_nearbyint(double a) { return isS(a) ? __s_round(a) : nearbyint(a); }
double __s_fmax(double a, double b) { if (!isS(a) && !isS(b)) return fmax(a, b); return __s_cmp(3, a, b) ? a : b; }
double __s_fmin(double a, double b) { if (!isS(a) && !isS(b)) return fmin(a, b); return __s_cmp(5, a, b) ? a : b; }
double __s_copysign(double a, double b) { if (!isS(a) && !isS(b)) return copysign(a, b); double m = __s_fabs(a); return __s_cmp(4, b, 0.0) ? __s_neg(m) : m; }
double __s_fmod(double a, double b) { if (!isS(a) && !isS(b)) return fmod(a, b); return __s_sub(a, __s_mul(b, __s_trunc(__s_div(a, b)))); }
double __s_fdim(double a, double b) { if (!isS(a) && !isS(b)) return fdim(a, b); return __s_cmp(2, a, b) ? __s_sub(a, b) : 0.0; }
double __s_hypot(double a, double b) { if (!isS(a) && !isS(b)) return hypot(a, b); return __s_sqrt(__s_add(__s_mul(a, a), __s_mul(b, b))); }
double __s_atan2(double a, double b) { if (!isS(a) && !isS(b)) return atan2(a, b); return __s_concrete(isS(a) ? a : b); }
double __s_remainder(double a, double b) { if (!isS(a) && !isS(b)) return remainder(a, b); return __s_concrete(isS(a) ? a : b); }
}
int harness_main(int argc, char **argv);
extern "C" int harness_main_c(int, char **);
int main(int argc, char **argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  monos.push_back({}); monoid[{}] = 0; monomag.push_back(1);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (S) Shared();
  const char *o = getenv("SYM_OUT"); outfd = open(o ? o : "/dev/stdout", O_WRONLY | O_CREAT | O_APPEND, 0644);
  const char *t = getenv("SYM_TIER"); g_tier = t && !strcmp(t, "thorough"); if (getenv("VERIF_SEED")) g_seed = atoi(getenv("VERIF_SEED"));
  if (g_tier) g_qms = 30000; if (getenv("SYM_QMS")) g_qms = atoi(getenv("SYM_QMS")); if (getenv("SYM_BUDGET")) g_budget = atof(getenv("SYM_BUDGET")); if (getenv("SYM_CASE_BUDGET")) g_casebudget = atof(getenv("SYM_CASE_BUDGET")); if (getenv("SYM_RLIMIT")) g_rlimit = atol(getenv("SYM_RLIMIT")); if (getenv("SYM_MAXPATHS")) g_maxpaths = atol(getenv("SYM_MAXPATHS"));
  S->tokens = getenv("SYM_JOBS") ? atoi(getenv("SYM_JOBS")) : 8; g_start = now();
  if (!getenv("SYM_DEBUG")) { if (!freopen("/dev/null", "w", stdout)) {} }
  if (__asan_set_death_callback) __asan_set_death_callback(onDeath); else { signal(SIGSEGV, onSegv); signal(SIGFPE, onSegv); signal(SIGABRT, onSegv); signal(SIGBUS, onSegv); }
  harness_main_c(argc, argv);
  while (!kids.empty()) { reap(false); usleep(1000); }
  string f = "["; for (int i = 0; i < S->nfun; i++) f += string(i ? "," : "") + "\"" + S->fun[i] + "\""; f += "]";
  char b[2048]; snprintf(b, sizeof b, "{\"t\":\"summary\",\"cases\":%ld,\"paths\":%ld,\"forks\":%ld,\"asserts\":%ld,\"concrete_asserts\":%ld,\"identities\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"fp_bounded\":%ld,\"fp_unbounded\":%ld,\"nodes_max\":%ld,\"div_assumed_nonzero\":%ld,\"timeouts\":%ld,\"violations\":%ld,\"crashed\":%ld,\"assume_cut\":%ld,\"inconclusive\":%ld,\"unexplored\":%ld,\"wall_s\":%.2f,\"functions\":", S->cases.load(), S->paths.load(), S->forks.load(), S->asserts.load(), S->trivial.load(), S->zeroid.load(), S->queries.load(), S->sat.load(), S->unsat.load(), S->unknown.load(), S->us.load() * 1e-6, S->fpok.load(), S->fpno.load(), S->nodesmax.load(), S->divassume.load(), S->timeouts.load(), S->viol.load(), S->crashed.load(), S->assumecut.load(), S->inconclusive.load(), S->unexplored.load(), now() - g_start);
  emit(string(b) + f + "}"); _exit(0);
}
