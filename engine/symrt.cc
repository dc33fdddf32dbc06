// Symbolic runtime: NaN-boxed symbolic doubles over z3 reals, fork exploration.
#include <z3++.h>
#include <gmpxx.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <iostream>
#include <map>
#include <set>
#include <unordered_map>
#include "sym.h"

// ---------------------------------------------------------------- shared state
static const int MAXCASE = 96, MAXVIOL = 4, MAXFN = 60000, MAXCOVER = 24;
struct Viol { char msg[400]; char model[16000]; char kind[32]; };
static const int MAXSAMP = 6;
struct Samp { char model[6000]; };
struct CaseStat {
  std::atomic<long> paths, killed, exits, forks, queries, unsat, sat, unknown, asserts, proved, confirmed, unproved, truncated, div0, unsupported, crashes, steps;
  std::atomic<long> query_us, wall_us;
  std::atomic<int> nviol, lock, stop, ncover;
  char cover[MAXCOVER][64];
  char firstUnsup[200];
  Viol viol[MAXVIOL];
  std::atomic<int> nsamp; Samp samp[MAXSAMP];
  std::atomic<int> hangN[2]; Viol hang[2];
};
struct Shared {
  std::atomic<int> tokens;
  std::atomic<long> procs;
  unsigned char fn[MAXFN];
  CaseStat cs[MAXCASE];
};
static Shared *SH;
static CaseStat *CS;
static int caseIdx = -1;
static bool haveToken = false;
static std::vector<pid_t> kids;
static double deadline, graceDeadline;
static bool thorough = false, verbose = false;
static std::string scratchBase, scratchDir, repoDir;
static sym_exit_fn onExit = NULL;
static pid_t rootPid;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::vector<SymCase *> &cases() { static std::vector<SymCase *> v; return v; }
SymCase::SymCase(const char *n, sym_case_fn f, const char *b, bool t) : name(n), fn(f), bounds(b), thoroughOnly(t) { cases().push_back(this); }


// ---------------------------------------------------------------- terms
// Every symbolic double is a polynomial with rational coefficients over
// "monomials".  A degree-one monomial is a variable: an input, the result of an
// if-then-else, an inverse 1/p or a square root.  Products of variables are
// monomials of higher degree; the linear solver sees them as opaque reals, the
// nonlinear solver sees the product.
static z3::context *C;
static z3::solver *S;            // incremental linear solver holding the (abstracted) path condition
typedef mpq_class Q;
enum { BASE, ITE, INV, SQRT, PROD };
enum { NEG = 1, ZER = 2, POS = 4 };
struct Poly { std::vector<std::pair<int, Q>> t; Q c; };
struct Mono {
  int kind; std::vector<int> f; // factors (PROD)
  bool hasLo, hasHi; Q lo, hi; Q val; bool valOk;
  std::string name;
  int x, y, cond, mask; // ITE: value x if sign(cond) in mask else y;  INV/SQRT: x
  int depth; int inS, mark;
  z3::expr *ab, *tr;
};
struct Term { Poly p; bool nl, base; int depth; z3::expr *ab, *tr; };
static std::vector<Mono> *MO;
static std::vector<Term> *T;
static std::vector<int> *V;                       // input variables (mono ids)
static std::unordered_map<std::string, int> *THASH, *MHASH;
static std::map<int, std::pair<std::vector<int>, int>> *RULES;  // INV/SQRT var -> (factors of the leading product, replacement term)
static std::unordered_map<int, int> *KM;          // canonical term -> possible signs
struct PCItem { int kind, term, mask; };          // 0: sign(term) in mask, 1: definition of mono `term`
static std::vector<PCItem> *PC;
static std::set<std::pair<int, int>> *PEND;
static void flush_pending();
static bool nonlinPath = false, haveModel = true;
static std::map<double, int> *MAGIC;
static int ITE_MAX = 0;

static const uint64_t TAG = 0xFFFDull << 48, TAGM = 0xFFFFull << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool sym(double d) { return (bits(d) & TAGM) == TAG; }
static inline int idx(double d) { return (int)(bits(d) & 0xffffffffu); }
static inline double box(int i) { return dbl(TAG | (uint64_t)i); }

static void path_exit(int) __attribute__((noreturn));
static void viol(const char *kind, const char *msg);
static bool pathBad = false;
static void unsupported(const char *what) {
  CS->unsupported++;
  if (!CS->firstUnsup[0]) snprintf(CS->firstUnsup, sizeof CS->firstUnsup, "%s", what);
  pathBad = true; path_exit(0);
}
static std::string pkey(const Poly &p) {
  std::string k = p.c.get_str(62);
  for (auto &m : p.t) { k += ','; k += std::to_string(m.first); k += ':'; k += m.second.get_str(62); }
  return k;
}
static int intern(Poly &&p) {
  std::string k = pkey(p);
  auto it = THASH->find(k);
  if (it != THASH->end()) return it->second;
  bool nl = false, base = true; int d = 0;
  for (auto &m : p.t) { Mono &mo = (*MO)[m.first]; if (mo.kind != BASE) base = false; if (mo.kind == PROD || mo.kind == INV || mo.kind == SQRT) nl = true; if (mo.depth > d) d = mo.depth; }
  int i = T->size();
  T->push_back(Term{std::move(p), nl, base, d, NULL, NULL});
  (*THASH)[k] = i;
  return i;
}
static double mk(Poly &&p) {
  if (p.t.empty()) { double d = p.c.get_d(); if (Q(d) == p.c) return d; }
  return box(intern(std::move(p)));
}
static Poly constant(const Q &c) { Poly p; p.c = c; return p; }
static const Poly &P(double d) {
  if (sym(d)) return (*T)[idx(d)].p;
  static Poly tmp[8]; static int k = 0;
  Poly &r = tmp[k++ & 7]; r.t.clear(); r.c = Q(d); return r;
}
static Poly padd(const Poly &a, const Poly &b, const Q &kb) {  // a + kb*b
  Poly r; r.c = a.c + kb * b.c;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.emplace_back(b.t[j].first, b.t[j].second * kb); j++; }
    else { Q q = a.t[i].second + kb * b.t[j].second; if (q != 0) r.t.emplace_back(a.t[i].first, q); i++; j++; }
  }
  return r;
}
static Poly pscale(const Poly &a, const Q &k) { Poly r; if (k == 0) return r; r.c = a.c * k; r.t.reserve(a.t.size()); for (auto &m : a.t) r.t.emplace_back(m.first, m.second * k); return r; }
static void bounds_box(const Poly &p, bool &hl, Q &lo, bool &hh, Q &hi) {
  hl = hh = true; lo = hi = p.c;
  for (auto &m : p.t) {
    Mono &mo = (*MO)[m.first];
    bool pos = m.second > 0;
    if (pos) { if (mo.hasLo) { if (hl) lo += m.second * mo.lo; } else hl = false; if (mo.hasHi) { if (hh) hi += m.second * mo.hi; } else hh = false; }
    else { if (mo.hasHi) { if (hl) lo += m.second * mo.hi; } else hl = false; if (mo.hasLo) { if (hh) hi += m.second * mo.lo; } else hh = false; }
    if (!hl && !hh) return;
  }
}
static void bounds(const Poly &p, bool &hl, Q &lo, bool &hh, Q &hi);
static int newMono(int kind, const std::string &name) {
  Mono m; m.kind = kind; m.hasLo = m.hasHi = false; m.valOk = true; m.name = name; m.x = m.y = m.cond = m.mask = 0; m.depth = 0; m.inS = m.mark = 0; m.ab = m.tr = NULL;
  MO->push_back(m);
  return MO->size() - 1;
}
static Poly pmono(int m) { Poly p; p.t.emplace_back(m, Q(1)); return p; }
static Q peval(const Poly &p) { Q r = p.c; for (auto &m : p.t) r += m.second * (*MO)[m.first].val; return r; }
static bool pok(const Poly &p) { for (auto &m : p.t) if (!(*MO)[m.first].valOk) return false; return true; }
static int sgn_(const Q &q) { int s = sgn(q); return s < 0 ? NEG : s > 0 ? POS : ZER; }
static void prod_bounds(Mono &r, const Mono &a, const Mono &b) {
  if (a.hasLo && a.hasHi && b.hasLo && b.hasHi) {
    Q x[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    r.lo = r.hi = x[0]; for (int i = 1; i < 4; i++) { if (x[i] < r.lo) r.lo = x[i]; if (x[i] > r.hi) r.hi = x[i]; }
    r.hasLo = r.hasHi = true;
  } else {
    bool an = a.hasLo && a.lo >= 0, bn = b.hasLo && b.lo >= 0;
    if (an && bn) { r.hasLo = true; r.lo = a.lo * b.lo; }
  }
}
static Poly pmul(const Poly &a, const Poly &b);
static void eval_mono(Mono &m);
// product of variables as a polynomial (applies the inverse / square-root rules)
static Poly prod(std::vector<int> f) {
  std::sort(f.begin(), f.end());
  for (size_t i = 0; i < f.size(); i++) {
    auto it = RULES->find(f[i]);
    if (it == RULES->end()) continue;
    std::vector<int> need = it->second.first, rest = f;   // need includes the variable itself
    bool ok = true;
    for (int n : need) { auto p = std::find(rest.begin(), rest.end(), n); if (p == rest.end()) { ok = false; break; } rest.erase(p); }
    if (!ok) continue;
    Poly r = (*T)[it->second.second].p;
    if (rest.empty()) return r;
    return pmul(r, prod(rest));
  }
  if (f.empty()) return constant(1);
  if (f.size() == 1) return pmono(f[0]);
  std::string k; for (int x : f) { k += std::to_string(x); k += '*'; }
  auto it = MHASH->find(k);
  if (it != MHASH->end()) return pmono(it->second);
  int m = newMono(PROD, k);
  (*MHASH)[k] = m;
  Mono acc = (*MO)[f[0]];
  for (size_t i = 1; i < f.size(); i++) { Mono r; r.hasLo = r.hasHi = false; if (i == 1 && f[0] == f[1]) { prod_bounds(r, acc, (*MO)[f[i]]); if (!r.hasLo || r.lo < 0) { r.hasLo = true; r.lo = 0; } } else prod_bounds(r, acc, (*MO)[f[i]]); acc = r; }
  Mono &mo = (*MO)[m];
  mo.f = f; mo.hasLo = acc.hasLo; mo.hasHi = acc.hasHi; mo.lo = acc.lo; mo.hi = acc.hi;
  for (int x : f) mo.depth = std::max(mo.depth, (*MO)[x].depth);
  eval_mono(mo);
  nonlinPath = true;
  // the box of the product is known to the linear solver
  z3::expr absOf(int); z3::expr numQ(const Q &); void saddx_(const z3::expr &);
  if (mo.hasLo) saddx_(absOf(m) >= numQ(mo.lo));
  if ((*MO)[m].hasHi) saddx_(absOf(m) <= numQ((*MO)[m].hi));
  return pmono(m);
}
static Poly pmul(const Poly &a, const Poly &b) {
  if (a.t.size() * b.t.size() > 4000) unsupported("polynomial too large");
  Poly r = pscale(b, a.c);
  r = padd(r, pscale(a, b.c), 1);
  { r.c = a.c * b.c; }
  // the two lines above count a.c*b.c twice in the constant; reset it
  for (auto &x : a.t) for (auto &y : b.t) {
    Mono &mx = (*MO)[x.first], &my = (*MO)[y.first];
    std::vector<int> f;
    if (mx.kind == PROD) f = mx.f; else f.push_back(x.first);
    if (my.kind == PROD) f.insert(f.end(), my.f.begin(), my.f.end()); else f.push_back(y.first);
    if (f.size() > 12) unsupported("degree too large");
    r = padd(r, prod(f), x.second * y.second);
  }
  return r;
}
z3::expr numQ(const Q &q) { return C->real_val(q.get_str().c_str()); }
static z3::expr termA(int t), termT(int t);
z3::expr absOf(int m) { Mono &mo = (*MO)[m]; if (!mo.ab) { std::string n = mo.kind == BASE ? mo.name : "!m" + std::to_string(m); mo.ab = new z3::expr(C->real_const(n.c_str())); } return *mo.ab; }
static z3::expr trueOf(int m) {
  if ((*MO)[m].kind != PROD) return absOf(m);
  if (!(*MO)[m].tr) { std::vector<int> f = (*MO)[m].f; z3::expr e = absOf(f[0]); for (size_t i = 1; i < f.size(); i++) e = e * absOf(f[i]); (*MO)[m].tr = new z3::expr(e); }
  return *(*MO)[m].tr;
}
static z3::expr polyE(const Poly &p, bool tr) {
  z3::expr_vector v(*C);
  for (auto &m : p.t) { z3::expr e = tr ? trueOf(m.first) : absOf(m.first); v.push_back(m.second == 1 ? e : numQ(m.second) * e); }
  if (p.c != 0 || v.empty()) v.push_back(numQ(p.c));
  return v.size() == 1 ? v[0] : z3::sum(v);
}
static z3::expr termA(int t) { if (!(*T)[t].ab) { z3::expr e = polyE((*T)[t].p, false); (*T)[t].ab = new z3::expr(e); } return *(*T)[t].ab; }
static z3::expr termT(int t) { if (!(*T)[t].nl) return termA(t); if (!(*T)[t].tr) { z3::expr e = polyE((*T)[t].p, true); (*T)[t].tr = new z3::expr(e); } return *(*T)[t].tr; }
static z3::expr signE(const z3::expr &e, int mask) {
  z3::expr z = C->real_val(0);
  switch (mask) { case NEG: return e < z; case ZER: return e == z; case POS: return e > z; case NEG | ZER: return e <= z; case ZER | POS: return e >= z; case NEG | POS: return e != z; case 0: return C->bool_val(false); }
  return C->bool_val(true);
}
static z3::expr itemE(const PCItem &i, bool tr) {
  auto te = [&](int t) { return tr ? termT(t) : termA(t); };
  if (i.kind == 0) return signE(te(i.term), i.mask);
  Mono m = (*MO)[i.term];
  z3::expr v = absOf(i.term);
  if (m.kind == ITE) { z3::expr c = signE(te(m.cond), m.mask); return (z3::implies(c, v == te(m.x))) && (z3::implies(!c, v == te(m.y))); }
  if (m.kind == INV) return v * termT(m.x) == 1;
  return v * v == termT(m.x) && v >= 0;
}
static void eval_mono(Mono &m) {
  m.valOk = true;
  switch (m.kind) {
    case BASE: break;
    case PROD: m.val = 1; for (int x : m.f) { m.val *= (*MO)[x].val; if (!(*MO)[x].valOk) m.valOk = false; } break;
    case ITE: { bool in = sgn_(peval((*T)[m.cond].p)) & m.mask; m.val = peval((*T)[in ? m.x : m.y].p); m.valOk = pok((*T)[m.cond].p) && pok((*T)[m.x].p) && pok((*T)[m.y].p); break; }
    case INV: { Q d = peval((*T)[m.x].p); m.valOk = pok((*T)[m.x].p) && d != 0; m.val = d != 0 ? Q(1) / d : Q(0); break; }
    case SQRT: { Q d = peval((*T)[m.x].p); m.valOk = pok((*T)[m.x].p) && d >= 0 && mpz_perfect_square_p(d.get_num_mpz_t()) && mpz_perfect_square_p(d.get_den_mpz_t()); if (m.valOk) m.val = Q(sqrt(d.get_num()), sqrt(d.get_den())); else m.val = d >= 0 ? Q(::sqrt(d.get_d())) : Q(0); break; }
  }
}
static void eval_all() { for (auto &m : *MO) if (m.kind != BASE) eval_mono(m); }
static bool item_holds(const PCItem &i) { if (i.kind == 1) return (*MO)[i.term].valOk; return pok((*T)[i.term].p) && (sgn_(peval((*T)[i.term].p)) & i.mask); }
static bool in_box() { for (int v : *V) { Mono &m = (*MO)[v]; if (m.hasLo && m.val < m.lo) return false; if (m.hasHi && m.val > m.hi) return false; } return true; }


// ---------------------------------------------------------------- polytope
// The linear part of the path condition over the inputs as the set of its
// vertices (exact rationals).  It answers "which signs can this linear form
// take" and tells which constraints are redundant, so that the solver gets few.
struct Row { int term, mask; };                  // sign(term) in mask
struct Vtx { std::vector<Q> x; std::vector<int> tight; };   // x in V order; tight rows, sorted
static std::vector<Row> *ROWS;
static std::vector<Vtx> *VX;
static bool polyOk = true, rowsChanged = true;
static int VXMAX = 600;
static std::vector<int> *VPOS;                   // mono id -> position in V (or -1)
static Q vdot(const Poly &p, const Vtx &v) { Q r = p.c; for (auto &m : p.t) r += m.second * v.x[(*VPOS)[m.first]]; return r; }
static void poly_newvar(const Q &lo, const Q &hi, int rlo, int rhi) {
  if (!polyOk) return;
  if (VX->size() * 2 > (size_t)VXMAX) { polyOk = false; VX->clear(); rowsChanged = true; return; }
  std::vector<Vtx> n;
  for (auto &v : *VX) { Vtx a = v, b = v; a.x.push_back(lo); a.tight.push_back(rlo); b.x.push_back(hi); b.tight.push_back(rhi); n.push_back(a); n.push_back(b); }
  VX->swap(n); rowsChanged = true;
}
static bool subset(const std::vector<int> &a, const std::vector<int> &b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
// intersect with {sign(p) in mask} (closure); row is its index
static void poly_cut(const Poly &p, int mask, int row) {
  if (!polyOk || mask == 7 || mask == (NEG | POS)) return;
  rowsChanged = true;
  size_t n = VX->size();
  std::vector<Q> val(n); std::vector<int> sg(n);
  for (size_t i = 0; i < n; i++) { val[i] = vdot(p, (*VX)[i]); sg[i] = sgn(val[i]); }
  bool keepP = mask & POS, keepN = mask & NEG;
  std::vector<Vtx> out;
  for (size_t i = 0; i < n; i++) {
    if (sg[i] == 0) { Vtx v = (*VX)[i]; v.tight.push_back(row); out.push_back(v); }
    else if ((sg[i] > 0 && keepP) || (sg[i] < 0 && keepN)) out.push_back((*VX)[i]);
  }
  for (size_t i = 0; i < n; i++) if (sg[i] > 0) for (size_t j = 0; j < n; j++) if (sg[j] < 0) {
    std::vector<int> c;
    std::set_intersection((*VX)[i].tight.begin(), (*VX)[i].tight.end(), (*VX)[j].tight.begin(), (*VX)[j].tight.end(), std::back_inserter(c));
    if (c.size() + 1 < V->size()) continue;
    bool adj = true;
    for (size_t k = 0; k < n && adj; k++) if (k != i && k != j && subset(c, (*VX)[k].tight)) adj = false;
    if (!adj) continue;
    Vtx v; Q d = val[i] - val[j], a = -val[j] / d, b = val[i] / d;
    for (size_t q = 0; q < (*VX)[i].x.size(); q++) v.x.push_back(a * (*VX)[i].x[q] + b * (*VX)[j].x[q]);
    v.tight = c; v.tight.push_back(row);
    out.push_back(v);
  }
  if (out.size() > (size_t)VXMAX) { polyOk = false; out.clear(); }
  VX->swap(out);
}
// range of the linear form over the polytope
static void poly_range(const Poly &p, Q &lo, Q &hi, int *ilo = NULL, int *ihi = NULL) {
  for (size_t i = 0; i < VX->size(); i++) {
    Q q = vdot(p, (*VX)[i]);
    if (!i || q < lo) { lo = q; if (ilo) *ilo = i; }
    if (!i || q > hi) { hi = q; if (ihi) *ihi = i; }
  }
}
static void bounds(const Poly &p, bool &hl, Q &lo, bool &hh, Q &hi) {
  if (!polyOk || VX->empty()) return bounds_box(p, hl, lo, hh, hi);
  Poly b, r; b.c = p.c;
  for (auto &m : p.t) ((*MO)[m.first].kind == BASE ? b : r).t.push_back(m);
  if (b.t.size() < 2 && r.t.size()) { return bounds_box(p, hl, lo, hh, hi); }
  bounds_box(r, hl, lo, hh, hi);
  Q a, c; poly_range(b, a, c); lo += a; hi += c;
}
// ---------------------------------------------------------------- solver
static unsigned RLIMIT = 40000000;
static z3::check_result run(z3::solver &s) {
  double t0 = now();
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
  CS->query_us += (long)((now() - t0) * 1e6);
  CS->queries++;
  if (r == z3::sat) CS->sat++; else if (r == z3::unsat) CS->unsat++; else CS->unknown++;
  return r;
}
typedef std::vector<Q> Vals;   // values of the input variables, in V order
static Vals cur() { Vals v; for (int i : *V) v.push_back((*MO)[i].val); return v; }
static void setv(const Vals &v) { for (size_t i = 0; i < V->size() && i < v.size(); i++) { (*MO)[(*V)[i]].val = v[i]; } eval_all(); }
static Q parseq(std::string s) { Q q; if (s.find('.') != std::string::npos || s.find('?') != std::string::npos) { if (s.back() == '?') s.pop_back(); bool neg = s[0] == '-'; if (neg) s = s.substr(1); size_t d = s.find('.'); std::string ip = d == std::string::npos ? s : s.substr(0, d), fp = d == std::string::npos ? "" : s.substr(d + 1); mpz_class n((ip + fp).c_str(), 10), den = 1; for (size_t i = 0; i < fp.size(); i++) den *= 10; q = Q(n, den); q.canonicalize(); if (neg) q = -q; } else { q = Q(s); q.canonicalize(); } return q; }
static Vals from_model(z3::model &m, bool &exact) {
  Vals r; exact = true;
  for (int i : *V) {
    z3::expr e = m.eval(absOf(i), true);
    if (e.is_numeral()) r.push_back(parseq(Z3_get_numeral_string(*C, e)));
    else { std::string s = Z3_get_numeral_decimal_string(*C, e, 25); exact = false; r.push_back(parseq(s)); }
  }
  return r;
}
static Vals *model_out = NULL; static bool model_exact = true;
static std::string zkey(int t, int mask) { return std::to_string(t) + "/" + std::to_string(mask); }
static int NROWS_IN_S = -1;
static std::vector<z3::expr> *EXTRAS;      // everything else the linear solver must hold
static void saddx(const z3::expr &e) { EXTRAS->push_back(e); S->add(e); }
void saddx_(const z3::expr &e) { saddx(e); }
// rebuild the solver when the set of useful rows has changed
static void sync_solver() {
  if (!rowsChanged) return;
  rowsChanged = false;
  S->reset();
  for (auto &e : *EXTRAS) S->add(e);
  std::vector<char> use(ROWS->size(), polyOk ? 0 : 1);
  if (polyOk) { for (auto &v : *VX) for (int r : v.tight) use[r] = 1; for (size_t i = 0; i < ROWS->size(); i++) if ((*ROWS)[i].mask == (NEG | POS)) use[i] = 1; }
  for (size_t i = 0; i < ROWS->size(); i++) if (use[i]) S->add(signE(termA((*ROWS)[i].term), (*ROWS)[i].mask));
}
// if-then-else variables a term depends on whose definitions the linear solver does not hold yet
static void cone(int t, std::vector<int> &out, bool keep) {
  std::vector<int> todo;
  auto visit = [&](int m) { todo.push_back(m); };
  for (auto &x : (*T)[t].p.t) visit(x.first);
  while (!todo.empty()) {
    int m = todo.back(); todo.pop_back();
    Mono &mo = (*MO)[m];
    if (mo.kind == PROD) { for (int f : mo.f) visit(f); continue; }
    if (mo.kind != ITE || mo.inS) continue;
    mo.inS = keep ? 1 : 2;
    out.push_back(m);
    for (int u : {mo.cond, mo.x, mo.y}) for (auto &x : (*T)[u].p.t) visit(x.first);
  }
}
static void cone_all(int t, std::vector<int> &out) {   // all defined variables a term depends on
  std::vector<int> todo;
  for (auto &x : (*T)[t].p.t) todo.push_back(x.first);
  while (!todo.empty()) {
    int m = todo.back(); todo.pop_back();
    Mono &mo = (*MO)[m];
    if (mo.kind == PROD) { for (int f : mo.f) todo.push_back(f); continue; }
    if (mo.kind == BASE || mo.mark) continue;
    mo.mark = 1; out.push_back(m);
    if (mo.kind == ITE) { for (int u : {mo.cond, mo.x, mo.y}) for (auto &x : (*T)[u].p.t) todo.push_back(x.first); }
    else for (auto &x : (*T)[mo.x].p.t) todo.push_back(x.first);
  }
}
// is PC /\ extra satisfiable?  On sat, *out receives input values (if available: *has).
static z3::check_result query(const std::vector<PCItem> &extra, Vals *out, bool *has) {
  if (has) *has = false;
  bool nl = nonlinPath;
  sync_solver();
  S->push();
  { std::vector<int> d; for (auto &i : extra) if (i.kind == 0) cone(i.term, d, false); for (int m : d) { S->add(itemE(PCItem{1, m, 0}, false)); } for (int m : d) (*MO)[m].inS = 0; }
  for (auto &i : extra) S->add(itemE(i, false));
  z3::check_result r = run(*S);
  if (r == z3::sat) {
    bool ex; z3::model m = S->get_model(); Vals v = from_model(m, ex);
    bool good = true;
    if (nl) {
      Vals save = cur();
      setv(v);
      good = in_box();
      for (auto &i : *PC) if (good && !item_holds(i)) good = false;
      for (auto &i : extra) if (good && !item_holds(i)) good = false;
      setv(save);
    }
    if (good) { if (out) *out = v; if (has) *has = true; S->pop(); return r; }
  }
  S->pop();
  if (r == z3::unsat) return r;
  if (!nl && r == z3::sat) return r;
  for (int attempt = 0; attempt < 2; attempt++) {
    z3::solver s = attempt ? z3::solver(*C) : (z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "purify-arith") & z3::tactic(*C, "elim-term-ite") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "tseitin-cnf") & z3::tactic(*C, "qfnra-nlsat")).mk_solver();
    z3::params p(*C); p.set("rlimit", RLIMIT); s.set(p);
    for (int i : *V) { Mono &m = (*MO)[i]; if (m.hasLo) s.add(absOf(i) >= numQ(m.lo)); if (m.hasHi) s.add(absOf(i) <= numQ(m.hi)); }
    std::vector<int> d;
    for (auto &i : *PC) if (i.kind == 0) cone_all(i.term, d);
    for (auto &i : extra) if (i.kind == 0) cone_all(i.term, d);
    for (int m : d) { s.add(itemE(PCItem{1, m, 0}, true)); (*MO)[m].mark = 0; }
    for (auto &i : *PC) if (i.kind == 0) s.add(itemE(i, true));
    for (auto &i : extra) s.add(itemE(i, true));
    r = run(s);
    if (r == z3::sat) {
      bool ex; z3::model m = s.get_model(); Vals v = from_model(m, ex);
      if (out) *out = v;
      if (has) *has = ex;
      model_exact = ex;
      return r;
    }
    if (r == z3::unsat) return r;
  }
  return r;
}
static int add_row(int term, int mask, bool cut = true) {
  ROWS->push_back(Row{term, mask}); rowsChanged = true;
  if (cut) poly_cut((*T)[term].p, mask, ROWS->size() - 1);
  return ROWS->size() - 1;
}
static void addpc(PCItem i) {
  PC->push_back(i);
  if (i.kind == 0 && (*T)[i.term].base) add_row(i.term, i.mask);
  else {
    if (i.kind == 0) { std::vector<int> d; cone(i.term, d, true); for (int m : d) saddx(itemE(PCItem{1, m, 0}, false)); }
    saddx(itemE(i, false));
  }
  if (i.kind == 0) {
    // keep the boxes of single variables tight
    const Poly &p = (*T)[i.term].p;
    if (p.t.size() == 1) {
      Mono &m = (*MO)[p.t[0].first];
      if (m.kind == BASE) {
        Q r = -p.c / p.t[0].second; bool pos = p.t[0].second > 0;
        bool up = !(i.mask & POS), dn = !(i.mask & NEG);   // term <= 0 / term >= 0
        if (!pos) std::swap(up, dn);
        if (up && (!m.hasHi || r < m.hi)) { m.hasHi = true; m.hi = r; }
        if (dn && (!m.hasLo || r > m.lo)) { m.hasLo = true; m.lo = r; }
      }
    }
  }
}
// ---------------------------------------------------------------- processes
static void set_alarm() {
  struct itimerval it; memset(&it, 0, sizeof it);
  double d = graceDeadline - now(); if (d < 0.05) d = 0.05;
  it.it_value.tv_sec = (long)d; it.it_value.tv_usec = (long)((d - (long)d) * 1e6);
  setitimer(ITIMER_REAL, &it, NULL);
}
static bool crashing = false;
static void hang_candidate(int slot);
// a path that is still running when the time is up may never end: keep its inputs, the driver runs them natively
static void on_alarm(int) {
  if (crashing) _exit(7);
  crashing = true;
  CS->truncated++; if (haveToken) SH->tokens++;
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 3; setitimer(ITIMER_REAL, &it, NULL);
  hang_candidate(0);
  _exit(7);
}
static void on_crash(int sig) {
  if (crashing) _exit(8);
  crashing = true;
  char b[64]; snprintf(b, sizeof b, "crash: signal %d (%s)", sig, sig == SIGSEGV ? "invalid memory access" : sig == SIGABRT ? "abort" : sig == SIGINT ? "interrupt not handled" : "fault");
  CS->crashes++;
  viol("crash", b);
  path_exit(0);
}
// a signal the code sends to itself (an interrupt it does not handle) ends the run like a crash
static void on_selfsig(int sig, siginfo_t *si, void *) { if (si->si_pid == getpid()) on_crash(sig); _exit(9); }
static void lost(int st) { if (WIFSIGNALED(st)) CS->truncated++; }   // a path that was ended from outside
static double hangLimit = 0;
static void arm_hang() { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)hangLimit; it.it_value.tv_usec = (long)((hangLimit - (long)hangLimit) * 1e6); setitimer(ITIMER_PROF, &it, NULL); }
static void on_hang(int) {
  if (crashing) _exit(8);
  crashing = true;
  viol("hang", "does not finish");
  path_exit(0);
}
static void rmscratch() {
  if (scratchDir.empty()) return;
  std::string c = "rm -rf '" + scratchDir + "'";
  if (scratchDir.find(scratchBase) == 0 && scratchDir.size() > scratchBase.size()) { int r = system(c.c_str()); (void)r; }
}
static void record_sample();
static void path_exit(int) {
  CS->paths++;
  if (!pathBad) { flush_pending(); record_sample(); }
  // let the other processes use our slot while we wait for our children
  if (haveToken) { SH->tokens++; haveToken = false; }
  for (pid_t k : kids) { int st = 0; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} lost(st); }
  rmscratch();
  _exit(0);
}
// returns true in the child, false in the parent
static bool do_fork() {
  CS->forks++;
  if (verbose) { void *bt[14]; int n = backtrace(bt, 14); backtrace_symbols_fd(bt + 2, n - 2, 2); fputs("FORK\n", stderr); }
  if (now() > deadline || CS->stop.load()) { if (!CS->stop.load()) hang_candidate(1); CS->truncated++; CS->paths--; pathBad = true; path_exit(0); }
  bool par = false;
  int t = SH->tokens.load();
  while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
  // a full copy of this process explores the other side
  pid_t p = fork();
  if (p < 0) { if (par) SH->tokens++; CS->truncated++; return false; }
  if (p == 0) {
    kids.clear(); scratchDir.clear();
    if (par) haveToken = true;   // sequential children run on the parent's slot: parent keeps it
    else haveToken = false;
    set_alarm(); if (hangLimit > 0) arm_hang();
    return true;
  }
  if (par) { kids.push_back(p); }
  else {
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    lost(st);
    if (CS->stop.load()) path_exit(0);
  }
  return false;
}


// canonical form: leading coefficient +1; returns the term and whether the sign flipped
static int canon(const Poly &p, bool &flip) {
  Q k = p.t[0].second;
  flip = k < 0;
  return intern(pscale(p, Q(1) / k));
}
static int flipm(int m) { return (m & ZER) | ((m & NEG) ? POS : 0) | ((m & POS) ? NEG : 0); }
static int boxmask(const Poly &p) {
  bool hl, hh; Q lo, hi; bounds(p, hl, lo, hh, hi);
  int m = 7;
  if (hl) { if (lo > 0) m &= POS; else if (lo == 0) m &= POS | ZER; }
  if (hh) { if (hi < 0) m &= NEG; else if (hi == 0) m &= NEG | ZER; }
  return m;
}
static int possible(int t) { auto it = KM->find(t); int k = it == KM->end() ? 7 : it->second; return k & boxmask((*T)[t].p); }
static void restrict_(int t, int mask) { auto it = KM->find(t); int k = it == KM->end() ? 7 : it->second; (*KM)[t] = k & mask; }
// Can the base-linear form p take a sign in mask?  1 with a witness, 0, or -1 (not decided here).
// The current input (in the feasible set F) and the vertices (in its closure): any point strictly
// between them is in F.
static bool vals_ok(const Vals &w) {
  Vals save = cur(); for (size_t i = 0; i < V->size(); i++) (*MO)[(*V)[i]].val = w[i];
  bool ok = true;
  for (auto &r : *ROWS) if (!(sgn_(peval((*T)[r.term].p)) & r.mask)) { ok = false; break; }
  if (ok && PC->size() > 0) { bool other = false; for (auto &i : *PC) if (i.kind == 0 && !(*T)[i.term].base) { other = true; break; }
    if (other) { eval_all(); for (auto &i : *PC) if (i.kind == 0 && !item_holds(i)) { ok = false; break; } } }
  for (size_t i = 0; i < V->size(); i++) (*MO)[(*V)[i]].val = save[i];
  eval_all();
  return ok;
}
static int poly_side(const Poly &p, int mask, Vals &w) {
  if (VX->empty()) return -1;
  bool mixed = false;   // constraints outside the polytope?
  for (auto &i : *PC) if (i.kind == 0 && (!(*T)[i.term].base || i.mask == (NEG | POS))) { mixed = true; break; }
  Vals c = cur(); Q pc = peval(p);
  auto toward = [&](int k, const Q &tgt, bool exactZero) {   // point on (c, v_k] side with p between; t<1
    const Vtx &v = (*VX)[k]; Q pv = vdot(p, v);
    Q t0 = (tgt - pc) / (pv - pc);                 // crossing parameter, < 1
    Q t = t0; if (!exactZero) { if (t0 < 0) t = Q(1, 2); else t = (t0 + 1) / 2; }
    w.clear(); for (size_t i = 0; i < c.size(); i++) w.push_back(c[i] + t * (v.x[i] - c[i]));
  };
  Q lo, hi; int il = 0, ih = 0; poly_range(p, lo, hi, &il, &ih);
  int f = 0;
  if ((mask & POS) && hi > 0) { if (pc > 0) w = c; else toward(ih, 0, false); f = 1; }
  else if ((mask & NEG) && lo < 0) { if (pc < 0) w = c; else toward(il, 0, false); f = 1; }
  else if ((mask & ZER) && lo <= 0 && hi >= 0) {
    if (pc == 0) { w = c; f = 1; }
    else if (pc > 0 && lo < 0) { toward(il, 0, true); f = 1; }
    else if (pc < 0 && hi > 0) { toward(ih, 0, true); f = 1; }
    else {   // only touching: centre of the face
      int n = 0; w.assign(c.size(), Q(0));
      for (auto &v : *VX) if (vdot(p, v) == 0) { n++; for (size_t i = 0; i < c.size(); i++) w[i] += v.x[i]; }
      for (auto &q : w) q /= n;
      if (mixed) return -1;
      return vals_ok(w) ? 1 : 0;
    }
  }
  if (!f) return 0;
  // prefer a short decimal
  if (!(mask & ZER) || pc != 0) for (int b : {4, 10, 20}) {
    Vals r; for (auto &q : w) { mpz_class n; Q x = q * Q(mpz_class(1) << b) + Q(1, 2); mpz_fdiv_q(n.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); Q y(n, mpz_class(1) << b); y.canonicalize(); r.push_back(y); }
    Q pr = p.c; for (auto &m : p.t) pr += m.second * r[(*VPOS)[m.first]];
    if ((sgn_(pr) & mask) && vals_ok(r)) { w = r; return 1; }
  }
  if (mixed && !vals_ok(w)) return -1;
  return 1;
}
// Is sign(p) in mask on this path?  Forks if both are possible.
static void assume_poly(const Poly &p, int mask);
static bool decide(const Poly &p, int mask) {
  if (p.t.empty()) return sgn_(p.c) & mask;
  bool flip; int t = canon(p, flip);
  if (flip) mask = flipm(mask);
  int poss = possible(t);
  if (!(poss & mask)) return false;
  if (!(poss & ~mask)) return true;
  CS->steps++;
  int inM = poss & mask, outM = poss & ~mask & 7;
  Vals vT, vF; bool hT = false, hF = false; bool canT, canF;
  if (polyOk && haveModel && (*T)[t].base) {
    Poly q = (*T)[t].p;
    bool in = sgn_(peval(q)) & mask;
    Vals w; int f = poly_side(q, in ? outM : inM, w);
    if (f >= 0) {
      canT = in || f; canF = !in || f; hT = hF = true;
      (in ? vT : vF) = cur(); if (f) (in ? vF : vT) = w;
      goto decided;
    }
  }
  {
  bool mv = haveModel && pok((*T)[t].p);
  if (mv && (sgn_(peval((*T)[t].p)) & mask)) { canT = true; hT = true; vT = cur(); canF = query({PCItem{0, t, outM}}, &vF, &hF) != z3::unsat; }
  else if (mv) { canF = true; hF = true; vF = cur(); canT = query({PCItem{0, t, inM}}, &vT, &hT) != z3::unsat; }
  else {
    canT = query({PCItem{0, t, inM}}, &vT, &hT) != z3::unsat;
    canF = query({PCItem{0, t, outM}}, &vF, &hF) != z3::unsat;
    if (!canT && !canF) { CS->killed++; CS->paths--; pathBad = true; path_exit(0); }
  }
  }
decided:
  if (canT && canF) {
    bool side = do_fork();
    restrict_(t, side ? inM : outM);
    addpc(PCItem{0, t, side ? inM : outM});
    haveModel = side ? hT : hF;
    if (haveModel) setv(side ? vT : vF);
    return side;
  }
  restrict_(t, canT ? inM : outM);
  if (!haveModel) { haveModel = canT ? hT : hF; if (haveModel) setv(canT ? vT : vF); }
  return canT;
}
static std::string model_text(const Vals &v) {
  std::string out;
  for (size_t i = 0; i < V->size(); i++) out += (*MO)[(*V)[i]].name + " " + v[i].get_str() + "\n";
  return out;
}
static void viol_vals(const char *kind, const char *msg, const Vals &v) {
  pathBad = true;
  std::string txt = model_text(v);
  int z = 0;
  while (!CS->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(100); }
  int n = CS->nviol.load();
  if (n < MAXVIOL) {
    Viol &w = CS->viol[n];
    snprintf(w.kind, sizeof w.kind, "%s", kind);
    snprintf(w.msg, sizeof w.msg, "%s", msg);
    snprintf(w.model, sizeof w.model, "%s", txt.c_str());
    CS->nviol++;
    if (n + 1 >= MAXVIOL) CS->stop = 1;
  }
  CS->lock = 0;
}
static void viol(const char *kind, const char *msg) {
  Vals v = cur();
  if (!haveModel) { bool h; Vals w; if (query({}, &w, &h) == z3::sat) v = w; }
  viol_vals(kind, msg, v);
}
static void hang_candidate(int slot) {
  int z = 0;
  if (CS->hangN[slot].load() || !CS->hangN[slot].compare_exchange_strong(z, 1)) return;
  std::string t = model_text(cur());
  snprintf(CS->hang[slot].model, sizeof CS->hang[slot].model, "%s", t.c_str());
  CS->hangN[slot] = 2;
}
static void record_sample() {
  if (CS->nsamp.load() >= MAXSAMP) return;
  Vals v = cur();
  if (!haveModel) { bool h; Vals w; if (query({}, &w, &h) != z3::sat) return; v = w; }
  std::string t = model_text(v);
  if (t.size() + 1 > sizeof(Samp)) return;
  int i = CS->nsamp++;
  if (i < MAXSAMP) memcpy(CS->samp[i].model, t.c_str(), t.size() + 1); else CS->nsamp = MAXSAMP;
}


// ---------------------------------------------------------------- fp operations
static int newITE(int cond, int mask, int x, int y) {
  std::string k = "I" + std::to_string(cond) + "," + std::to_string(mask) + "," + std::to_string(x) + "," + std::to_string(y);
  auto it = MHASH->find(k);
  if (it != MHASH->end()) return it->second;
  int m = newMono(ITE, k);
  (*MHASH)[k] = m;
  Mono &mo = (*MO)[m];
  mo.cond = cond; mo.mask = mask; mo.x = x; mo.y = y;
  mo.depth = 1 + std::max((*T)[cond].depth, std::max((*T)[x].depth, (*T)[y].depth));
  bool hl, hh, gl, gh; Q lo, hi, l2, h2;
  bounds((*T)[x].p, hl, lo, hh, hi); bounds((*T)[y].p, gl, l2, gh, h2);
  if (hl && gl) { mo.hasLo = true; mo.lo = lo < l2 ? lo : l2; }
  if (hh && gh) { mo.hasHi = true; mo.hi = hi > h2 ? hi : h2; }
  eval_mono(mo);   // the definition is given to the solver only where the variable is used
  PC->push_back(PCItem{1, m, 0});
  return m;
}
static Poly ite_poly(const Poly &diff, int mask, const Poly &x, const Poly &y) {
  bool flip; int t = canon(diff, flip); if (flip) mask = flipm(mask);
  int poss = possible(t);
  if (!(poss & mask)) return y;
  if (!(poss & ~mask)) return x;
  Poly xx = x, yy = y;
  // normalise the orientation so that equal selections share a variable
  if (mask == POS || mask == (POS | NEG) || mask == (POS | ZER)) {} else { mask = 7 & ~mask; std::swap(xx, yy); }
  int xi = intern(std::move(xx)), yi = intern(std::move(yy));
  return pmono(newITE(t, mask, xi, yi));
}
extern "C" {
void __s_fn(int i) { if (SH && i >= 0 && i < MAXFN) SH->fn[i] = 1; }
double __s_fneg(double a);
int __s_fcmp(int p, double a, double b);
double __s_fadd(double a, double b) {
  if (!sym(a) && !sym(b)) return a + b;
  if (!sym(a)) { if (a == 0) return b; if (!isfinite(a)) return a; }
  if (!sym(b)) { if (b == 0) return a; if (!isfinite(b)) return b; }
  Poly x = P(a);
  return mk(padd(x, P(b), 1));
}
double __s_fsub(double a, double b) {
  if (!sym(a) && !sym(b)) return a - b;
  if (!sym(a)) { if (!isfinite(a)) return a; }
  if (!sym(b)) { if (b == 0) return a; if (!isfinite(b)) return -b; }
  Poly x = P(a);
  return mk(padd(x, P(b), -1));
}
static bool sign_cond(double a, int pred);
double __s_fmul(double a, double b) {
  if (!sym(a) && !sym(b)) return a * b;
  if (sym(a) && sym(b)) { Poly x = P(a), y = P(b); return mk(pmul(x, y)); }
  if (sym(a)) std::swap(a, b);
  if (a == 0) return 0;
  if (a == 1) return b;
  if (!isfinite(a)) { if (isnan(a)) return a; if (sign_cond(b, 2)) return a; if (sign_cond(b, 4)) return -a; return NAN; }
  return mk(pscale(P(b), Q(a)));
}
double __s_fdiv(double a, double b) {
  if (!sym(a) && !sym(b)) return a / b;
  if (!sym(b)) {
    if (b == 0) { CS->div0++; bool neg = signbit(b); if (sign_cond(a, 2)) return neg ? -INFINITY : INFINITY; if (sign_cond(a, 4)) return neg ? INFINITY : -INFINITY; return NAN; }
    if (b == 1) return a;
    if (isnan(b)) return b;
    if (!isfinite(b)) return 0;
    return mk(pscale(P(a), Q(1) / Q(b)));
  }
  Poly pb = P(b);
  if (pb.t.empty()) return sym(a) ? mk(pscale(P(a), Q(1) / pb.c)) : mk(constant(Q(a) / pb.c));
  if (!sym(a) && !isfinite(a)) { if (isnan(a)) return a; return sign_cond(b, 4) ? -a : a; }
  if (sign_cond(b, 1)) {   // divisor zero on this path
    CS->div0++;
    if (!sym(a)) return a / 0.0;
    if (sign_cond(a, 2)) return INFINITY;
    if (sign_cond(a, 4)) return -INFINITY;
    return NAN;
  }
  if (!sym(a) && a == 0) return 0;
  Poly pa = P(a);
  { // a = k*b
    if (pa.t.size() == pb.t.size()) { Q k = pa.t[0].second / pb.t[0].second; Poly d = padd(pa, pb, -k); if (d.t.empty() && d.c == 0) return mk(constant(k)); }
  }
  bool flip; Q lead = pb.t[0].second; int t = canon(pb, flip);
  std::string key = "/" + std::to_string(t);
  int m;
  auto it = MHASH->find(key);
  if (it != MHASH->end()) m = it->second;
  else {
    m = newMono(INV, key);
    (*MHASH)[key] = m;
    (*MO)[m].x = t; (*MO)[m].depth = (*T)[t].depth;
    bool hl, hh; Q lo, hi; bounds((*T)[t].p, hl, lo, hh, hi);
    Mono &mo = (*MO)[m];
    if ((hl && lo > 0) || (hh && hi < 0)) { if (hl && lo != 0) { mo.hasHi = true; mo.hi = Q(1) / lo; } if (hh && hi != 0) { mo.hasLo = true; mo.lo = Q(1) / hi; } if (!mo.hasLo && hl && lo > 0) { mo.hasLo = true; mo.lo = 0; } }
    eval_mono(mo);
    nonlinPath = true;
    PC->push_back(PCItem{1, m, 0});
    if (mo.hasLo) saddx(absOf(m) >= numQ((*MO)[m].lo));
    if ((*MO)[m].hasHi) saddx(absOf(m) <= numQ((*MO)[m].hi));
    // rule: lead * inv -> (1 - (rest) * inv)
    // (lead is the graded-lex largest monomial, so that rewriting terminates)
    const Poly p = (*T)[t].p;
    auto fac = [](int q) { std::vector<int> f; if ((*MO)[q].kind == PROD) f = (*MO)[q].f; else f.push_back(q); return f; };
    size_t li = 0; std::vector<int> need = fac(p.t[0].first);
    for (size_t i = 1; i < p.t.size(); i++) { std::vector<int> f = fac(p.t[i].first); if (f.size() > need.size() || (f.size() == need.size() && f < need)) { need = f; li = i; } }
    Q lc = p.t[li].second; bool ln = (*MO)[p.t[li].first].hasLo && (*MO)[p.t[li].first].lo >= 0;
    need.push_back(m); std::sort(need.begin(), need.end());
    Poly rest = p; rest.t.erase(rest.t.begin() + li);
    Poly rep = pscale(padd(constant(1), pmul(rest, pmono(m)), -1), Q(1) / lc);
    ln = ln && (*MO)[m].hasLo && (*MO)[m].lo >= 0;
    int ri = intern(std::move(rep));
    (*RULES)[m] = std::make_pair(need, ri);
    if (ln) saddx(termA(ri) >= 0);
  }
  return mk(pmul(pa, pscale(pmono(m), Q(1) / lead)));
}
double __s_fmod(double, double);
double __s_frem(double a, double b) { return __s_fmod(a, b); }
double __s_fneg(double a) { if (!sym(a)) return -a; return mk(pscale(P(a), -1)); }
double __s_fmuladd(double a, double b, double c) { return __s_fadd(__s_fmul(a, b), c); }
double __s_copysign(double a, double b) { if (!sym(a) && !sym(b)) return copysign(a, b); double m = sym(a) ? (__s_fcmp(4, a, 0.0) ? __s_fneg(a) : a) : fabs(a); return __s_fcmp(4, b, 0.0) ? __s_fneg(m) : m; }
static int predmask(int p) { switch (p & 7) { case 1: return ZER; case 2: return POS; case 3: return POS | ZER; case 4: return NEG; case 5: return NEG | ZER; case 6: return NEG | POS; } return 7; }
int __s_fcmp(int p, double a, double b) {
  if (!sym(a) && !sym(b)) {
    bool un = isnan(a) || isnan(b);
    bool r = false;
    switch (p) { case 0: r = false; break; case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a < b || a > b; break; case 7: r = !un; break;
      case 8: r = un; break; case 9: r = un || a == b; break; case 10: r = un || a > b; break; case 11: r = un || a >= b; break; case 12: r = un || a < b; break; case 13: r = un || a <= b; break; case 14: r = un || a != b; break; case 15: r = true; break; }
    return r;
  }
  // codes: 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true
  double o = sym(a) ? b : a;
  if (!sym(o) && !isfinite(o)) {
    if (isnan(o)) return p >= 8 ? 1 : 0;
    double x = sym(a) ? 0 : o, y = sym(a) ? o : 0;
    return __s_fcmp(p, x, y);
  }
  switch (p) { case 0: case 8: return 0; case 7: case 15: return 1; }
  Poly x = P(a);
  return decide(padd(x, P(b), -1), predmask(p >= 9 ? p - 8 : p));
}
static bool sign_cond(double a, int pred) { return __s_fcmp(pred, a, 0.0); }
// a pred b ? x : y without forking: if the solver cannot exclude either side the
// result is an if-then-else variable (nesting up to ITE_MAX, then the path forks)
double __s_dsel(int p, double a, double b, double x, double y) {
  if (bits(x) == bits(y)) return x;
  if (!sym(a) && !sym(b)) return __s_fcmp(p, a, b) ? x : y;
  double o = sym(a) ? b : a;
  if ((!sym(o) && !isfinite(o)) || (!sym(x) && !isfinite(x)) || (!sym(y) && !isfinite(y)) || p == 0 || p == 7 || p == 8 || p == 15) return __s_fcmp(p, a, b) ? x : y;
  Poly d0 = P(a); Poly d = padd(d0, P(b), -1);
  int mask = predmask(p >= 9 ? p - 8 : p);
  if (d.t.empty()) return (sgn_(d.c) & mask) ? x : y;
  bool flip; int t = canon(d, flip); int cm = flip ? flipm(mask) : mask;
  int poss = possible(t);
  if (!(poss & cm)) return y;
  if (!(poss & ~cm)) return x;
  int dep = (*T)[t].depth; if (sym(x)) dep = std::max(dep, (*T)[idx(x)].depth); if (sym(y)) dep = std::max(dep, (*T)[idx(y)].depth);
  if (dep + 1 > ITE_MAX || (*T)[t].nl) return __s_fcmp(p, a, b) ? x : y;
  static std::unordered_map<int, size_t> *OPEN = NULL;   // known to be open at this length of the path condition
  if (!OPEN) OPEN = new std::unordered_map<int, size_t>();
  int key = t * 8 + cm;
  auto it = OPEN->find(key);
  if (it == OPEN->end() || it->second != PC->size()) {
    if (!haveModel || !pok((*T)[t].p)) return __s_fcmp(p, a, b) ? x : y;
    CS->steps++;
    bool in = sgn_(peval((*T)[t].p)) & cm;
    int other = in ? poss & ~cm & 7 : poss & cm;
    if (query({PCItem{0, t, other}}, NULL, NULL) == z3::unsat) { restrict_(t, in ? poss & cm : poss & ~cm); return in ? x : y; }
  }
  Poly px = P(x), py = P(y);
  double r = mk(ite_poly(d, mask, px, py));
  (*OPEN)[key] = PC->size();
  return r;
}
double __s_fabs(double a) { if (!sym(a)) return fabs(a); return __s_dsel(4, a, 0.0, __s_fneg(a), a); }
double __s_fmax(double a, double b) { if (!sym(a) && !sym(b)) return fmax(a, b); return __s_dsel(4, a, b, b, a); }
double __s_fmin(double a, double b) { if (!sym(a) && !sym(b)) return fmin(a, b); return __s_dsel(4, b, a, b, a); }
// symbolic real -> integer by case split
static long to_int(double a, int mode) {  // 0 trunc, 1 floor, 2 ceil
  Poly p = P(a);
  for (int guard = 0; guard < 4000; guard++) {
    if (!haveModel || !pok(p)) { Vals v; bool h; if (query({}, &v, &h) != z3::sat || !h) unsupported("to_int: no model"); setv(v); haveModel = true; }
    Q v = peval(p);
    mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
    mpz_class ce = (Q(fl) == v) ? fl : mpz_class(fl + 1);
    mpz_class k = mode == 1 ? fl : mode == 2 ? ce : (v >= 0 ? fl : ce);
    int lo = -1, hi = 1; bool lo_in = false, hi_in = false;
    if (mode == 1 || (mode == 0 && k > 0)) { lo = 0; lo_in = true; hi = 1; }
    else if (mode == 2 || (mode == 0 && k < 0)) { lo = -1; hi = 0; hi_in = true; }
    bool a1 = decide(padd(p, constant(Q(k + lo)), -1), lo_in ? POS | ZER : POS);
    if (!a1) continue;
    bool a2 = decide(padd(p, constant(Q(k + hi)), -1), hi_in ? NEG | ZER : NEG);
    if (a2) return k.get_si();
  }
  unsupported("to_int: too many values");
  return 0;
}
long __s_fptosi(double a) { if (!sym(a)) return (long)a; return to_int(a, 0); }
unsigned long __s_fptoui(double a) { if (!sym(a)) return (unsigned long)a; return (unsigned long)to_int(a, 0); }
double __s_floor(double a) { if (!sym(a)) return floor(a); return to_int(a, 1); }
double __s_ceil(double a) { if (!sym(a)) return ceil(a); return to_int(a, 2); }
double __s_trunc(double a) { if (!sym(a)) return trunc(a); return to_int(a, 0); }
double __s_round(double a) { if (!sym(a)) return round(a); if (__s_fcmp(4, a, 0)) return to_int(__s_fsub(a, 0.5), 2); return to_int(__s_fadd(a, 0.5), 1); }
// an operation outside the encoding: the path goes on with one value of its operand (the others are given up and counted)
static double pin(double a, const char *what) {
  if (!sym(a)) return a;
  Poly p = P(a);
  if (!haveModel || !pok(p)) { Vals v; bool h; if (query({}, &v, &h) != z3::sat || !h) { pathBad = true; path_exit(0); } setv(v); haveModel = true; }
  Q v = peval(p); bool fl; if (p.t.empty() || possible(canon(padd(p, constant(v), -1), fl)) == ZER) return v.get_d();
  CS->unsupported++; if (!CS->firstUnsup[0]) snprintf(CS->firstUnsup, sizeof CS->firstUnsup, "%s (one value kept)", what);
  if (Q((double)(float)v.get_d()) == v) for (Q f : {Q(999983, 1000003), Q(1000003, 999983), Q(2, 3), Q(4, 3)}) {   // rather one that rounding changes
    Q w = v == 0 ? Q(f / 7) : Q(v * f); Vals x; bool h, flip, yes; Poly e = padd(p, constant(w), -1); int t = canon(e, flip);
    yes = (possible(t) & ZER) && query({PCItem{0, t, ZER}}, &x, &h) == z3::sat; if (yes) { v = w; break; }
  }
  assume_poly(padd(p, constant(v), -1), ZER);
  return v.get_d();
}
double __s_pin(double a) { return pin(a, "conversion"); }
float __s_fptrunc(double a) { return (float)pin(a, "float"); }
double __s_rint(double a) { return rint(pin(a, "rint")); }
long __s_lround(double a) { if (!sym(a)) return lround(a); return (long)__s_round(a); }
long __s_lrint(double a) { return lrint(pin(a, "lrint")); }
double __s_nearbyint(double a) { return nearbyint(pin(a, "rint")); }
double __s_cbrt(double a) { return cbrt(pin(a, "cbrt")); }
double __s_log1p(double a) { return log1p(pin(a, "log1p")); }
double __s_expm1(double a) { return expm1(pin(a, "expm1")); }
double __s_atan(double a) { return atan(pin(a, "atan")); }
double __s_atan2(double a, double b) { return atan2(pin(a, "atan2"), pin(b, "atan2")); }
double __s_sinh(double a) { return sinh(pin(a, "sinh")); }
double __s_cosh(double a) { return cosh(pin(a, "cosh")); }
double __s_tanh(double a) { return tanh(pin(a, "tanh")); }
double __s_asin(double a) { return asin(pin(a, "asin")); }
double __s_acos(double a) { return acos(pin(a, "acos")); }
double __s_asinh(double a) { return asinh(pin(a, "asinh")); }
double __s_acosh(double a) { return acosh(pin(a, "acosh")); }
double __s_atanh(double a) { return atanh(pin(a, "atanh")); }
double __s_erf(double a) { return erf(pin(a, "erf")); }
double __s_erfc(double a) { return erfc(pin(a, "erfc")); }
double __s_tgamma(double a) { return tgamma(pin(a, "tgamma")); }
double __s_lgamma(double a) { return lgamma(pin(a, "lgamma")); }
double __s_logb(double a) { return logb(pin(a, "logb")); }
double __s_remainder(double a, double b) { double x = pin(a, "remainder"), y = pin(b, "remainder"); return remainder(x, y); }
double __s_nextafter(double a, double b) { double x = pin(a, "nextafter"), y = pin(b, "nextafter"); return nextafter(x, y); }
double __s_fdim(double a, double b) { double x = pin(a, "fdim"), y = pin(b, "fdim"); return fdim(x, y); }
long __s_signbits(double a) { return sym(a) ? (__s_fcmp(4, a, 0) ? -1L : 1L) : (long)bits(a); }   // only its sign is used
double __s_frexp(double a, int *e) { return frexp(pin(a, "frexp"), e); }
int __s_ilogb(double a) { return ilogb(pin(a, "ilogb")); }
double __s_ldexp(double a, int n) { return sym(a) ? __s_fmul(a, ldexp(1, n)) : ldexp(a, n); }
double __s_trunc(double a);
double __s_modf(double a, double *ip) { if (!sym(a)) return modf(a, ip); *ip = __s_trunc(a); return __s_fsub(a, *ip); }
double __s_hypot(double a, double b) { return hypot(pin(a, "hypot"), pin(b, "hypot")); }
double __s_sqrt(double a) {
  if (!sym(a)) return sqrt(a);
  if (sign_cond(a, 4)) return NAN;
  int t = idx(a);
  std::string key = "r" + std::to_string(t);
  auto it = MHASH->find(key);
  if (it != MHASH->end()) return mk(pmono(it->second));
  int m = newMono(SQRT, key); (*MHASH)[key] = m;
  Mono &mo = (*MO)[m]; mo.x = t; mo.depth = (*T)[t].depth; mo.hasLo = true; mo.lo = 0;
  bool hl, hh; Q lo, hi; bounds((*T)[t].p, hl, lo, hh, hi);
  if (hh) { mo.hasHi = true; mo.hi = hi > 1 ? hi : Q(1); }
  eval_mono(mo); if (!mo.valOk) haveModel = false;
  nonlinPath = true;
  PC->push_back(PCItem{1, m, 0});
  saddx(absOf(m) >= 0); if ((*MO)[m].hasHi) saddx(absOf(m) <= numQ((*MO)[m].hi));
  (*RULES)[m] = std::make_pair(std::vector<int>{m, m}, t);
  return mk(pmono(m));
}
// log and exp of symbolic values: an arbitrary value of the right range (an
// over-approximation: the same argument gives the same value, nothing else is known)
static double fresh_fn(const char *fn, double a, double lo, double hi) {
  static std::map<std::string, double> *memo = new std::map<std::string, double>;
  std::string k = std::string(fn) + std::to_string(idx(a));
  auto it = memo->find(k);
  if (it != memo->end()) return it->second;
  return (*memo)[k] = sym_double(("!" + k).c_str(), lo, hi);
}
static void dbounds(double a, double &lo, double &hi) { bool hl, hh; Q l, h; bounds(P(a), hl, l, hh, h); lo = hl ? l.get_d() : -1e300; hi = hh ? h.get_d() : 1e300; }
double __s_log(double a) {
  if (!sym(a)) return log(a);
  if (sign_cond(a, 4)) return NAN;
  if (sign_cond(a, 5)) return -HUGE_VAL;
  double l, h; dbounds(a, l, h);
  return fresh_fn("log", a, l > 1e-300 ? log(l) - 1e-9 : -746, h < 1e299 ? log(h) + 1e-9 : 710);
}
double __s_log10(double a) { return log10(pin(a, "log10")); }
double __s_log2(double a) { return log2(pin(a, "log2")); }
double __s_exp(double a) { if (!sym(a)) return exp(a); double l, h; dbounds(a, l, h); return fresh_fn("exp", a, l > -700 ? exp(l) * (1 - 1e-9) : 0, h < 60 ? exp(h) * (1 + 1e-9) : 1e30); }
double __s_exp2(double a) { return exp2(pin(a, "exp2")); }
double __s_sin(double a) { return sin(pin(a, "sin")); }
double __s_cos(double a) { return cos(pin(a, "cos")); }
double __s_tan(double a) { return tan(pin(a, "tan")); }
double __s_pow(double a, double b) {
  if (!sym(a) && !sym(b)) return pow(a, b);
  if (!sym(b) && b == floor(b) && fabs(b) <= 64) { double r = 1; for (int i = 0; i < (int)fabs(b); i++) r = __s_fmul(r, a); return b < 0 ? __s_fdiv(1, r) : r; }
  { double x = pin(a, "pow"), y = pin(b, "pow"); return pow(x, y); }
}
double __s_fmod(double a, double b) { double x = pin(a, "fmod"), y = pin(b, "fmod"); return fmod(x, y); }
int __s_fpclass(double a, int m) { if (!sym(a)) { int r = 0; if (isnan(a)) r = m & 3; else if (isinf(a)) r = a < 0 ? m & 4 : m & 512; else if (a == 0) r = m & (64 | 32); else r = a < 0 ? m & (8 | 16) : m & (128 | 256); return r != 0; }
  if ((m & 0x207) == m) return 0;   // only nan/inf classes asked
  if ((m & 0x1f8) == 0x1f8) return 1; // all finite classes
  return __s_fpclass(pin(a, "fpclass"), m); }

// ---------------------------------------------------------------- environment
static std::vector<double> *RSCRIPT; static size_t rpos = 0; static bool rcycle;
static std::vector<double> *RLOG;
static std::map<long, double> *RTOK;
static double rlo = 0, rhi = 1; static int rcount = 0;
int __s_rand() {
  // an arbitrary value of the random source, as an opaque token that becomes
  // symbolic when converted to floating point
  long tok = 0x5A5A0000 + (rcount % 9000) * 7 + 3;
  double frac;
  if (rcycle && rpos >= RSCRIPT->size()) rpos = 0;
  if (rpos < RSCRIPT->size()) frac = (*RSCRIPT)[rpos++];
  else {
    char nm[32]; snprintf(nm, sizeof nm, "rand%d", rcount);
    frac = sym_double(nm, rlo, rhi);
  }
  rcount++;
  RLOG->push_back(frac);
  (*RTOK)[tok] = __s_fmul(frac, (double)RAND_MAX);
  return (int)tok;
}
void __s_srand(unsigned) {}
double __s_sitofp(long v) {
  if ((v & 0xffff0000) == 0x5A5A0000 && RTOK) { auto it = RTOK->find(v); if (it != RTOK->end()) return it->second; }
  return (double)v;
}
static double vtime = 1000.0, vstep = 0.0;
int __s_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (long)vtime; tv->tv_usec = (long)((vtime - (long)vtime) * 1e6 + 0.5); if (tv->tv_usec > 999999) tv->tv_usec = 999999; vtime += vstep; return 0; }
int __s_clock_gettime(int, struct timespec *ts) { struct timeval tv; __s_gettimeofday(&tv, NULL); ts->tv_sec = tv.tv_sec; ts->tv_nsec = tv.tv_usec * 1000; return 0; }
long __s_chrono() { struct timespec ts; __s_clock_gettime(0, &ts); return ts.tv_sec * 1000000000L + ts.tv_nsec; }
long __s_random() { return __s_rand(); }
long __s_time(long *t) { if (t) *t = (long)vtime; return (long)vtime; }
int __s_usleep(unsigned) { return 0; }
int __s_nanosleep(const struct timespec *, struct timespec *) { return 0; }
unsigned __s_sleep(unsigned) { return 0; }
int __s_select(int, void *, void *, void *, void *) { return 0; }
void __s_exit(int code) {
  if (onExit) { sym_exit_fn f = onExit; onExit = NULL; CS->exits++; f(code); path_exit(0); }
  char b[80]; snprintf(b, sizeof b, "unexpected exit(%d) of the code under test", code);
  viol("exit", b);
  path_exit(0);
}
void __s_abort() { if (onExit) { __s_exit(134); } viol("abort", "unexpected abort"); path_exit(0); }
void __s_assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (onExit) { __s_exit(134); }
  char b[300]; const char *s = strrchr(f, '/');
  snprintf(b, sizeof b, "assertion failed in the code under test: %s (%s)", e, s ? s + 1 : f);
  viol("assert", b); path_exit(0);
}
// ---------------------------------------------------------------- text
static double unmagic(double v) { auto it = MAGIC->find(v); if (it != MAGIC->end()) return dbl(TAG | (uint64_t)it->second); auto jt = MAGIC->find(-v); if (jt != MAGIC->end()) return __s_fneg(dbl(TAG | (uint64_t)jt->second)); return v; }
static std::string magic_text(double v) { char b[40]; snprintf(b, sizeof b, "7777%06de90", idx(v)); (*MAGIC)[strtod(b, NULL)] = idx(v); return b; }
static bool hashExact = false, printRounding = false;
static std::vector<double> *HASHED;
// length of the text "%.<prec>f" would print for a symbolic value (forks on the magnitude)
static int printed_len(double v, int prec) {
  double half = 0.5; for (int i = 0; i < prec; i++) half /= 10;
  int neg = __s_fcmp(4, v, -half) ? 1 : 0;
  double mag = neg ? __s_fneg(v) : v, lim = 10; int d = 1;
  while (d < 15 && !__s_fcmp(4, mag, lim - half)) { lim *= 10; d++; }
  return neg + d + (prec ? 1 + prec : 0);
}
// Coarsely printed keys (fewer than 7 decimals) also coincide for different values
// that round to the same text: tried around a few grid points.
static std::string coarse_text(double v, int prec) {
  double ulp = 1; for (int i = 0; i < prec; i++) ulp /= 10;
  for (double g : {0.5, 0.25, 5.0, 20000.0, -20000.0}) if (__s_fcmp(4, v, g + 0.4 * ulp) && __s_fcmp(2, v, g - 0.4 * ulp)) { char b[60]; snprintf(b, sizeof b, "~%.*f", prec, g); return b; }
  return "";
}
static std::string key_text(double v, int prec = 9) {
  if (hashExact) {
    if (prec < 7) { std::string t = coarse_text(v, prec); if (!t.empty()) return t; }
    for (double o : *HASHED) {
      if (sym(o) && idx(o) == idx(v)) break;
      if (__s_fcmp(1, o, v)) { if (sym(o)) return magic_text(o); char b[40]; snprintf(b, sizeof b, "%15.9lf", o); return b; }
    }
    HASHED->push_back(v);
  }
  return magic_text(v);
}
double __s_atof(const char *s) { return unmagic(strtod(s, NULL)); }
double __s_strtod(const char *s, char **e) { return unmagic(strtod(s, e)); }
float __s_strtof(const char *s, char **e) { double d = unmagic(strtod(s, e)); return sym(d) ? __s_fptrunc(d) : strtof(s, e); }
static bool plainText;
static int fmt(char *out, size_t n, const char *f, va_list ap) {
  std::string r;
  for (const char *p = f; *p;) {
    if (*p != '%') { r += *p++; continue; }
    if (p[1] == '%') { r += '%'; p += 2; continue; }
    std::string spec = "%"; p++;
    int lng = 0; char buf[600];
    int star[2], ns = 0;
    while (*p && !strchr("diouxXeEfFgGaAcspn", *p)) { if (*p == 'l' || *p == 'z' || *p == 'j' || *p == 't') lng++; if (*p == 'L') lng = 9; if (*p == '*') { star[ns] = va_arg(ap, int); spec += std::to_string(star[ns]); ns++; p++; continue; } spec += *p++; }
    char c = *p++; spec += c;
    if (strchr("diouxXc", c)) { if (lng) snprintf(buf, sizeof buf, spec.c_str(), va_arg(ap, long)); else snprintf(buf, sizeof buf, spec.c_str(), va_arg(ap, int)); r += buf; }
    else if (strchr("eEfFgGaA", c)) {
      double d = lng == 9 ? (double)va_arg(ap, long double) : va_arg(ap, double); if (lng == 9) spec.erase(spec.find('L'), 1);
      if (sym(d)) { size_t dot = spec.find('.'); std::string t = plainText ? magic_text(d) : key_text(d, c == 'f' || c == 'F' ? (dot == std::string::npos ? 6 : atoi(spec.c_str() + dot + 1)) : 9); int w = atoi(spec.c_str() + 1); if (hashExact && (c == 'f' || c == 'F')) w = std::max(w, printed_len(d, dot == std::string::npos ? 6 : atoi(spec.c_str() + dot + 1))); else while ((int)t.size() < w) t = " " + t; while ((int)t.size() < w) t += "#"; r += t; }
      else { if (hashExact) { bool seen = false; for (double o : *HASHED) { if (!sym(o)) { if (o == d) seen = true; } else if (__s_fcmp(1, o, d)) { std::string t = magic_text(o); if (c == 'f' || c == 'F') { size_t dot = spec.find('.'); size_t w = std::max(atoi(spec.c_str() + 1), printed_len(o, dot == std::string::npos ? 6 : atoi(spec.c_str() + dot + 1))); while (t.size() < w) t += "#"; } r += t; goto done; } } if (!seen) HASHED->push_back(d); }
        snprintf(buf, sizeof buf, spec.c_str(), d); r += buf; done:; }
    } else if (c == 's') { const char *s = va_arg(ap, const char *); size_t need = strlen(s) + 64; char *bb = (char *)malloc(need); snprintf(bb, need, spec.c_str(), s); r += bb; free(bb); }
    else if (c == 'p') { snprintf(buf, sizeof buf, "%p", va_arg(ap, void *)); r += buf; }
  }
  if (n) { size_t k = r.size() < n - 1 ? r.size() : n - 1; memcpy(out, r.data(), k); out[k] = 0; }
  return r.size();
}
int __s_snprintf(char *out, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(out, n, f, ap); va_end(ap); return r; }
int __s_vsnprintf(char *out, size_t n, const char *f, va_list ap) { return fmt(out, n, f, ap); }
int __s_vsprintf(char *out, const char *f, va_list ap) { return fmt(out, (size_t)1 << 30, f, ap); }
int __s_vfprintf(FILE *o, const char *f, va_list ap) { char *b = (char *)malloc(1 << 16); bool h = hashExact; hashExact = false; int r = fmt(b, 1 << 16, f, ap); hashExact = h; fputs(b, o); free(b); return r; }
int __s_sprintf(char *out, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(out, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int __s_printf(const char *f, ...) { va_list ap; va_start(ap, f); char *b = (char *)malloc(1 << 16); bool h = hashExact; hashExact = false; plainText = true; int r = fmt(b, 1 << 16, f, ap); plainText = false; hashExact = h; va_end(ap); fputs(b, stdout); free(b); return r; }
int __s_fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); char *b = (char *)malloc(1 << 16); bool h = hashExact; hashExact = false; int r = fmt(b, 1 << 16, f, ap); hashExact = h; va_end(ap); fputs(b, o); free(b); return r; }
static void unmagic_args(const char *f, va_list ap2, int r) {
  int k = 0;
  for (const char *p = f; *p && k < r;) {
    if (*p != '%') { p++; continue; }
    if (p[1] == '%') { p += 2; continue; }
    p++; bool skip = false, lng = false;
    while (*p && !strchr("diouxXeEfFgGaAcspn[", *p)) { if (*p == '*') skip = true; if (*p == 'l') lng = true; p++; }
    char c = *p++;
    if (c == '[') { while (*p && *p != ']') p++; if (*p) p++; }
    if (skip) continue;
    void *q = va_arg(ap2, void *);
    if (c == 'n') continue;
    if (strchr("eEfFgG", c) && lng) { double *d = (double *)q; *d = unmagic(*d); }
    k++;
  }
}
int __s_vsscanf(const char *s, const char *f, va_list ap) { va_list ap2; va_copy(ap2, ap); int r = vsscanf(s, f, ap); unmagic_args(f, ap2, r); va_end(ap2); return r; }
int __s_vfscanf(FILE *s, const char *f, va_list ap) { va_list ap2; va_copy(ap2, ap); int r = vfscanf(s, f, ap); unmagic_args(f, ap2, r); va_end(ap2); return r; }
int __s_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = __s_vsscanf(s, f, ap); va_end(ap); return r; }
int __s_fscanf(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = __s_vfscanf(s, f, ap); va_end(ap); return r; }
int __s_scanf(const char *f, ...) { va_list ap; va_start(ap, f); int r = __s_vfscanf(stdin, f, ap); va_end(ap); return r; }
long double __s_strtold(const char *s, char **e) { return pin(unmagic(strtod(s, e)), "long double"); }
std::ostream *__s_ostream_lsd(std::ostream *o, double d) {
  if (!sym(d)) { (*o) << d; return o; }
  if (printRounding && o->precision() < 17) for (double c : {1.2345678901234567, -123.45678901234567}) if (__s_fcmp(1, d, c)) { (*o) << c; return o; }
  (*o) << magic_text(d); return o; }
std::istream *__s_istream_rsd(std::istream *i, double *d) { (*i) >> *d; *d = unmagic(*d); return i; }
}  // extern C

// ---------------------------------------------------------------- harness API
static std::map<std::string, int> *NAMES;
static std::string uniq(const char *n) { int k = (*NAMES)[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
double sym_double(const char *name, double lo, double hi) {
  if (lo == hi) return lo;
  int m = newMono(BASE, uniq(name));
  Mono &mo = (*MO)[m];
  mo.hasLo = mo.hasHi = true; mo.lo = Q(lo); mo.hi = Q(hi);
  mo.val = lo <= 0 && hi >= 0 ? Q(0) : Q(lo); mo.valOk = true;
  V->push_back(m);
  VPOS->resize(MO->size(), -1); (*VPOS)[m] = V->size() - 1;
  Q ql(lo), qh(hi);
  int t1 = intern(padd(pmono(m), constant(ql), -1)), t2 = intern(padd(pmono(m), constant(qh), -1));
  int r1 = add_row(t1, POS | ZER, false), r2 = add_row(t2, NEG | ZER, false);
  poly_newvar(ql, qh, r1, r2);
  return mk(pmono(m));
}
double sym_doublef(double lo, double hi, const char *f, ...) { char b[128]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return sym_double(b, lo, hi); }
static void assume_poly(const Poly &p, int mask);
int sym_int(const char *name, int lo, int hi) {
  if (lo == hi) return lo;
  double d = sym_double(name, lo, hi);
  Poly p = P(d);
  for (int k = lo; k < hi; k++) if (decide(padd(p, constant(k), -1), ZER)) return k;
  assume_poly(padd(p, constant(hi), -1), ZER);
  return hi;
}
bool sym_bool(const char *name) { return sym_int(name, 0, 1); }
void sym_assume(bool c) { if (!c) { CS->killed++; CS->paths--; pathBad = true; path_exit(0); } }
static void assume_poly(const Poly &p, int mask) {
  if (p.t.empty()) return sym_assume(sgn_(p.c) & mask);
  bool flip; int t = canon(p, flip); if (flip) mask = flipm(mask);
  int poss = possible(t);
  if (!(poss & mask)) sym_assume(false);
  if (!(poss & ~mask)) return;
  if (!haveModel || !pok((*T)[t].p) || !(sgn_(peval((*T)[t].p)) & mask)) {
    Vals v; bool h;
    if (query({PCItem{0, t, poss & mask}}, &v, &h) == z3::unsat) sym_assume(false);
    haveModel = h; if (h) setv(v);
  }
  restrict_(t, poss & mask);
  addpc(PCItem{0, t, poss & mask});
}
static Poly pdiff(double a, double b) { Poly x = P(a); return padd(x, P(b), -1); }
void sym_assume_le(double a, double b) { if (!sym(a) && !sym(b)) return sym_assume(a <= b); assume_poly(pdiff(a, b), NEG | ZER); }
void sym_assume_eq(double a, double b) { if (!sym(a) && !sym(b)) return sym_assume(a == b); assume_poly(pdiff(a, b), ZER); }
void sym_assume_ge_gap(double a, double b, double gap) {
  if (!sym(a) && !sym(b)) return sym_assume(fabs(a - b) >= gap);
  // |a-b| >= gap without a fork: (a-b)^2 >= gap^2 is nonlinear, so decide the sign
  Poly d = pdiff(a, b);
  if (decide(padd(d, constant(Q(gap)), -1), POS | ZER)) return;
  assume_poly(padd(d, constant(Q(gap)), 1), NEG | ZER);
}
static void vmsg(char *b, size_t n, const char *f, va_list ap) { vsnprintf(b, n, f, ap); }
void sym_fail(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vmsg(b, sizeof b, f, ap); va_end(ap); CS->asserts++; viol("check", b); path_exit(0); }
void sym_check(bool c, const char *f, ...) { CS->asserts++; if (c) { CS->proved++; return; } char b[400]; va_list ap; va_start(ap, f); vmsg(b, sizeof b, f, ap); va_end(ap); viol("check", b); path_exit(0); }
static void flush_pending() {
  if (PEND->empty()) return;
  std::set<std::pair<int, int>> todo; todo.swap(*PEND);
  sync_solver();
  S->push();
  z3::expr_vector alt(*C); std::vector<int> d;
  for (auto &q : todo) { cone(q.first, d, false); alt.push_back(signE(termA(q.first), q.second)); }
  for (int m : d) { S->add(itemE(PCItem{1, m, 0}, false)); (*MO)[m].inS = 0; }
  S->add(z3::mk_or(alt));
  z3::check_result r = run(*S);
  S->pop();
  if (r == z3::unsat) { CS->confirmed += todo.size(); return; }
  for (auto &q : todo) {
    Vals v; bool h = false;
    z3::check_result r1 = query({PCItem{0, q.first, q.second}}, &v, &h);
    if (r1 == z3::unsat) { CS->confirmed++; continue; }
    if (r1 == z3::unknown) { CS->unproved++; CS->proved--; continue; }
    viol_vals("check", "an assertion discharged by bounds reasoning fails", v);
  }
}
// each difference must be <= tol on every input of this path
static void check_polys(const std::vector<Poly> &diffs, double tol, const char *msg) {
  for (auto &d : diffs) {
    Poly e = padd(d, constant(Q(tol)), -1);
    if (e.t.empty()) { if (e.c <= 0) continue; viol("check", msg); path_exit(0); }
    bool flip; int t = canon(e, flip); int mask = flip ? NEG : POS;
    if (!(possible(t) & mask)) { if ((*PEND).insert({t, mask}).second && PEND->size() >= 200) flush_pending(); continue; }   // the solver confirms these together
    Vals v; bool h = false;
    if (haveModel && pok((*T)[t].p) && (sgn_(peval((*T)[t].p)) & mask)) { v = cur(); h = true; }
    else {
      z3::check_result r = query({PCItem{0, t, mask}}, &v, &h);
      if (r == z3::unsat) { restrict_(t, 7 & ~mask); continue; }
      if (r == z3::unknown) { CS->unproved++; return; }
    }
    // prefer an input with a larger margin: it survives rounding in the replay
    for (double mg : {100.0, 10.0, 1.0, 0.1, 0.01, 1e-3, 1e-4}) {
      if (mg <= tol) break;
      Poly g = padd(d, constant(Q(mg)), -1); bool f2; int t2 = canon(g, f2); Vals v2; bool h2 = false;
      if (!(boxmask((*T)[t2].p) & (f2 ? NEG : POS))) continue;
      if (query({PCItem{0, t2, f2 ? NEG : POS}}, &v2, &h2) == z3::sat) { v = v2; break; }
    }
    viol_vals("check", msg, v);
    path_exit(0);
  }
  CS->proved++;
}
void sym_check_le(double a, double b, double tol, const char *f, ...) {
  CS->asserts++;
  char m[400]; va_list ap; va_start(ap, f); vmsg(m, sizeof m, f, ap); va_end(ap);
  if (!sym(a) && !sym(b)) { if (a <= b + tol) { CS->proved++; return; } char q[500]; snprintf(q, sizeof q, "%s (%.9g > %.9g)", m, a, b); viol("check", q); path_exit(0); }
  if ((!sym(a) && !isfinite(a)) || (!sym(b) && !isfinite(b))) { if ((!sym(a) && a == -INFINITY) || (!sym(b) && b == INFINITY)) { CS->proved++; return; } viol("check", m); path_exit(0); }
  check_polys({pdiff(a, b)}, tol, m);
}
void sym_check_eq(double a, double b, double tol, const char *f, ...) {
  CS->asserts++;
  char m[400]; va_list ap; va_start(ap, f); vmsg(m, sizeof m, f, ap); va_end(ap);
  if (!sym(a) && !sym(b)) { if (a == b || fabs(a - b) <= tol) { CS->proved++; return; } char q[500]; snprintf(q, sizeof q, "%s (%.9g vs %.9g)", m, a, b); viol("check", q); path_exit(0); }
  if ((!sym(a) && !isfinite(a)) || (!sym(b) && !isfinite(b))) { viol("check", m); path_exit(0); }
  check_polys({pdiff(a, b), pdiff(b, a)}, tol, m);
}
double sym_max(double a, double b) { return sym_sel_lt(a, b, b, a); }
double sym_min(double a, double b) { return sym_sel_lt(a, b, a, b); }
double sym_sel_lt(double a, double b, double x, double y) {
  if (!sym(a) && !sym(b)) return a < b ? x : y;
  if (!sym(a) && isinf(a)) return a < 0 ? x : y;
  if (!sym(b) && isinf(b)) return b > 0 ? x : y;
  if (bits(x) == bits(y)) return x;
  Poly d = pdiff(a, b);
  if (d.t.empty()) return d.c < 0 ? x : y;
  Poly px = P(x), py = P(y);
  return mk(ite_poly(d, NEG, px, py));
}
void sym_cover(const char *w) {
  int n = CS->ncover.load();
  for (int i = 0; i < n && i < MAXCOVER; i++) if (!strcmp(CS->cover[i], w)) return;
  int z = 0; while (!CS->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); }
  n = CS->ncover.load();
  bool f = false; for (int i = 0; i < n; i++) if (!strcmp(CS->cover[i], w)) f = true;
  if (!f && n < MAXCOVER) { snprintf(CS->cover[n], 64, "%s", w); CS->ncover++; }
  CS->lock = 0;
}
void sym_end() { path_exit(0); }
void sym_on_exit(sym_exit_fn f) { onExit = f; }
std::string sym_text(double v) { if (sym(v)) return magic_text(v); char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
bool sym_is_symbolic(double v) { return sym(v); }
double sym_rand_range(double lo, double hi) { rlo = lo; rhi = hi; return 0; }
void sym_rand_script(const std::vector<double> &f, bool cycle) { *RSCRIPT = f; rpos = 0; rcycle = cycle && !f.empty(); }
std::vector<double> sym_rand_log() { return *RLOG; }
void sym_set_time(double s, double step) { vtime = s; vstep = step; }
bool sym_thorough() { return thorough; }
bool sym_replaying() { return false; }
const char *sym_repo() { return repoDir.c_str(); }
const char *sym_scratch() {
  if (scratchDir.empty()) { scratchDir = scratchBase + "/p" + std::to_string(getpid()); mkdir(scratchDir.c_str(), 0700); }
  return scratchDir.c_str();
}
void sym_merge(int depth) { ITE_MAX = depth; }
void sym_hash_exact(bool on) { hashExact = on; }
void sym_print_rounding(bool on) { printRounding = on; }
void sym_must_finish(double c) { hangLimit = c; arm_hang(); }
void sym_note(const char *f, ...) { if (!verbose) return; va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap); fputc('\n', stderr); }

static void run_case(int ci, double budget) {
  caseIdx = ci; CS = &SH->cs[ci];
  deadline = now() + budget; graceDeadline = deadline + 20;
  C = new z3::context();
  C->set("model", true);
  S = new z3::solver(*C, z3::solver::simple());
  { z3::params p(*C); p.set("rlimit", RLIMIT); S->set(p); }
  PC = new std::vector<PCItem>(); T = new std::vector<Term>(); V = new std::vector<int>(); MO = new std::vector<Mono>();
  THASH = new std::unordered_map<std::string, int>(); MHASH = new std::unordered_map<std::string, int>(); KM = new std::unordered_map<int, int>();
  PEND = new std::set<std::pair<int, int>>();
  ROWS = new std::vector<Row>(); VX = new std::vector<Vtx>(1); VPOS = new std::vector<int>(); EXTRAS = new std::vector<z3::expr>();
  RULES = new std::map<int, std::pair<std::vector<int>, int>>();
  MAGIC = new std::map<double, int>(); NAMES = new std::map<std::string, int>();
  RSCRIPT = new std::vector<double>(); RLOG = new std::vector<double>(); RTOK = new std::map<long, double>(); HASHED = new std::vector<double>();
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
  sa.sa_handler = NULL; sa.sa_sigaction = on_selfsig; sa.sa_flags |= SA_SIGINFO; sigaction(SIGINT, &sa, NULL); sigaction(SIGTERM, &sa, NULL);
  { struct sigaction sb; memset(&sb, 0, sizeof sb); sb.sa_handler = on_alarm; sb.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGALRM, &sb, NULL); }
  signal(SIGPROF, on_hang);
  set_alarm();
  try { cases()[ci]->fn(); }
  catch (z3::exception &e) { CS->unsupported++; if (!CS->firstUnsup[0]) snprintf(CS->firstUnsup, 200, "z3: %s", e.msg()); pathBad = true; path_exit(0); }
  path_exit(0);
}

static std::string js(const char *s) { std::string r = "\""; for (; *s; s++) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if (*s == '\n') r += "\\n"; else if ((unsigned char)*s < 32) r += ' '; else r += *s; } return r + "\""; }

int main(int argc, char **argv) {
  double budget = 60; int jobs = 8; std::string only; const char *outf = "result.json"; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--case") only = argv[++i];
    else if (a == "--out") outf = argv[++i];
    else if (a == "--scratch") scratchBase = argv[++i];
    else if (a == "--repo") repoDir = argv[++i];
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
    else if (a == "--ite") ITE_MAX = atoi(argv[++i]);
    else if (a == "--rlimit") RLIMIT = atoi(argv[++i]);
    else if (a == "--list") { for (auto c : cases()) printf("%s\n", c->name); return 0; }
  }
  SH = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof(Shared));
  rootPid = getpid();
  if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  int n = cases().size();
  SH->tokens = jobs;
  std::vector<double> wall(n, 0), start(n, 0);
  std::map<pid_t, int> run;
  int next = 0;
  while (next < n || !run.empty()) {
    if (next < n) {
      SymCase *c = cases()[next];
      if ((!only.empty() && only != c->name) || (c->thoroughOnly && !thorough && only.empty())) { SH->cs[next].stop = 2; next++; continue; }
      int t = SH->tokens.load();
      if (t > 0 && SH->tokens.compare_exchange_strong(t, t - 1)) {
        start[next] = now();
        pid_t p = fork();
        if (p == 0) { haveToken = true; run_case(next, budget); }
        run[p] = next; next++;
        continue;
      }
    }
    int st; pid_t p = waitpid(-1, &st, next < n ? WNOHANG : 0);
    if (p > 0 && run.count(p)) { int c = run[p]; SH->cs[c].wall_us = (long)((now() - start[c]) * 1e6); if (!WIFEXITED(st)) { SH->cs[c].truncated++; } run.erase(p); }
    else if (p == 0) usleep(3000);
  }
  FILE *o = fopen(outf, "w");
  fprintf(o, "{\"cases\":[");
  bool first = true;
  for (int i = 0; i < n; i++) {
    CaseStat &s = SH->cs[i];
    if (s.stop == 2) continue;
    fprintf(o, "%s\n{\"name\":%s,\"bounds\":%s,\"paths\":%ld,\"killed\":%ld,\"exits\":%ld,\"forks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"asserts\":%ld,\"proved\":%ld,\"unproved\":%ld,\"truncated\":%ld,\"div0\":%ld,\"unsupported\":%ld,\"unsupported_what\":%s,\"crashes\":%ld,\"query_s\":%.3f,\"wall_s\":%.3f,\"cover\":[",
            first ? "" : ",", js(cases()[i]->name).c_str(), js(cases()[i]->bounds).c_str(), s.paths.load(), s.killed.load(), s.exits.load(), s.forks.load(), s.queries.load(), s.sat.load(), s.unsat.load(), s.unknown.load(), s.asserts.load(), s.proved.load(), s.unproved.load(), s.truncated.load(), s.div0.load(), s.unsupported.load(), js(s.firstUnsup).c_str(), s.crashes.load(), s.query_us.load() * 1e-6, s.wall_us.load() * 1e-6);
    first = false;
    for (int k = 0; k < s.ncover; k++) fprintf(o, "%s%s", k ? "," : "", js(s.cover[k]).c_str());
    fprintf(o, "],\"violations\":[");
    for (int k = 0; k < s.nviol && k < MAXVIOL; k++) fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"model\":%s}", k ? "," : "", js(s.viol[k].kind).c_str(), js(s.viol[k].msg).c_str(), js(s.viol[k].model).c_str());
    fprintf(o, "],\"samples\":[");
    for (int k = 0; k < s.nsamp && k < MAXSAMP; k++) fprintf(o, "%s%s", k ? "," : "", js(s.samp[k].model).c_str());
    fprintf(o, "],\"hang\":[");
    for (int k = 0, m = 0; k < 2; k++) if (s.hangN[k].load() == 2) fprintf(o, "%s%s", m++ ? "," : "", js(s.hang[k].model).c_str());
    fprintf(o, "],\"steps\":%ld}", s.steps.load());
  }
  fprintf(o, "],\"fns\":[");
  first = true;
  for (int i = 0; i < MAXFN; i++) if (SH->fn[i]) { fprintf(o, "%s%d", first ? "" : ",", i); first = false; }
  fprintf(o, "]}\n");
  fclose(o);
  return 0;
}
