// Helpers shared by the harnesses: model descriptions, model files, solver
// construction through the project's own code, and independent oracles.
#ifndef ZH_H_
#define ZH_H_
#include <stdarg.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "sym.h"
#include "MatrixUtils.h"
#include "slaMatrixUtils.h"
#include "solverUtils.h"
#include "zmdpCommonTime.h"
#include "embedFiles.h"
#ifndef ZH_NO_EMBED
#include "zmdpMainConfig.cc"
#else
extern embed_buffer_t defaultConfig;
#endif
using namespace zmdp;
using namespace sla;
using namespace MatrixUtils;
typedef std::vector<double> vec;

inline std::string zfmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline std::string zpath(const char *name) { return std::string(sym_scratch()) + "/" + name; }
inline void zwrite(const std::string &path, const std::string &txt) { FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); abort(); } fwrite(txt.data(), 1, txt.size(), f); fclose(f); }

// ---- explicit finite (PO)MDP
struct ZModel {
  int S, A, O;
  double gamma;
  std::vector<std::vector<vec>> T;  // T[a][s][t]
  std::vector<std::vector<vec>> Z;  // Z[a][t][o]
  std::vector<vec> R;               // R[a][s]
  vec b0;
  bool mdp = false;
  int start = -1;                   // MDP start state
  ZModel(int S_, int A_, int O_, double g) : S(S_), A(A_), O(O_), gamma(g) {
    T.assign(A, std::vector<vec>(S, vec(S, 0.0)));
    Z.assign(A, std::vector<vec>(S, vec(O, 0.0)));
    R.assign(A, vec(S, 0.0));
    b0.assign(S, 0.0);
  }
  std::string text() const {
    std::string r = "discount: " + sym_text(gamma) + "\nvalues: reward\n" + zfmt("states: %d\nactions: %d\n", S, A);
    if (!mdp) r += zfmt("observations: %d\n", O);
    if (mdp) { if (start >= 0) r += zfmt("start: %d\n", start); }
    else { r += "start:"; for (int s = 0; s < S; s++) r += " " + sym_text(b0[s]); r += "\n"; }
    for (int a = 0; a < A; a++) for (int s = 0; s < S; s++) for (int t = 0; t < S; t++) if (sym_is_symbolic(T[a][s][t]) || T[a][s][t] != 0) r += zfmt("T: %d : %d : %d ", a, s, t) + sym_text(T[a][s][t]) + "\n";
    if (!mdp) for (int a = 0; a < A; a++) for (int t = 0; t < S; t++) for (int o = 0; o < O; o++) if (sym_is_symbolic(Z[a][t][o]) || Z[a][t][o] != 0) r += zfmt("O: %d : %d : %d ", a, t, o) + sym_text(Z[a][t][o]) + "\n";
    for (int a = 0; a < A; a++) for (int s = 0; s < S; s++) if (sym_is_symbolic(R[a][s]) || R[a][s] != 0) r += zfmt(mdp ? "R: %d : %d : * " : "R: %d : %d : * : * ", a, s) + sym_text(R[a][s]) + "\n";
    return r;
  }
  std::string write(const char *name) const { std::string p = zpath(name); zwrite(p, text()); return p; }
  double rmax() const { double m = R[0][0]; for (auto &x : R) for (double v : x) m = sym_max(m, v); return m; }
  double rmin() const { double m = R[0][0]; for (auto &x : R) for (double v : x) m = sym_min(m, v); return m; }
};

// ---- independent oracle: dense belief arithmetic
inline double zdot(const vec &a, const vec &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline vec zpred(const ZModel &m, const vec &b, int a) { vec r(m.S, 0.0); for (int s = 0; s < m.S; s++) for (int t = 0; t < m.S; t++) if (m.T[a][s][t] != 0) r[t] += b[s] * m.T[a][s][t]; return r; }
inline double zobs(const ZModel &m, const vec &b, int a, int o, vec &unnorm) {
  vec p = zpred(m, b, a); unnorm.assign(m.S, 0.0); double s = 0;
  for (int t = 0; t < m.S; t++) { unnorm[t] = p[t] * m.Z[a][t][o]; s += unnorm[t]; }
  return s;
}
inline double zrew(const ZModel &m, const vec &b, int a) { return zdot(m.R[a], b); }
// values of all policy trees of depth d as vectors over states, leaves given by `leaf`
inline std::vector<vec> zbackup_all(const ZModel &m, const std::vector<vec> &leaf, int onlyAction = -1) {
  std::vector<vec> out;
  for (int a = 0; a < m.A; a++) {
    if (onlyAction >= 0 && a != onlyAction) continue;
    size_t n = 1; for (int o = 0; o < m.O; o++) n *= leaf.size();
    for (size_t k = 0; k < n; k++) {
      size_t q = k; vec v(m.S, 0.0);
      for (int s = 0; s < m.S; s++) v[s] = m.R[a][s];
      for (int o = 0; o < m.O; o++) { const vec &l = leaf[q % leaf.size()]; q /= leaf.size(); for (int s = 0; s < m.S; s++) { double e = 0; for (int t = 0; t < m.S; t++) { double w = m.T[a][s][t] * m.Z[a][t][o]; if (w != 0) e += w * l[t]; } v[s] += m.gamma * e; } }
      out.push_back(v);
    }
  }
  return out;
}
// exact n-step optimal value at belief b with leaf value functions: max over `leaf` vectors (no forking)
inline double zlook(const ZModel &m, const vec &b, int depth, const std::vector<vec> &leaf);
inline double zlookQ(const ZModel &m, const vec &b, int a, int depth, const std::vector<vec> &leaf) {
  double q = zrew(m, b, a);
  for (int o = 0; o < m.O; o++) {
    vec u; double p = zobs(m, b, a, o, u);
    if (!sym_is_symbolic(p) && p == 0) continue;
    q += m.gamma * zlook(m, u, depth, leaf);   // value functions are positively homogeneous
  }
  return q;
}
inline double zlook(const ZModel &m, const vec &b, int depth, const std::vector<vec> &leaf) {
  if (depth == 0) { double v = zdot(leaf[0], b); for (size_t i = 1; i < leaf.size(); i++) v = sym_max(v, zdot(leaf[i], b)); return v; }
  double best = zlookQ(m, b, 0, depth - 1, leaf);
  for (int a = 1; a < m.A; a++) best = sym_max(best, zlookQ(m, b, a, depth - 1, leaf));
  return best;
}
inline std::vector<vec> zconst(const ZModel &m, double v) { return {vec(m.S, v)}; }

// ---- real objects
inline belief_vector zbelief(const vec &b) { belief_vector r; r.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (sym_is_symbolic(b[i]) || b[i] != 0) r.push_back(i, b[i]); return r; }
inline vec zdense(const state_vector &s) { vec r(s.size(), 0.0); FOR_CV(s) r[CV_INDEX(s)] = CV_VAL(s); return r; }

struct ZSolver {
  ZMDPConfig config; SolverParams p; SolverObjects so;
  RTDPCore *core() { return reinterpret_cast<RTDPCore *>(so.solver); }
  BoundPair *bp() { return so.bounds; }
  MDP *mdp() { return so.problem; }
};
inline void zconfig(ZMDPConfig &c) {
  c.setString("binaryName", "zmdp");
  c.readFromString("<defaultConfig>", defaultConfig.data);
  c.setNoNewFieldsAllowed(true);
}
// opts: "field value field value ..."
inline ZSolver *zmake(const std::string &model, const std::string &opts) {
  ZSolver *z = new ZSolver();
  zconfig(z->config);
  std::istringstream in(opts); std::string k, v;
  while (in >> k >> v) z->config.setString(k, v);
  z->config.setString("command", "solve");
  z->config.setString("simulatorModel", model);
  z->p.setValues(z->config);
  constructSolverObjects(z->so, z->p, z->config);
  return z;
}
inline ZSolver *zinit(const std::string &model, const std::string &opts) {
  ZSolver *z = zmake(model, opts);
  z->so.solver->planInit(z->so.sim->getModel(), &z->config);
  return z;
}
inline bool ztrial(ZSolver *z) { return z->so.solver->planFixedTime(z->so.problem->getInitialState(), -1, z->p.terminateRegretBound); }

// a symbolic point of the probability simplex; supp: bit set of the states that may be non-zero
inline vec zsimplex(int n, const char *nm, unsigned supp = ~0u) {
  vec b(n, 0.0); double rest = 1; int last = -1;
  for (int i = 0; i < n; i++) if (supp >> i & 1) last = i;
  for (int i = 0; i < last; i++) if (supp >> i & 1) { b[i] = sym_doublef(0, 1, "%s%d", nm, i); rest = rest - b[i]; }
  b[last] = rest;
  sym_assume_le(0, rest);
  return b;
}

// ---- standard small models (dyadic parameters keep the arithmetic exact)
inline ZModel ztiger(double gamma, double listen, double good, double bad, double acc = 0.875) {
  ZModel m(2, 3, 2, gamma);
  for (int s = 0; s < 2; s++) { m.T[0][s][s] = 1; for (int o = 0; o < 2; o++) m.Z[0][s][o] = o == s ? acc : 1 - acc; m.R[0][s] = listen; }
  for (int a = 1; a < 3; a++) for (int s = 0; s < 2; s++) { for (int t = 0; t < 2; t++) m.T[a][s][t] = 0.5; for (int o = 0; o < 2; o++) m.Z[a][s][o] = 0.5; m.R[a][s] = (s == a - 1) ? bad : good; }
  m.b0 = {0.5, 0.5};
  return m;
}
#endif
