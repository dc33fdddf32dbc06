// Model files written statement by statement, with an independent reading of
// what each statement means; and the loaded model compared with it.
#ifndef PARSE_H_
#define PARSE_H_
#include "zh.h"
#include "GenericDiscreteMDP.h"
#include "Pomdp.h"
struct N { double m; bool neg; N(double v = 0) : m(v), neg(false) { if (!sym_is_symbolic(v) && v < 0) { m = -v; neg = true; } } N(double v, bool n) : m(v), neg(n) {} double v() const { return neg ? -m : m; } std::string t() const { return (neg ? "-" : "") + sym_text(m); } };
typedef std::vector<N> nvec;
static const int W = -1;   // wildcard
struct Spec {
  int S, A, O; bool mdp; double gamma = 0.5; bool cost = false, names = false;
  std::vector<std::vector<vec>> T, Z; std::vector<std::vector<std::vector<vec>>> R; vec b0; int start = 0; bool haveStart = false;
  std::string startText, body, preText;
  Spec(int S_, int A_, int O_, bool mdp_ = false) : S(S_), A(A_), O(mdp_ ? 1 : O_), mdp(mdp_) {
    T.assign(A, std::vector<vec>(S, vec(S, 0.0))); Z.assign(A, std::vector<vec>(S, vec(O, 0.0))); R.assign(A, std::vector<std::vector<vec>>(S, std::vector<vec>(S, vec(O, 0.0)))); b0.assign(S, 1.0 / S);
  }
  std::string n(int k, char c) const { return k == W ? "*" : names ? zfmt("%c%s%d", c, c == 'a' ? "ct" : c == 's' ? "t" : "bs", k) : zfmt("%d", k); }
  static bool m(int spec, int k) { return spec == W || spec == k; }
  std::string count(int k, char c) const { if (!names) return zfmt("%d", k); std::string r; for (int i = 0; i < k; i++) r += (i ? " " : "") + n(i, c); return r; }
  std::string preamble() const { return !preText.empty() ? preText : "discount: " + sym_text(gamma) + "\nvalues: " + (cost ? "cost" : "reward") + "\nstates: " + count(S, 's') + "\nactions: " + count(A, 'a') + "\n" + (mdp ? "" : "observations: " + count(O, 'o') + "\n"); }
  std::string text() const { return preamble() + startText + body; }
  std::string write(const char *name) const { std::string p = zpath(name); zwrite(p, text()); return p; }
  // ---- start
  void startVec(const vec &b) { b0 = b; startText = "start:"; for (double x : b) startText += " " + sym_text(x); startText += "\n"; }
  void startState(int s) { start = s; haveStart = true; startText = "start: " + n(s, 's') + "\n"; b0.assign(S, 0.0); b0[s] = 1; }
  void startSet(unsigned set, bool exclude) { startText = exclude ? "start exclude:" : "start include:"; int k = 0; for (int s = 0; s < S; s++) if (set >> s & 1) startText += " " + n(s, 's'); startText += "\n"; for (int s = 0; s < S; s++) k += (set >> s & 1) != exclude; for (int s = 0; s < S; s++) b0[s] = (set >> s & 1) != exclude ? 1.0 / k : 0; }
  // ---- transitions and observations
  void t1(int a, int s, int t, double p) { for (int x = 0; x < A; x++) for (int y = 0; y < S; y++) for (int z = 0; z < S; z++) if (m(a, x) && m(s, y) && m(t, z)) T[x][y][z] = p; body += "T: " + n(a, 'a') + " : " + n(s, 's') + " : " + n(t, 's') + " " + sym_text(p) + "\n"; }
  void trow(int a, int s, const vec &r, const char *word = NULL) { for (int x = 0; x < A; x++) for (int y = 0; y < S; y++) if (m(a, x) && m(s, y)) T[x][y] = r; body += "T: " + n(a, 'a') + " : " + n(s, 's') + (word ? std::string(" ") + word : nums(r)) + "\n"; }
  void tall(int a, const std::vector<vec> &r, const char *word = NULL) { for (int x = 0; x < A; x++) if (m(a, x)) T[x] = r; body += "T: " + n(a, 'a') + (word ? std::string(" ") + word : mat(r)) + "\n"; }
  void o1(int a, int t, int o, double p) { for (int x = 0; x < A; x++) for (int y = 0; y < S; y++) for (int z = 0; z < O; z++) if (m(a, x) && m(t, y) && m(o, z)) Z[x][y][z] = p; body += "O: " + n(a, 'a') + " : " + n(t, 's') + " : " + n(o, 'o') + " " + sym_text(p) + "\n"; }
  void orow(int a, int t, const vec &r, const char *word = NULL) { for (int x = 0; x < A; x++) for (int y = 0; y < S; y++) if (m(a, x) && m(t, y)) Z[x][y] = r; body += "O: " + n(a, 'a') + " : " + n(t, 's') + (word ? std::string(" ") + word : nums(r)) + "\n"; }
  void oall(int a, const std::vector<vec> &r, const char *word = NULL) { for (int x = 0; x < A; x++) if (m(a, x)) Z[x] = r; body += "O: " + n(a, 'a') + (word ? std::string(" ") + word : mat(r)) + "\n"; }
  // ---- rewards
  void set(int a, int s, int t, int o, double v) { for (int x = 0; x < A; x++) for (int y = 0; y < S; y++) for (int z = 0; z < S; z++) for (int w = 0; w < O; w++) if (m(a, x) && m(s, y) && m(t, z) && m(o, w)) R[x][y][z][w] = v; }
  void r1(int a, int s, int t, int o, const N &v) { set(a, s, t, o, v.v()); body += "R: " + n(a, 'a') + " : " + n(s, 's') + " : " + n(t, 's') + (mdp ? "" : " : " + n(o, 'o')) + " " + v.t() + "\n"; }
  void rrow(int a, int s, int t, const nvec &v) { for (size_t o = 0; o < v.size(); o++) if (mdp) set(a, s, o, W, v[o].v()); else set(a, s, t, o, v[o].v()); body += "R: " + n(a, 'a') + " : " + n(s, 's') + (mdp ? "" : " : " + n(t, 's')); for (auto &x : v) body += " " + x.t(); body += "\n"; }
  void rall(int a, int s, const std::vector<nvec> &v) { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) if (mdp) set(a, i, j, W, v[i][j].v()); else set(a, s, i, j, v[i][j].v()); body += "R: " + n(a, 'a') + (mdp ? "" : " : " + n(s, 's')) + "\n"; for (auto &r : v) { for (auto &x : r) body += x.t() + " "; body += "\n"; } }
  static std::string nums(const vec &r) { std::string o; for (double x : r) o += " " + sym_text(x); return o; }
  static std::string mat(const std::vector<vec> &r) { std::string o = "\n"; for (auto &x : r) o += nums(x) + "\n"; return o; }
  double er(int a, int s) const { double v = 0; for (int t = 0; t < S; t++) { double w = 0; for (int o = 0; o < O; o++) { double z = mdp ? 1 : Z[a][t][o]; if (sym_is_symbolic(z) || z != 0) w += z * R[a][s][t][o]; } double p = T[a][s][t]; if (sym_is_symbolic(p) || p != 0) v += p * w; } return cost ? -v : v; }
};
inline CassandraModel *pload(const std::string &f, bool mdp, bool fast) {
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); c->setBool("useFastModelParser", fast);
  return mdp ? (CassandraModel *)new GenericDiscreteMDP(f, c) : (CassandraModel *)new Pomdp(f, c);
}
inline void psame(const Spec &e, CassandraModel *p, const char *w, double tol = 1e-9) {
  sym_check(p->numStates == e.S && p->numActions == e.A && (e.mdp || p->numObservations == e.O), "%s: sizes %d %d %d", w, p->numStates, p->numActions, p->numObservations);
  sym_check_eq(p->discount, e.gamma, tol, "%s: discount", w);
  sym_check((int)p->T.size() == e.A && (int)p->Ttr.size() == e.A && (e.mdp || (int)p->O.size() == e.A), "%s: number of matrices", w);
  for (int a = 0; a < e.A; a++) {
    sym_check((int)p->T[a].size1() == e.S && (int)p->T[a].size2() == e.S && (int)p->Ttr[a].size1() == e.S && (int)p->Ttr[a].size2() == e.S, "%s: shape of T[%d]", w, a);
    for (int s = 0; s < e.S; s++) for (int t = 0; t < e.S; t++) { sym_check_eq(p->T[a](s, t), e.T[a][s][t], tol, "%s: T[%d](%d,%d)", w, a, s, t); sym_check_eq(p->Ttr[a](t, s), e.T[a][s][t], tol, "%s: Ttr[%d](%d,%d)", w, a, t, s); }
    if (!e.mdp) { sym_check((int)p->O[a].size1() == e.S && (int)p->O[a].size2() == e.O, "%s: shape of O[%d]", w, a); for (int t = 0; t < e.S; t++) for (int o = 0; o < e.O; o++) sym_check_eq(p->O[a](t, o), e.Z[a][t][o], tol, "%s: O[%d](%d,%d)", w, a, t, o); }
  }
  sym_check((int)p->R.size1() == e.S && (int)p->R.size2() == e.A, "%s: shape of R", w);
  for (int a = 0; a < e.A; a++) for (int s = 0; s < e.S; s++) sym_check_eq(p->R(s, a), e.er(a, s), tol, "%s: R(%d,%d)", w, s, a);
  if (e.mdp) { sym_check((int)p->initialState.size() == 1 && p->initialState(0) == e.start, "%s: initial state %g, not %d", w, p->initialState(0), e.start); }
  else { sym_check((int)p->initialBelief.size() == e.S, "%s: size of the initial belief", w); for (int s = 0; s < e.S; s++) sym_check_eq(p->initialBelief(s), e.b0[s], tol, "%s: initial belief, state %d", w, s); }
  sym_cover("compared");
}
// probabilities that are clearly positive (or absent)
inline vec psimplex(int n, const char *nm, unsigned supp) { vec b = zsimplex(n, nm, supp); for (int i = 0; i < n; i++) if (supp >> i & 1) if (sym_is_symbolic(b[i])) sym_assume_le(1e-3, b[i]); return b; }
#endif
