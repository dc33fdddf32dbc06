// Small MDP families, exact policy values and oracles for fully observable models.
#ifndef MDP_FAM_H_
#define MDP_FAM_H_
#include "pomdp_fam.h"
#include "HDP.h"
#include "LRTDP.h"
#include "FRTDP.h"
#include "HSVI.h"
#include "RTDP.h"

inline ZModel mdp_base(int S, int A, double g) { ZModel m(S, A, 1, g); m.mdp = true; m.start = 0; return m; }
// 0: no terminal states, everything reachable
inline ZModel mdp_loop(int s, double g = 0.5) {
  ZModel m = mdp_base(3, 2, g);
  m.T[0] = {{0.25, 0.75, 0}, {0, 0.5, 0.5}, {1, 0, 0}};
  m.T[1] = {{0, 0, 1}, {0.5, 0, 0.5}, {0, 0.75, 0.25}};
  m.R[0] = {zr(s & 1, 1, 0.5, "r00"), zr(s & 2, -2, 1, "r01"), 3};
  m.R[1] = {zr(s & 4, 2, 1.5, "r10"), zr(s & 8, 1, 1, "r11"), -1};
  return m;
}
// 1: costs until an absorbing goal; moves slip
inline ZModel mdp_goal(int s, double g = 0.75) {
  ZModel m = mdp_base(4, 2, g);
  m.T[0] = {{0.25, 0.75, 0, 0}, {0, 0.25, 0.75, 0}, {0, 0, 0.25, 0.75}, {0, 0, 0, 1}};
  m.T[1] = {{0, 0.5, 0.5, 0}, {0.5, 0, 0, 0.5}, {0.5, 0, 0, 0.5}, {0, 0, 0, 1}};
  m.R[0] = {zr(s & 1, -1, 0.5, "r00"), zr(s & 2, -1, 0.5, "r01"), zr(s & 4, -1, 0.5, "r02"), 0};
  m.R[1] = {zr(s & 8, -1.5, 1, "r10"), zr(s & 16, -2, 1, "r11"), -1, 0};
  return m;
}
// 2: two loops joined by a one-way step, one of them with a goal; three actions
inline ZModel mdp_scc(int s, double g = 0.5) {
  ZModel m = mdp_base(5, 3, g);
  m.T[0] = {{0, 1, 0, 0, 0}, {0.5, 0, 0.5, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0.5, 0, 0.5}, {0, 0, 0, 0, 1}};
  m.T[1] = {{0, 0, 1, 0, 0}, {1, 0, 0, 0, 0}, {0, 0, 0.5, 0.5, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 0, 1}};
  m.T[2] = {{0.5, 0.5, 0, 0, 0}, {0, 0.5, 0, 0.5, 0}, {0, 0, 0, 0, 1}, {0, 0, 0, 1, 0}, {0, 0, 0, 0, 1}};
  m.R[0] = {-1, zr(s & 1, 2, 1, "r01"), -1, zr(s & 2, 1, 2, "r03"), 0};
  m.R[1] = {zr(s & 4, -2, 1, "r10"), -1, -3, -1, 0};
  m.R[2] = {-1, 0.5, zr(s & 8, 4, 3, "r22"), -0.5, 0};
  return m;
}
// 3: episodic, every step moves forward (bounded trials), sure and risky branches
inline ZModel mdp_tree(int s, double g = 0.5) {
  ZModel m = mdp_base(5, 2, g);
  m.T[0] = {{0, 0.5, 0.5, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 0.25, 0.75}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 1}};
  m.T[1] = {{0, 0, 1, 0, 0}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 1}};
  m.R[0] = {zr(s & 1, -1, 2, "r00"), zr(s & 2, 2, 1, "r01"), -1, 5, 0};
  m.R[1] = {-0.5, zr(s & 4, 1, 1, "r11"), zr(s & 8, 1, 2, "r12"), zr(s & 16, 4, 3, "r13"), 0};
  return m;
}
inline ZModel zmfam(int k, int s) { switch (k) { case 0: return mdp_loop(s); case 1: return mdp_goal(s); case 2: return mdp_scc(s); default: return mdp_tree(s); } }
static const int NMFAM = 4;
// 5 states, the last one a goal; where some of the moves lead is arbitrary, so every small
// graph shape (self loops, nested loops, joined loops, dead branches) occurs
inline ZModel zshapes(int pick) {
  ZModel m = mdp_base(5, 2, 0.5);
  for (int s = 0; s < 4; s++) {
    int t = pick >> s & 1 ? sym_int(zfmt("to%d", s).c_str(), 0, 4) : s + 1;
    int u = pick >> (4 + s) & 1 ? sym_int(zfmt("alt%d", s).c_str(), 0, 4) : (s + 2) % 5;
    m.T[0][s][t] += 0.5; m.T[0][s][u] += 0.5;
    m.T[1][s][(s * 3 + 2) % 4] = 1;
    m.R[0][s] = -1 + 0.25 * s; m.R[1][s] = -2 + 0.75 * s;
  }
  for (int a = 0; a < 2; a++) m.T[a][4][4] = 1;
  m.R[0][1] = sym_double("r01", -3, 3);
  return m;
}

// ---- exact values: every stationary policy's value is linear in the rewards
struct PolVals { std::vector<vec> v; std::vector<std::vector<int>> pol; };   // v[p][s]
inline vec zpolval(const ZModel &m, const std::vector<int> &pi, int restart = -1) {
  (void)restart;
  int n = m.S;                       // solve (I - g P) X = I by Gauss-Jordan, then X R
  std::vector<vec> A(n, vec(2 * n, 0.0));
  for (int s = 0; s < n; s++) { bool t = zterm(m, s); for (int u = 0; u < n; u++) A[s][u] = (s == u ? 1.0 : 0.0) - (t ? 0 : m.gamma * m.T[pi[s]][s][u]); A[s][n + s] = 1; }
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c; r < n; r++) if (fabs(A[r][c]) > fabs(A[p][c])) p = r;
    if (fabs(A[p][c]) < 1e-12) return vec();
    std::swap(A[p], A[c]); double d = A[c][c]; for (auto &x : A[c]) x = x / d;
    for (int r = 0; r < n; r++) if (r != c && A[r][c] != 0) { double f = A[r][c]; for (int k = 0; k < 2 * n; k++) A[r][k] -= f * A[c][k]; }
  }
  vec v(n, 0.0);
  for (int s = 0; s < n; s++) for (int u = 0; u < n; u++) if (A[s][n + u] != 0) v[s] += A[s][n + u] * m.R[pi[u]][u];
  return v;
}
inline PolVals zpolicies(const ZModel &m) {
  PolVals r; std::vector<int> pi(m.S, 0);
  while (1) {
    vec v = zpolval(m, pi); if (!v.empty()) { r.v.push_back(v); r.pol.push_back(pi); }
    int k = 0; for (; k < m.S; k++) { if (zterm(m, k)) continue; if (++pi[k] < m.A) break; pi[k] = 0; }
    if (k == m.S) break;
  }
  return r;
}
// distinct values at a state (policies differing only elsewhere repeat)
inline std::vector<double> zopt_at(const ZModel &m, const PolVals &p, int s) {
  (void)m; std::vector<double> r;
  for (auto &v : p.v) { bool have = false; for (double x : r) if (!sym_is_symbolic(x) && !sym_is_symbolic(v[s]) && x == v[s]) have = true; if (!have) r.push_back(v[s]); }
  return r;
}
// the optimal value function, by policy iteration (forks on which policy is optimal, so it is linear on each path)
inline vec zvstar(const ZModel &m, std::vector<int> *policy = NULL) {
  std::vector<int> pi(m.S, 0); vec v;
  while (1) {
    v = zpolval(m, pi); bool better = false;
    for (int s = 0; s < m.S; s++) if (!zterm(m, s)) for (int a = 0; a < m.A; a++) if (a != pi[s]) {
      double q = m.R[a][s]; for (int t = 0; t < m.S; t++) if (m.T[a][s][t] != 0) q += m.gamma * m.T[a][s][t] * v[t];
      if (q > v[s] + 1e-9) { pi[s] = a; better = true; break; }
    }
    if (!better) break;
  }
  if (policy) *policy = pi;
  return v;
}
inline int zsid(const state_vector &s) { return (int)s(0); }
inline state_vector zst(int i) { state_vector s; s.resize(1); s.push_back(0, i); return s; }
// one-step lookahead with the model's own numbers over arbitrary state values
inline double zq(const ZModel &m, int s, int a, const vec &v) { double q = 0; for (int t = 0; t < m.S; t++) if (m.T[a][s][t] != 0) q += m.T[a][s][t] * v[t]; return m.R[a][s] + m.gamma * q; }
inline void zexpand_all(ZSolver *z) {
  for (bool again = true; again;) { again = false; for (MDPNode *n : znodes(z->bp()->getRootNode())) if (n->isFringe() && !n->isTerminal) { z->bp()->expand(*n); again = true; } }
}
#endif
