// Small POMDP families with symbolic rewards, node drivers and oracles.
#ifndef POMDP_FAM_H_
#define POMDP_FAM_H_
#include "zh.h"

// mode: which rewards are symbolic. kept sign-definite so that sparse storage does not fork
inline double zr(int symb, double mid, double w, const char *n) { return symb ? sym_double(n, mid - w, mid + w) : mid; }
// s: bit set of the rewards that are symbolic

// 0: tiger-like, every action reward symbolic
inline ZModel fam_tiger(int s, double g = 0.5) {
  return ztiger(g, zr(s & 1, -1, 0.5, "listen"), zr(s & 2, 10, 5, "good"), zr(s & 4, -20, 15, "bad"));
}
// 1: three states, absorbing zero-reward goal; noisy sensor; move may fail
inline ZModel fam_goal(int s, double g = 0.5) {
  ZModel m(3, 2, 2, g);
  // action 0: move (0->1 w.p. .75, 1->2 w.p. .5), action 1: sense/commit
  m.T[0] = {{0.25, 0.75, 0}, {0, 0.5, 0.5}, {0, 0, 1}};
  m.T[1] = {{1, 0, 0}, {0, 0, 1}, {0, 0, 1}};
  m.Z[0] = {{0.5, 0.5}, {0.5, 0.5}, {0, 1}};
  m.Z[1] = {{0.875, 0.125}, {0.25, 0.75}, {0, 1}};
  m.R[0] = {zr(s & 1, -1, 0.5, "r00"), zr(s & 2, 2, 1, "r01"), 0};
  m.R[1] = {zr(s & 4, -4, 2, "r10"), zr(s & 8, 6, 4, "r11"), 0};
  m.b0 = {0.75, 0.25, 0};
  return m;
}
// 2: sparse beliefs: start at a corner, support grows and shrinks; an observation identifies state 3
inline ZModel fam_sparse(int s, double g = 0.5) {
  ZModel m(4, 2, 2, g);
  m.T[0] = {{0, 0.5, 0.5, 0}, {0, 0.5, 0, 0.5}, {0, 0, 1, 0}, {1, 0, 0, 0}};
  m.T[1] = {{0.5, 0, 0, 0.5}, {1, 0, 0, 0}, {0, 0.25, 0, 0.75}, {0, 0, 0, 1}};
  for (int a = 0; a < 2; a++) m.Z[a] = {{1, 0}, {0.75, 0.25}, {0.25, 0.75}, {0, 1}};
  m.R[0] = {zr(s & 1, 1, 0.5, "r00"), zr(s & 2, -2, 1, "r01"), zr(s & 4, 3, 1, "r02"), -1};
  m.R[1] = {-1, zr(s & 8, 4, 2, "r11"), 1, zr(s & 16, -1.5, 1, "r13")};
  m.b0 = {1, 0, 0, 0};
  return m;
}
// 3: all rewards negative (costs), three observations of which one never occurs after action 1
inline ZModel fam_costs(int s, double g = 0.5) {
  ZModel m(2, 2, 3, g);
  m.T[0] = {{0.75, 0.25}, {0.25, 0.75}};
  m.T[1] = {{0.5, 0.5}, {1, 0}};
  m.Z[0] = {{0.5, 0.25, 0.25}, {0.125, 0.125, 0.75}};
  m.Z[1] = {{0.5, 0.5, 0}, {0.25, 0.75, 0}};
  m.R[0] = {zr(s & 1, -2, 1, "r00"), zr(s & 2, -1, 0.5, "r01")};
  m.R[1] = {zr(s & 4, -0.75, 0.5, "r10"), zr(s & 8, -3, 2, "r11")};
  m.b0 = {0.25, 0.75};
  return m;
}
inline ZModel zfam(int k, int s, double g = 0.5) { switch (k) { case 0: return fam_tiger(s, g); case 1: return fam_goal(s, g); case 2: return fam_sparse(s, g); default: return fam_costs(s, g); } }
static const int NFAM = 4;

// exact (to 1e-9) values of the blind policies
inline std::vector<vec> zblind(const ZModel &m) {
  std::vector<vec> out;
  for (int a = 0; a < m.A; a++) {
    vec v = m.R[a], x = m.R[a]; double g = 1;
    for (int k = 1; k < 400 && g > 1e-11; k++) {
      vec y(m.S, 0.0); for (int s = 0; s < m.S; s++) for (int t = 0; t < m.S; t++) if (m.T[a][s][t] != 0) y[s] += m.T[a][s][t] * x[t];
      x = y; g *= m.gamma;
      for (int s = 0; s < m.S; s++) v[s] += g * x[s];
    }
    out.push_back(v);
  }
  return out;
}
inline bool zterm(const ZModel &m, int s) { for (int a = 0; a < m.A; a++) { if (m.T[a][s][s] != 1) return false; if (sym_is_symbolic(m.R[a][s]) || m.R[a][s] != 0) return false; } return true; }
// crude but certain upper value function: discounted best reward, zero at absorbing zero-reward states
inline std::vector<vec> zcrude_ub(const ZModel &m) {
  double r = sym_max(m.rmax(), 0), rr = m.rmax() * (1 / (1 - m.gamma)); (void)r;
  bool anyTerm = false; for (int s = 0; s < m.S; s++) anyTerm |= zterm(m, s);
  if (anyTerm) rr = sym_max(rr, 0);
  vec v(m.S); for (int s = 0; s < m.S; s++) v[s] = zterm(m, s) ? 0 : rr;
  return {v};
}
// MDP (full observability) value iteration from above, n steps: an upper value function over states
inline vec zmdp_ub(const ZModel &m, int n) {
  vec v = zcrude_ub(m)[0];
  for (int k = 0; k < n; k++) { vec w(m.S); for (int s = 0; s < m.S; s++) { double best = 0; for (int a = 0; a < m.A; a++) { double q = 0; for (int t = 0; t < m.S; t++) if (m.T[a][s][t] != 0) q += m.T[a][s][t] * v[t]; q = m.R[a][s] + m.gamma * q; best = a ? sym_max(best, q) : q; } w[s] = best; } v = w; }
  return v;
}

// nodes reachable through expanded nodes, in discovery order
inline std::vector<MDPNode *> znodes(MDPNode *root, size_t limit = 10000) {
  std::vector<MDPNode *> out{root};
  for (size_t i = 0; i < out.size(); i++) for (size_t a = 0; a < out[i]->Q.size(); a++) for (size_t o = 0; o < out[i]->Q[a].outcomes.size(); o++) {
    MDPEdge *e = out[i]->Q[a].outcomes[o]; if (!e) continue;
    bool have = false; for (auto *n : out) have |= n == e->nextState;
    if (!have && out.size() < limit) out.push_back(e->nextState);
  }
  return out;
}
// performs one update at a symbolically chosen known node
inline MDPNode *zstep(ZSolver *z, int maxNodes, const char *nm) {
  std::vector<MDPNode *> n = znodes(z->bp()->getRootNode());
  int k = n.size() < (size_t)maxNodes ? n.size() : maxNodes;
  int i = k > 1 ? sym_int(nm, 0, k - 1) : 0;
  if (n[i]->isTerminal) { sym_assume(false); }
  int a; z->bp()->update(*n[i], &a);
  return n[i];
}
#endif
