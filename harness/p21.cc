#include "mdp_fam.h"
#include "GenericDiscreteMDP.h"
#include "CacheMDP.h"
#include "CustomMDP.h"
// property P21: MDP adapters present exactly the underlying model
static const double TOL = 1e-9;
// symbolic transition rows and rewards of one state
static ZModel model(int k, int s, int a, bool rew) {
  ZModel m = zmfam(k, 0); s %= m.S; a %= m.A;
  if (rew) { for (int b = 0; b < m.A; b++) { double r = sym_doublef(-5, 5, "reward%d", b); bool zero = r == 0; if (!zero) sym_assume_ge_gap(r, 0, 1e-6); m.R[b][s] = r; } }
  else { vec p = zsimplex(m.S, "p", s == m.S - 1 ? 7 : 11 << (s % 2)); for (double x : p) if (sym_is_symbolic(x)) sym_assume_ge_gap(x, 0, 1e-6); m.T[a][s] = p; }
  return m;
}
// the model a state-indexed MDP presents against the file; id: model state of the presented state
static void same(const ZModel &m, MDP *p, const state_vector &sv, int s, std::vector<std::pair<state_vector, int>> *succ) {
  bool term = true;
  for (int a = 0; a < m.A; a++) {
    sym_check_eq(p->getReward(sv, a), m.R[a][s], TOL, "reward, state %d action %d", s, a);
    outcome_prob_vector opv; p->getOutcomeProbVector(opv, sv, a); vec got(m.S, 0.0); double sum = 0;
    for (size_t o = 0; o < opv.size(); o++) {
      if (!sym_is_symbolic(opv(o)) && opv(o) == 0) continue;
      state_vector sp; p->getNextState(sp, sv, a, o);
      sym_check(sp.size() == 1, "successor is not a one-entry state");
      int t = -1; if (succ) { CacheMDP *c = (CacheMDP *)p; state_vector u; c->translateState(u, sp); t = (int)u(0); bool have = false; for (auto &x : *succ) { if (x.second == t) { have = true; sym_check(x.first(0) == sp(0), "two cache states for model state %d", t); } else sym_check(x.first(0) != sp(0), "one cache state for model states %d and %d", t, x.second); } if (!have) succ->push_back({sp, t}); }
      else t = (int)sp(0);
      if (t < 0 || t >= m.S) { sym_fail("successor %d of state %d is not a state", t, s); return; }
      got[t] += opv(o); sum += opv(o);
    }
    for (int t = 0; t < m.S; t++) sym_check_eq(got[t], m.T[a][s][t], TOL, "probability %d -%d-> %d", s, a, t);
    sym_check_eq(sum, 1, TOL, "outcome probabilities");
    term &= m.R[a][s] == 0 && m.T[a][s][s] == 1;
  }
  sym_check(p->getIsTerminalState(sv) == term, "state %d terminal", s);
}
static void generic(int k, bool rew, bool fast) {
  ZModel z0 = zmfam(k, 0); int s = sym_int("state", 0, z0.S - 1), a = rew ? 0 : sym_int("action", 0, z0.A - 1);
  ZModel m = model(k, s, a, rew); m.start = sym_int("start", 0, m.S - 1);
  ZSolver *z = zmake(m.write("m.mdp"), zfmt("searchStrategy frtdp useFastModelParser %d", fast));
  MDP *p = z->mdp();
  sym_check((int)p->getInitialState()(0) == m.start, "initial state"); sym_check(p->getNumActions() == m.A, "number of actions"); sym_check_eq(p->getDiscount(), m.gamma, 1e-12, "discount");
  for (int t = 0; t < m.S; t++) same(m, p, zst(t), t, NULL);
  // the caching wrapper, every state visited in a symbolic order of actions
  CacheMDP *c = new CacheMDP(p);
  sym_check(c->getNumActions() == m.A, "cache: number of actions"); sym_check_eq(c->getDiscount(), m.gamma, 1e-12, "cache: discount");
  std::vector<std::pair<state_vector, int>> q{{c->getInitialState(), m.start}};
  { state_vector u; c->translateState(u, c->getInitialState()); sym_check((int)u(0) == m.start, "cache: initial state"); }
  for (int rep = 0; rep < 2; rep++) for (size_t i = 0; i < q.size(); i++) { auto x = q[i]; same(m, c, x.first, x.second, &q); }
  sym_cover("model");
}
#define B "MDPs of 3-5 states, any start; "
SYM_CASE(loop_rew, B "any rewards of one state") { generic(0, true, false); }
SYM_CASE(loop_prob, B "any probabilities of one state and action over 3-4 successors") { generic(0, false, false); }
SYM_CASE(goal_prob, B "any probabilities of one state and action over 3-4 successors") { generic(1, false, false); }
SYM_CASE(scc_prob, B "any probabilities of one state and action over 3-4 successors, fast parser") { generic(2, false, true); }
SYM_CASE(tree_rew, B "any rewards of one state, fast parser") { generic(3, true, true); }
SYM_CASE(tree_prob, B "any probabilities of one state and action over 3-4 successors") { generic(3, false, false); }
// rows with many successors, and with unlikely ones
static void wide(int skip, bool rare) {
  ZModel m = mdp_base(6, 2, 0.5); m.start = sym_int("start", 0, 5); int s = sym_int("state", 0, 5), a = sym_int("action", 0, 1);
  for (int b = 0; b < 2; b++) for (int t = 0; t < 6; t++) { m.T[b][t][(t + b + 1) % 6] = 0.5; m.T[b][t][(2 * t + 3 * b) % 6] += 0.5; m.R[b][t] = t - 2.5 + b; }
  vec p = zsimplex(6, "p", 63 & ~(1 << skip)); for (double x : p) if (sym_is_symbolic(x)) sym_assume_le(rare ? 1e-4 : 0.02, x); if (rare) for (int t = 0; t < 3; t++) if (sym_is_symbolic(p[t])) sym_assume_le(p[t], 1e-3); m.T[a][s] = p;
  ZSolver *z = zmake(m.write("m.mdp"), "searchStrategy frtdp"); MDP *q = z->mdp(); CacheMDP *c = new CacheMDP(q);
  same(m, q, zst(s), s, NULL); sym_assume(s == m.start); std::vector<std::pair<state_vector, int>> l{{c->getInitialState(), m.start}};
  for (size_t i = 0; i < l.size(); i++) { auto x = l[i]; same(m, c, x.first, x.second, &l); } sym_cover("model");
}
SYM_CASE(wide_row, "an MDP of 6 states: any probabilities of any state and action over 5 successors") { wide(sym_int("skip", 0, 5), false); }
SYM_CASE(rare_row, "an MDP of 6 states: any probabilities of any state and action over 5 successors, two or three of them below 1/1000") { wide(sym_int("skip", 0, 5), true); }
// initial bounds bracket the optimal value
static void bounds(int k, int sel, double g) {
  ZModel m = zmfam(k, sel); m.gamma = g;
  ZSolver *z = zinit(m.write("m.mdp"), "searchStrategy frtdp");
  vec v = zvstar(m); AbstractBound *l = z->mdp()->newLowerBound(&z->config), *u = z->mdp()->newUpperBound(&z->config);
  l->initialize(1e-3); u->initialize(1e-3);
  for (int s = 0; s < m.S; s++) { state_vector x = zst(s); sym_check_le(l->getValue(x, NULL), v[s], 1e-7, "initial lower bound of state %d above the optimal value", s); sym_check_le(v[s], u->getValue(x, NULL), 1e-7, "initial upper bound of state %d below the optimal value", s); }
  sym_cover("bounds");
}
#define D "two symbolic rewards, initial bounds; "
SYM_CASE(bounds_loop, D "discount 1/2") { bounds(0, 3, 0.5); }
SYM_CASE(bounds_loop2, D "discount 3/4") { bounds(0, 12, 0.75); }
SYM_CASE(bounds_goal, D "discount 3/4") { bounds(1, 9, 0.75); }
SYM_CASE(bounds_goal2, D "discount 7/8") { bounds(1, 20, 0.875); }
SYM_CASE(bounds_scc, D "discount 1/2") { bounds(2, 10, 0.5); }
SYM_CASE(bounds_tree, D "discount 1/2") { bounds(3, 5, 0.5); }
// separate states: each keeps itself, so its value is its best reward forever
static void alone(int S, int A, double g) {
  ZModel m = mdp_base(S, A, g); m.start = sym_int("start", 0, S - 1); for (int a = 0; a < A; a++) for (int s = 0; s < S; s++) { m.T[a][s][s] = 1; m.R[a][s] = sym_doublef(-5, 5, "r%d%d", a, s); sym_assume_ge_gap(m.R[a][s], 0, 1e-6); }
  ZSolver *z = zinit(m.write("m.mdp"), "searchStrategy frtdp"); AbstractBound *l = z->mdp()->newLowerBound(&z->config), *u = z->mdp()->newUpperBound(&z->config); l->initialize(1e-3); u->initialize(1e-3);
  for (int s = 0; s < S; s++) { double v = m.R[0][s]; for (int a = 1; a < A; a++) v = sym_max(v, m.R[a][s]); v = v / (1 - g); state_vector x = zst(s); sym_check_le(l->getValue(x, NULL), v, 1e-7, "initial lower bound of state %d above the optimal value", s); sym_check_le(v, u->getValue(x, NULL), 1e-7, "initial upper bound of state %d below the optimal value", s); }
  sym_cover("bounds");
}
SYM_CASE(alone1, "3 absorbing states, 1 action, any rewards: initial bounds") { alone(3, 1, 0.5); }
SYM_CASE(alone2, "3 absorbing states, 2 actions, any rewards: initial bounds") { alone(3, 2, 0.75); }
SYM_CASE(alone3, "2 absorbing states, 3 actions, any rewards: initial bounds") { alone(2, 3, 0.875); }
SYM_CASE(bounds_pos, "3 states, all rewards positive, one symbolic") { ZModel m = mdp_loop(0); for (auto &r : m.R) for (double &x : r) x = fabs(x); m.R[1][2] = sym_double("r", 0.1, 5); ZSolver *z = zinit(m.write("m.mdp"), "searchStrategy frtdp"); vec v = zvstar(m); AbstractBound *l = z->mdp()->newLowerBound(&z->config), *u = z->mdp()->newUpperBound(&z->config); l->initialize(1e-3); u->initialize(1e-3); for (int s = 0; s < m.S; s++) { state_vector x = zst(s); sym_check_le(l->getValue(x, NULL), v[s], 1e-7, "initial lower bound of state %d", s); sym_check_le(v[s], u->getValue(x, NULL), 1e-7, "initial upper bound of state %d", s); } }
// the cache over a POMDP: following any actions and observations gives the beliefs the POMDP gives
static void cachePomdp(int k, int steps) {
  ZModel m = zfam(k, 0); m.b0 = zsimplex(m.S, "b", 3); for (int i = 0; i < m.S; i++) if (sym_is_symbolic(m.b0[i])) sym_assume_le(0.01, m.b0[i]);
  ZSolver *z = zmake(m.write("m.pomdp"), "searchStrategy hsvi");
  MDP *p = z->mdp(); CacheMDP *c = new CacheMDP(p);
  state_vector cs = c->getInitialState(), b = p->getInitialState(), u;
  for (int i = 0; i <= steps; i++) {
    c->translateState(u, cs); vec du = zdense(u), db = zdense(b);
    for (int s = 0; s < m.S; s++) sym_check_eq(du[s], db[s], 1e-7, "belief after %d steps", i);
    sym_check(c->getIsTerminalState(cs) == p->getIsTerminalState(b), "terminal after %d steps", i);
    if (i == steps) break;
    int a = sym_int(zfmt("a%d", i).c_str(), 0, m.A - 1);
    outcome_prob_vector o1, o2; c->getOutcomeProbVector(o1, cs, a); p->getOutcomeProbVector(o2, b, a);
    sym_check(o1.size() == o2.size(), "number of outcomes"); for (size_t o = 0; o < o1.size() && o < o2.size(); o++) sym_check_eq(o1(o), o2(o), 1e-7, "outcome probability");
    sym_check_eq(c->getReward(cs, a), p->getReward(b, a), 1e-7, "expected reward");
    int o = sym_int(zfmt("o%d", i).c_str(), 0, o1.size() - 1); sym_assume(o1(o) > 1e-6);
    state_vector r; c->getNextState(r, cs, a, o); cs = r; p->getNextState(r, b, a, o); b = r;
  }
  sym_cover("path");
}
SYM_CASE(cache_tiger, "2-state POMDP, any initial belief over 2 states, any 2 (thorough 3) actions and observations") { cachePomdp(0, sym_thorough() ? 3 : 2); }
SYM_CASE(cache_goal, "3-state POMDP, any initial belief over 2 states, any 2 (thorough 3) actions and observations") { cachePomdp(1, sym_thorough() ? 3 : 2); }
SYM_CASE(cache_costs, "2-state POMDP with an impossible observation, any initial belief over 2 states, any 2 (thorough 3) actions and observations") { cachePomdp(3, sym_thorough() ? 3 : 2); }
// the custom MDP: n cells in a row, each move succeeds with probability 0.9 and costs one until the last cell
SYM_CASE(custom, "custom MDP of 2-8 cells, any cell and action") {
  int n = sym_int("cells", 2, 8); zwrite(zpath("c.custom"), "");
  ZSolver *z = zmake(zpath("c.custom"), zfmt("searchStrategy frtdp modelType custom customMDPNumStates %d", n)); MDP *p = z->mdp();
  int x = sym_int("x", 0, n - 1), a = sym_int("a", 0, 1); state_vector s = zst(x);
  sym_check((int)p->getInitialState()(0) == 0, "initial state"); sym_check_eq(p->getDiscount(), 1, 0, "discount"); sym_check(p->getNumActions() == 2, "actions");
  bool goal = x == n - 1; sym_check(p->getIsTerminalState(s) == goal, "terminal"); sym_check_eq(p->getReward(s, a), goal ? 0 : -1, 0, "reward");
  vec got(n + 1, 0.0), want(n + 1, 0.0); outcome_prob_vector o; p->getOutcomeProbVector(o, s, a);
  for (size_t i = 0; i < o.size(); i++) { state_vector t; p->getNextState(t, s, a, i); int y = (int)t(0); if (y < 0 || y >= n) { sym_fail("successor %d of %d", y, x); return; } got[y] += o(i); }
  int y = goal ? x : a ? x + 1 : x > 0 ? x - 1 : 0; want[y] += 0.9; want[x] += 0.1;
  for (int i = 0; i < n; i++) sym_check_eq(got[i], want[i], 1e-9, "probability %d -> %d", x, i);
  AbstractBound *l = p->newLowerBound(&z->config), *u = p->newUpperBound(&z->config); l->initialize(1e-3); u->initialize(1e-3);
  double v = -(n - 1 - x) / 0.9; sym_check_le(l->getValue(s, NULL), v, 1e-9, "initial lower bound"); sym_check_le(v, u->getValue(s, NULL), 1e-9, "initial upper bound");
}
