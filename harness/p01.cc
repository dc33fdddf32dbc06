#include "pomdp_fam.h"
#include "Pomdp.h"
// property P01: exact Bayes filtering
static Pomdp *load(const ZModel &m, bool fast) {
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c);
  c->setString("useFastModelParser", fast ? "1" : "0");
  return new Pomdp(m.write("m.pomdp"), c);
}
static const double TOL = 1e-7;
// one step from belief b (dense oracle copy in bv); returns false when the observation is impossible
static void step(const ZModel &m, Pomdp *p, const belief_vector &b, const vec &bv, const char *w) {
  for (int a = 0; a < m.A; a++) {
    sym_check_eq(p->getReward(b, a), zrew(m, bv, a), TOL, "%s: expected reward of action %d", w, a);
    outcome_prob_vector opv; p->getOutcomeProbVector(opv, b, a);
    sym_check((int)opv.size() == m.O, "%s: number of outcomes", w);
    double tot = 0;
    for (int o = 0; o < m.O; o++) {
      vec u; double po = zobs(m, bv, a, o, u);
      sym_check_eq(opv(o), po, TOL, "%s: probability of observation %d after action %d", w, o, a);
      sym_check_le(0, opv(o), TOL, "%s: negative probability", w);
      tot += opv(o);
      if (!sym_is_symbolic(po) && po == 0) { sym_cover("impossible observation"); continue; }
      if (po < 1e-3) continue;
      state_vector sp; p->getNextState(sp, b, a, o);
      vec d = zdense(sp); double s = 0;
      sym_check((int)sp.size() == m.S, "%s: belief size", w);
      for (int t = 0; t < m.S; t++) {
        sym_check_eq(d[t] * po, u[t], TOL, "%s: posterior of state %d after action %d observation %d", w, t, a, o);
        s += d[t];
        if (!sym_is_symbolic(u[t]) && u[t] == 0) sym_check(!sym_is_symbolic(d[t]) && d[t] == 0, "%s: impossible state %d in the posterior", w, t);
      }
      sym_check_eq(s, 1, TOL, "%s: posterior does not sum to one", w);
      sym_cover("posterior");
    }
    sym_check_eq(tot, 1, TOL, "%s: observation probabilities do not sum to one", w);
  }
}
static void beliefs(int f, unsigned supp) {
  ZModel m = zfam(f, 0);
  Pomdp *p = load(m, sym_bool("fastParser"));
  vec b = zsimplex(m.S, "b", supp);
  step(m, p, zbelief(b), b, "at a symbolic belief");
}
#define ALLB "every belief over the states, every action and observation, both parsers"
SYM_CASE(tiger, ALLB) { beliefs(0, ~0u); }
SYM_CASE(goal, ALLB ", model with absorbing goal and impossible observations") { beliefs(1, ~0u); }
SYM_CASE(sparse, ALLB ", 4 states") { beliefs(2, ~0u); }
SYM_CASE(sparse2, "every belief over states 1 and 3 only (sparse vector)") { beliefs(2, 0xA); }
SYM_CASE(costs, ALLB ", 3 observations, one of them impossible") { beliefs(3, ~0u); }
// symbolic model parameters
static ZModel params(int O) {
  ZModel m(2, 2, O, 0.5);
  double t0 = sym_double("t0", 0.125, 0.875), t1 = sym_double("t1", 0.125, 0.875), z0 = sym_double("z0", 0.125, 0.75), z1 = sym_double("z1", 0.125, 0.75);
  m.T[0] = {{t0, 1 - t0}, {1 - t1, t1}};
  m.T[1] = {{0, 1}, {0.25, 0.75}};
  m.Z[0][0][0] = z0; m.Z[0][0][1] = 1 - z0; m.Z[0][1][0] = 1 - z1; m.Z[0][1][1] = z1;
  if (O > 2) { m.Z[0][0][1] = 0.25 * (1 - z0); m.Z[0][0][2] = 0.75 * (1 - z0); }
  for (int t = 0; t < 2; t++) { m.Z[1][t][t] = 1; }
  m.R[0] = {sym_double("r0", -20, 20), sym_double("r1", 1, 20)};
  m.R[1] = {1, -3};
  m.b0 = {0.25, 0.75};
  return m;
}
SYM_CASE(model, "2 states, all transition/observation/reward values of one action symbolic; 3 fixed beliefs") {
  ZModel m = params(2); Pomdp *p = load(m, false);
  int k = sym_int("k", 0, 2);
  vec b = k == 0 ? vec{0.25, 0.75} : k == 1 ? vec{1, 0} : vec{0.5, 0.5};
  step(m, p, zbelief(b), b, "symbolic model");
}
SYM_CASE(model3, "as `model` with three observations and the fast parser") {
  ZModel m = params(3); Pomdp *p = load(m, true);
  step(m, p, zbelief(m.b0), m.b0, "symbolic model");
}
SYM_CASE(initial, "the initial belief equals the file's, symbolic, both parsers") {
  ZModel m = fam_sparse(0);
  double x = sym_double("x", 0.01, 0.9);
  m.b0 = {x, 0, 0, 1 - x};
  Pomdp *p = load(m, sym_bool("fastParser"));
  vec d = zdense(p->getInitialState());
  for (int s = 0; s < 4; s++) sym_check_eq(d[s], m.b0[s], TOL, "initial belief of state %d", s);
  step(m, p, p->getInitialState(), m.b0, "at the initial belief");
}
SYM_CASE(history, "two-step histories: posterior equals the batch posterior; one symbolic sensor accuracy, all action/observation pairs") {
  ZModel m = fam_goal(0);
  double z = sym_double("z", 0.55, 0.95);
  m.Z[1][0] = {z, 1 - z}; m.Z[1][1] = {1 - z, z};
  Pomdp *p = load(m, false);
  int a1 = sym_int("a1", 0, 1), o1 = sym_int("o1", 0, 1), a2 = sym_int("a2", 0, 1), o2 = sym_int("o2", 0, 1);
  vec u1, u2; double p1 = zobs(m, m.b0, a1, o1, u1); (void)p1;
  double p2 = zobs(m, u1, a2, o2, u2);
  if (!sym_is_symbolic(p2) && p2 == 0) return;
  state_vector s1, s2; p->getNextState(s1, p->getInitialState(), a1, o1);
  p->getNextState(s2, s1, a2, o2);
  vec d = zdense(s2);
  for (int t = 0; t < m.S; t++) sym_check_eq(d[t] * p2, u2[t], TOL, "two-step posterior of state %d", t);
}
