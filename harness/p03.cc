#include "pomdp_fam.h"
#include "MaxPlanesLowerBound.h"
#include "SawtoothUpperBound.h"
#include "FullObsUBInitializer.h"
// property P03: initial bounds of POMDPs are valid
// V* by enclosure: n steps of exact lookahead from a certain upper / lower value function
static double tolOf(const ZModel &m) { return 1e-4 / (1 - m.gamma) + 1e-6; }
// sel: which rewards are symbolic (then the query belief is one of four fixed ones), or 0 (then it is any belief of the support)
static void check(const ZModel &m, int sel, const std::string &opts, unsigned supp, int depth) {
  ZSolver *z = zinit(m.write("m.pomdp"), "searchStrategy hsvi terminateRegretBound 0.01 " + opts);
  vec b;
  if (!sel) b = zsimplex(m.S, "b", supp);
  else {
    int k = sym_int("belief", 0, 2); b = m.b0;
    if (k == 1) { b.assign(m.S, 0.0); b[0] = 0.25; b[1] = 0.75; }
    if (k == 2) { b.assign(m.S, 1.0 / m.S); if (m.S == 3) b = {0.25, 0.25, 0.5}; }
  }
  double tol = tolOf(m);
  ValueInterval v = z->bp()->getValueAt(zbelief(b));
  std::vector<vec> bl = zblind(m);
  vec mdp = zmdp_ub(m, 3);
  sym_check_le(v.l, v.u, tol, "initial lower bound above the initial upper bound");
  // lower bound: achieved by a blind policy, so equal to the best of them
  double best = zdot(bl[0], b); for (int a = 1; a < m.A; a++) best = sym_max(best, zdot(bl[a], b));
  sym_check_le(v.l, best, tol, "initial lower bound above every blind policy's value");
  sym_check_le(best, v.l, tol, "initial lower bound below a blind policy's value");
  // upper bound: above optimal, not above the fully observable value
  sym_check_le(zlook(m, b, depth, bl), v.u, tol, "initial upper bound below the optimal value");
  sym_check_le(v.u, zdot(mdp, b), tol, "initial upper bound looser than full observability");
  // every corner is a state known for sure
  Pomdp *p = (Pomdp *)z->mdp();
  for (int s = 0; s < m.S; s++) {
    vec c(m.S, 0.0); c[s] = 1;
    ValueInterval w = z->bp()->getValueAt(zbelief(c));
    if (p->isTerminalState[s]) { sym_check_eq(w.u, 0, 1e-9, "terminal state upper bound"); sym_check_le(w.l, 0, 1e-9, "terminal state lower bound"); sym_cover("terminal"); }
    sym_check_le(zlook(m, c, depth - 1, bl), w.u, tol, "corner upper bound below the optimal value");
  }
}
// the iteration may stop early (coarse target) but only on the safe side: never above what some policy attains
static void coarse(const ZModel &m, const char *target) {
  ZSolver *z = zinit(m.write("m.pomdp"), std::string("searchStrategy hsvi terminateRegretBound ") + target);
  std::vector<vec> bl = zblind(m);
  // what the weakest promise behind the bound allows: k blind steps, then the best blind policy of all, for every k
  for (int s = 0; s < m.S; s++) {
    vec c(m.S, 0.0); c[s] = 1; double l = z->bp()->getValueAt(zbelief(c)).l;
    double best = bl[0][s]; for (int a = 1; a < m.A; a++) best = sym_max(best, bl[a][s]);
    if (m.A == 1) { sym_check_le(l, best, 1e-6, "lower bound of state %d above the value of the only policy", s); continue; }
    vec lo(m.S); for (int t = 0; t < m.S; t++) { lo[t] = bl[0][t]; for (int a = 1; a < m.A; a++) lo[t] = sym_min(lo[t], bl[a][t]); }
    sym_check_le(l, zlook(m, c, 2, bl), 1e-6, "lower bound of state %d above the value of acting", s);
  }
}
#define BD "all reward values in the range of the symbolic ones at 3 fixed beliefs and all corners; oracle: exact 3-step lookahead over blind-policy values"
#define BQ "fixed rewards; every query belief; oracle: exact 3-step lookahead over blind-policy values"
SYM_CASE(tiger, "tiger-like; " BD) { check(zfam(0, 6), 6, "", ~0u, 3); }
SYM_CASE(goal, "absorbing goal; " BD) { check(zfam(1, 10), 10, "", ~0u, 3); }
SYM_CASE(sparse, "4 states; " BD) { check(zfam(2, 9), 9, "", ~0u, 3); }
SYM_CASE(costs, "negative rewards; " BD) { check(zfam(3, 8), 8, "", ~0u, 2); }
SYM_CASE(gamma34, "discount 3/4, tiger-like; " BD) { check(zfam(0, 4, 0.75), 4, "", ~0u, 2); }
SYM_CASE(nomask, "plane masking off; " BD) { check(zfam(3, 6), 6, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", ~0u, 2); }
SYM_CASE(q_all, BQ "; all four families, discounts 1/2 and 7/8") {
  int f = sym_int("family", 0, NFAM - 1); bool hi = sym_bool("gamma78");
  check(zfam(f, 0, hi ? 0.875 : 0.5), 0, "", ~0u, f == 2 ? 2 : 3);
}
SYM_CASE(mixed, "sign of one reward free; 3 fixed beliefs") {
  ZModel m = fam_goal(0); m.R[1][1] = sym_double("r", -3, 3); check(m, 1, "", ~0u, 2);
}
SYM_CASE(fullobs, "fully observable value iteration within its precision of the optimum; 3 symbolic rewards") {
  ZModel m = fam_goal(2 + 8); m.R[1][0] = sym_double("free", -8, 8);
  ZSolver *z = zmake(m.write("m.pomdp"), "searchStrategy hsvi");
  FullObsUBInitializer f; double eps = 1.0 / 64; f.valueIteration((Pomdp *)z->mdp(), eps);
  // |V - V*| <= eps*g/(1-g); enclose V* between m-step iterations from above/below
  int n = 12; vec hi = zmdp_ub(m, n);
  double slack = 0; { double g = 1; for (int i = 0; i < n; i++) g *= m.gamma; slack = g * 10 / (1 - m.gamma); }
  for (int s = 0; s < m.S; s++) {
    sym_check_le(f.alpha(s), hi[s], eps * m.gamma / (1 - m.gamma) + 1e-6, "full-observability value too high in state %d", s);
    sym_check_le(hi[s] - slack, f.alpha(s), eps * m.gamma / (1 - m.gamma) + slack + 1e-6, "full-observability value too low in state %d", s);
  }
}

#define BC "; all reward values; coarse target precision 0.5, 0.25 or 0.05; one-sided with no allowance for the precision"
SYM_CASE(coarse_chain, "one action, two states, negative rewards" BC) {
  ZModel m(2, 1, 1, sym_bool("gamma34") ? 0.75 : 0.5); m.T[0] = {{0.5, 0.5}, {0.25, 0.75}}; m.Z[0] = {{1}, {1}}; m.b0 = {0.5, 0.5};
  m.R[0] = {sym_double("r0", -8, -0.5), sym_double("r1", -4, -0.25)}; static const char *t[] = {"0.5", "0.25", "0.05"}; coarse(m, t[sym_int("target", 0, 2)]);
}
SYM_CASE(coarse_mixed, "one action, two states, rewards of both signs" BC) {
  ZModel m(2, 1, 1, 0.5); m.T[0] = {{0.5, 0.5}, {0.25, 0.75}}; m.Z[0] = {{1}, {1}}; m.b0 = {0.5, 0.5};
  m.R[0] = {sym_double("r0", 0.25, 8), sym_double("r1", -4, -0.25)}; static const char *t[] = {"0.5", "0.25", "0.05"}; coarse(m, t[sym_int("target", 0, 2)]);
}
SYM_CASE(coarse_costs, "the costs family" BC) { coarse(zfam(3, 8), sym_bool("half") ? "0.5" : "0.1"); }
SYM_CASE(coarse_tiger, "the tiger family" BC) { coarse(zfam(0, 4), sym_bool("half") ? "0.5" : "0.1"); }
