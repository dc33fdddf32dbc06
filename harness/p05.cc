#include "bound_oracle.h"
// property P05: a backup is the one-step Bellman lookahead
static const double TOL = 1e-7;
static double look(const ZModel &m, const vec &b, int a, double (*val)(ZSolver *, const vec &), ZSolver *z) {
  double q = zrew(m, b, a);
  for (int o = 0; o < m.O; o++) {
    vec u; double p = zobs(m, b, a, o, u);
    if (!sym_is_symbolic(p) && p == 0) continue;
    for (auto &x : u) x = x / p;
    q += m.gamma * p * val(z, u);
  }
  return q;
}
static double lbv(ZSolver *z, const vec &b) { bool any; double v = zlb_oracle(zmlb(z), b, &any); sym_check(any, "no applicable plane at a successor belief"); return v; }
static double ubv(ZSolver *z, const vec &b) { return zub_oracle(zsub(z), b); }
static double maxOver(const std::vector<double> &q) { double m = q[0]; for (double x : q) m = sym_max(m, x); return m; }
static void checkQ(const ZModel &m, ZSolver *z, const vec &b) {
  for (int a = 0; a < m.A; a++) {
    ValueInterval v = z->bp()->getQValue(zbelief(b), a);
    sym_check_eq(v.l, look(m, b, a, lbv, z), TOL, "reported lower Q value of action %d is not the lookahead", a);
    sym_check_eq(v.u, look(m, b, a, ubv, z), TOL, "reported upper Q value of action %d is not the lookahead", a);
  }
}
static void run(int fam, int sel, const char *opts, int steps, int maxNodes, double g = 0.5) {
  ZModel m = zfam(fam, sel, g);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string("searchStrategy hsvi terminateRegretBound 0.01 ") + opts);
  z->bp()->getRootNode();
  if (sym_thorough()) steps++;
  for (int k = 0; k < steps; k++) {
    auto nodes = znodes(z->bp()->getRootNode());
    int lim = k == 0 ? 1 : std::min((int)nodes.size(), maxNodes);
    MDPNode *n = nodes[lim > 1 ? sym_int(zfmt("node%d", k).c_str(), 0, lim - 1) : 0];
    sym_assume(!n->isTerminal);
    vec b = zdense(n->s);
    bool fresh = n->isFringe();
    checkQ(m, z, b);
    std::vector<double> ql, qu, oldu;
    for (int a = 0; a < m.A; a++) { ql.push_back(look(m, b, a, lbv, z)); qu.push_back(look(m, b, a, ubv, z)); oldu.push_back(fresh ? 0 : n->Q[a].ubVal); }
    double l0 = lbv(z, b), u0 = ubv(z, b); (void)l0;
    int best = -1; z->bp()->update(*n, &best);
    double hl = maxOver(ql), hu = maxOver(qu);
    ValueInterval v = z->bp()->getValueAt(n->s);
    sym_check_le(hl, v.l, TOL, "lower bound after the update is below the best one-step lookahead");
    sym_check_le(hl, n->lbVal, TOL, "stored lower value after the update is below the best one-step lookahead");
    sym_check_le(v.u, hu, TOL, "upper bound after the update is above the best one-step lookahead");
    sym_check_le(n->ubVal, hu, TOL, "stored upper value after the update is above the best one-step lookahead");
    sym_check_le(sym_min(hu, u0), n->ubVal, TOL, "stored upper value after the update is below both the lookahead and the old bound");
    for (int a = 0; a < m.A; a++) {
      sym_check_eq(n->Q[a].lbVal, ql[a], TOL, "stored lower Q value of action %d", a);
      // cached upper Q values may be stale, which is harmless as long as they are above the lookahead and never above the old value
      sym_check_le(qu[a], n->Q[a].ubVal, TOL, "stored upper Q value of action %d below the lookahead", a);
      if (fresh) sym_check_eq(n->Q[a].ubVal, qu[a], TOL, "first upper Q value of action %d", a);
    }
    sym_check(best >= 0 && best < m.A, "update reported no best action");
    sym_check_eq(qu[best], hu, TOL, "the action reported as best does not maximise the upper lookahead");
    sym_check_eq(n->Q[best].ubVal, qu[best], TOL, "the best action's upper Q value is stale");
    // the new plane is achievable: the vector of following its action once
    checkQ(m, z, b);
    sym_cover("update");
  }
}
#define G "all values of 2 symbolic rewards; every update sequence among the first nodes"
SYM_CASE(tiger, G) { run(0, 6, "", 2, 6); }
SYM_CASE(goal, G) { run(1, 6, "", 2, 4); }
SYM_CASE(goal2, G "; other rewards") { run(1, 9, "", 2, 4); }
SYM_CASE(sparse, G) { run(2, 9, "", 2, 5); }
SYM_CASE(sparse2, G "; other rewards") { run(2, 18, "", 2, 5); }
SYM_CASE(costs, "one symbolic reward; every sequence of 3 updates") { run(3, 4, "", 3, 4); }
SYM_CASE(nocache, G "; plane cache off") { run(1, 6, "useMaxPlanesCache 0 useMaxPlanesExtraPruning 0", 2, 4); }
SYM_CASE(nomask, G "; masking off") { run(3, 1, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", 2, 4); }
SYM_CASE(nosupp, G "; support lists off") { run(2, 10, "useMaxPlanesSupportList 0 useSawtoothSupportList 0", 2, 4); }
SYM_CASE(fixed, "fixed rewards, discount 1/2 or 15/16, all families, every sequence of 4 updates among the first 6 nodes") { int f = sym_int("family", 0, 3); bool h = sym_bool("g"); run(f, 0, "", 4, 6, h ? 0.9375 : 0.5); }
