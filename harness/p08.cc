#include "mdp_fam.h"
#include "PointLowerBound.h"
#include "PointUpperBound.h"
// property P08: point-bound updates are exact, monotone Bellman updates.
// The bounds before the update are arbitrary (any values a history could have
// left), so one update from them covers histories of any length.
static const double TOL = 1e-7;
enum { DUAL, SEP, UPPER, LOWER };
static const char *const OPTS[] = {"searchStrategy frtdp", "searchStrategy frtdp", "searchStrategy rtdp maintainLowerBound 0", "searchStrategy script maintainLowerBound 1 maintainUpperBound 0"};
static void init(ZSolver *z, int mode) {
  if (mode == SEP) z->bp()->dualPointBounds = false;
  if (!z->core()->initialized) z->so.solver->planInit(z->so.sim->getModel(), &z->config);
  if (!z->core()->initialized) z->bp()->initialize(z->mdp(), &z->config);
}
static double maxOver(const std::vector<double> &q) { double m = q[0]; for (double x : q) m = sym_max(m, x); return m; }
static int NSYM;
// which: number of updates; cached: Q values carry arbitrary stale (not too low) upper values
static void run(int fam, int mode, int sel, int steps, bool staleQ) {
  ZModel m = zmfam(fam, sel);
  ZSolver *z = zmake(m.write("m.mdp"), OPTS[mode]);
  init(z, mode);
  zexpand_all(z);
  auto nodes = znodes(z->bp()->getRootNode());
  vec lb(m.S, 0.0), ub(m.S, 0.0);
  bool hasL = mode != UPPER, hasU = mode != LOWER;
  for (auto *n : nodes) {
    int s = zsid(n->s);
    if (n->isTerminal) { if (hasL) sym_check_eq(n->lbVal, 0, 0, "terminal state %d has a non-zero lower bound", s); if (hasU) sym_check_eq(n->ubVal, 0, 0, "terminal state %d has a non-zero upper bound", s); continue; }
    if (hasL) n->lbVal = lb[s] = sym_doublef(-20, 20, "lb%d", s);
    if (hasU) n->ubVal = ub[s] = sym_doublef(-20, 20, "ub%d", s);
  }
  auto updatable = [&]() { std::vector<MDPNode *> r; for (auto *n : nodes) if (!n->isTerminal) r.push_back(n); return r; }();
  if (sym_thorough()) steps++;
  for (int k = 0; k < steps; k++) {
    MDPNode *n = updatable[updatable.size() > 1 ? sym_int(zfmt("node%d", k).c_str(), 0, updatable.size() - 1) : 0];
    int s = zsid(n->s);
    if (k == 0 && staleQ) for (int a = 0; a < m.A; a++) { n->Q[a].ubVal = sym_doublef(-60, 60, "q%d", a); sym_assume_le(zq(m, s, a, ub), n->Q[a].ubVal); }
    std::vector<double> ql, qu;
    for (int a = 0; a < m.A; a++) { ql.push_back(zq(m, s, a, lb)); qu.push_back(zq(m, s, a, ub)); }
    int best = -7; z->bp()->update(*n, &best);
    double hl = maxOver(ql), hu = maxOver(qu);
    if (hasL) { double want = sym_max(lb[s], hl); sym_check_eq(n->lbVal, want, TOL, "lower value after updating state %d", s); lb[s] = n->lbVal;
      for (int a = 0; a < m.A; a++) sym_check_eq(n->Q[a].lbVal, ql[a], TOL, "stored lower Q value, state %d action %d", s, a); }
    if (hasU) { double want = sym_min(ub[s], hu); sym_check_eq(n->ubVal, want, TOL, "upper value after updating state %d", s); ub[s] = n->ubVal;
      sym_check(best >= 0 && best < m.A, "no action reported");
      sym_check_eq(qu[best], hu, TOL, "the action reported for state %d is not a best one", s);
      sym_check_eq(n->Q[best].ubVal, hu, TOL, "stored upper Q value of the chosen action, state %d", s);
      for (int a = 0; a < m.A; a++) sym_check_le(qu[a], n->Q[a].ubVal, TOL, "stored upper Q value below the lookahead, state %d action %d", s, a);
      sym_check(BoundPairCore::getMaxUBAction(*n) >= 0, "no best action from the stored Q values");
      sym_check_eq(n->Q[BoundPairCore::getMaxUBAction(*n)].ubVal, hu, TOL, "best stored upper Q value"); }
    for (auto *o : nodes) if (o != n && !o->isTerminal) { if (hasL) sym_check_eq(o->lbVal, lb[zsid(o->s)], 0, "update of state %d changed state %d", s, zsid(o->s)); if (hasU) sym_check_eq(o->ubVal, ub[zsid(o->s)], 0, "update of state %d changed state %d", s, zsid(o->s)); }
    for (auto *o : nodes) { ValueInterval v = z->bp()->getValueAt(o->s); sym_check_eq(v.l, hasL ? o->lbVal : -1, 0, "reported lower value"); sym_check_eq(v.u, hasU ? o->ubVal : -1, 0, "reported upper value"); }
    sym_cover("update");
  }
  // reported Q values are the lookahead over the stored values
  for (auto *o : updatable) for (int a = 0; a < m.A; a++) { ValueInterval v = z->bp()->getQValue(o->s, a); int s = zsid(o->s); if (hasL) sym_check_eq(v.l, zq(m, s, a, lb), TOL, "reported lower Q value"); if (hasU) sym_check_eq(v.u, zq(m, s, a, ub), TOL, "reported upper Q value"); }
}
#define B(x) "any bound values at every state in [-20,20], " x
SYM_CASE(loop_dual, B("3 states, joint update, any node")) { run(0, DUAL, 0, 1, false); }
SYM_CASE(loop_sep, B("3 states, separate updates, any node")) { run(0, SEP, 0, 1, false); }
SYM_CASE(loop_upper, B("3 states, upper bound only, 2 updates")) { run(0, UPPER, 0, 2, false); }
SYM_CASE(loop_lower, B("3 states, lower bound only, 2 updates")) { run(0, LOWER, 0, 2, false); }
SYM_CASE(loop_stale, B("arbitrary stale cached action values")) { run(0, UPPER, 0, 1, true); }
SYM_CASE(loop_rew, B("two symbolic rewards")) { run(0, UPPER, 5, 1, true); }
SYM_CASE(goal_dual, B("4 states with a terminal one")) { run(1, DUAL, 0, 1, false); }
SYM_CASE(goal_sep, B("4 states with a terminal one, separate updates")) { run(1, SEP, 0, 1, false); }
SYM_CASE(goal_upper, B("stale action values")) { run(1, UPPER, 0, 1, true); }
SYM_CASE(scc_upper, B("5 states, 3 actions, stale action values")) { run(2, UPPER, 0, 1, true); }
SYM_CASE(scc_dual, B("5 states, 3 actions")) { run(2, DUAL, 0, 1, false); }
SYM_CASE(scc_lower, B("5 states, 3 actions")) { run(2, LOWER, 0, 1, false); }
SYM_CASE(tree_upper, B("stale action values, two symbolic rewards")) { run(3, UPPER, 5, 1, true); }
SYM_CASE(tree_sep, B("two symbolic rewards")) { run(3, SEP, 10, 1, false); }
