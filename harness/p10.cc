#include "mdp_fam.h"
// property P10: whatever the strategy, trials keep every node's bounds valid and never loosen them
static const double TOL = 1e-6;
struct Rec { double l, u; };
typedef std::map<MDPNode *, Rec> Hist;
static void look(ZSolver *z, const vec &vs, Hist &h, const char *when) {
  bool hasL = z->p.maintainLowerBound;
  for (auto *n : znodes(z->bp()->getRootNode())) {
    int s = zsid(n->s);
    sym_check_le(vs[s], n->ubVal, TOL, "%s: upper bound of state %d below its optimal value", when, s);
    if (hasL) sym_check_le(n->lbVal, vs[s], TOL, "%s: lower bound of state %d above its optimal value", when, s);
    if (hasL) sym_check_le(n->lbVal, n->ubVal, TOL, "%s: bounds of state %d crossed", when, s);
    auto it = h.find(n);
    if (it != h.end()) { sym_check_le(n->ubVal, it->second.u, TOL, "%s: upper bound of state %d got looser", when, s); if (hasL) sym_check_le(it->second.l, n->lbVal, TOL, "%s: lower bound of state %d got looser", when, s); }
    h[n] = {n->lbVal, n->ubVal};
  }
}
static void script() { std::vector<double> s; for (int i = 0; i < 3000; i++) s.push_back((i * 7 % 11) / 11.0 + 0.02); sym_rand_script(s); }
static void init(ZSolver *z) { if (!z->core()->initialized) z->so.solver->planInit(z->so.sim->getModel(), &z->config); if (!z->core()->initialized) z->core()->init(); }
// from the solver's own initial bounds
static void trialsm(const ZModel &m, const char *opts, int n, bool freeRand);
static void trials(int fam, int sel, const char *opts, int n, bool freeRand) { trialsm(zmfam(fam, sel), opts, n, freeRand); }
static void trialsm(const ZModel &m, const char *opts, int n, bool freeRand) {
  vec vs = zvstar(m);
  ZSolver *z = zmake(m.write("m.mdp"), opts); init(z);
  if (!freeRand) script();
  Hist h; look(z, vs, h, "before the first trial");
  if (sym_thorough()) n += 2;
  for (int k = 0; k < n; k++) {
    bool done = ztrial(z);
    look(z, vs, h, zfmt("after trial %d", k + 1).c_str());
    sym_cover("trial"); if (done) { sym_cover("finished"); break; }
  }
}
#define B(x) x ", symbolic rewards, own initial bounds"
SYM_CASE(loop_frtdp, B("3 states, 3 trials")) { trials(0, 2 | 8, "searchStrategy frtdp", 3, false); }
SYM_CASE(goal_frtdp, B("4 states, 2 trials")) { trials(1, 2, "searchStrategy frtdp", 2, false); }
SYM_CASE(scc_frtdp, B("5 states, 2 trials")) { trials(2, 1, "searchStrategy frtdp", 2, false); }
SYM_CASE(tree_frtdp, B("5 states, 3 trials")) { trials(3, 1 | 16, "searchStrategy frtdp", 3, false); }
SYM_CASE(loop_hsvi, B("3 states, 4 trials")) { trials(0, 1 | 4, "searchStrategy hsvi", 4, false); }
SYM_CASE(goal_hsvi, B("4 states, 6 trials")) { trials(1, 2 | 8, "searchStrategy hsvi", 6, false); }
SYM_CASE(scc_hsvi, B("5 states, 6 trials")) { trials(2, 1 | 8, "searchStrategy hsvi", 6, false); }
SYM_CASE(tree_hsvi, B("5 states, 4 trials")) { trials(3, 1 | 4, "searchStrategy hsvi", 4, false); }
SYM_CASE(goal_rtdp, B("4 states, 3 trials, fixed outcomes")) { trials(1, 2 | 8, "searchStrategy rtdp maintainLowerBound 1", 3, false); }
SYM_CASE(tree_rtdp, B("5 states, 2 trials, any outcomes")) { trials(3, 1 | 8, "searchStrategy rtdp", 2, true); }
SYM_CASE(tree_rtdp_lb, B("5 states, 2 trials, any outcomes, with lower bound")) { trials(3, 4, "searchStrategy rtdp maintainLowerBound 1", 2, true); }
SYM_CASE(goal_lrtdp, B("4 states, 6 trials, fixed outcomes")) { trials(1, 2 | 8, "searchStrategy lrtdp terminateRegretBound 0.25", 4, false); }
SYM_CASE(scc_lrtdp, B("5 states, 4 trials, fixed outcomes, with lower bound")) { trials(2, 1 | 4, "searchStrategy lrtdp terminateRegretBound 0.5 maintainLowerBound 1", 3, false); }
SYM_CASE(tree_lrtdp, B("5 states, 2 trials, any outcomes")) { trials(3, 1 | 2, "searchStrategy lrtdp terminateRegretBound 0.5", 2, true); }
SYM_CASE(loop_hdp, B("3 states, 5 trials")) { trials(0, 1 | 4, "searchStrategy hdp terminateRegretBound 0.25", 8, false); }
SYM_CASE(goal_hdp, B("4 states, 8 trials, with lower bound")) { trials(1, 2 | 8, "searchStrategy hdp terminateRegretBound 0.25 maintainLowerBound 1", 8, false); }
SYM_CASE(scc_hdp, B("5 states, 8 trials")) { trials(2, 1 | 8, "searchStrategy hdp terminateRegretBound 0.25", 8, false); }
SYM_CASE(tree_hdp, B("5 states, 4 trials")) { trials(3, 1 | 4, "searchStrategy hdp terminateRegretBound 0.25", 4, false); }
#define G(x) "5 states, every choice of where " x ", one symbolic reward, own initial bounds"
SYM_CASE(shapes_hdp, G("4 of the moves lead, 4 trials")) { trialsm(zshapes(0x95), "searchStrategy hdp terminateRegretBound 1 maintainLowerBound 1", 4, false); }
SYM_CASE(shapes_frtdp, G("2 of the moves lead, 1 trial")) { trialsm(zshapes(0x06), "searchStrategy frtdp terminateRegretBound 1", 1, false); }
SYM_CASE(shapes_hsvi, G("3 of the moves lead, 6 trials")) { trialsm(zshapes(0x0b), "searchStrategy hsvi terminateRegretBound 1", 6, false); }
// from any valid bounds some history could have left: ub >= V*, ub >= its own lookahead, and likewise below
static void anyBounds(int fam, const char *opts, bool freeRand) {
  ZModel m = zmfam(fam, 0);
  vec vs = zvstar(m);
  ZSolver *z = zmake(m.write("m.mdp"), opts); init(z);
  zexpand_all(z);
  bool hasL = z->p.maintainLowerBound;
  vec u(m.S, 0.0), l(m.S, 0.0);
  auto nodes = znodes(z->bp()->getRootNode());
  for (auto *n : nodes) if (!n->isTerminal) { int s = zsid(n->s); n->ubVal = u[s] = sym_doublef(vs[s], vs[s] + 8, "u%d", s); if (hasL) n->lbVal = l[s] = sym_doublef(vs[s] - 8, vs[s], "l%d", s); }
  for (auto *n : nodes) if (!n->isTerminal) { int s = zsid(n->s); for (int a = 0; a < m.A; a++) { sym_assume_le(zq(m, s, a, u), u[s]); n->Q[a].ubVal = u[s]; } if (hasL) { double b = zq(m, s, 0, l); for (int a = 1; a < m.A; a++) b = sym_max(b, zq(m, s, a, l)); sym_assume_le(l[s], b); } }
  if (!freeRand) script();
  if (z->p.searchStrategy == S_FRTDP) { FRTDP *f = (FRTDP *)z->core(); f->maxDepth = sym_thorough() ? 1 : 0; f->oldMaxDepth = 0; for (auto *n : nodes) f->getNodeHandler(*n); }
  Hist h; look(z, vs, h, "before the first trial");
  ztrial(z); look(z, vs, h, "after a trial"); sym_cover("trial");
}
#define A(x) x ", any valid bound values within 8 of the optimum at every state, one trial"
SYM_CASE(any_loop_frtdp, A("3 states, two states deep")) { anyBounds(0, "searchStrategy frtdp terminateRegretBound 4", false); }
SYM_CASE_THOROUGH(any_goal_frtdp, A("4 states, two states deep")) { anyBounds(1, "searchStrategy frtdp terminateRegretBound 4", false); }
SYM_CASE(any_loop_hsvi, A("3 states")) { anyBounds(0, "searchStrategy hsvi", false); }
SYM_CASE(any_goal_hsvi, A("4 states")) { anyBounds(1, "searchStrategy hsvi", false); }
SYM_CASE(any_tree_hsvi, A("5 states")) { anyBounds(3, "searchStrategy hsvi", false); }
SYM_CASE(any_tree_rtdp, A("5 states, any outcomes")) { anyBounds(3, "searchStrategy rtdp maintainLowerBound 1", true); }
SYM_CASE(any_goal_rtdp, A("4 states, fixed outcomes")) { anyBounds(1, "searchStrategy rtdp", false); }
SYM_CASE(any_tree_lrtdp, A("5 states, any outcomes")) { anyBounds(3, "searchStrategy lrtdp terminateRegretBound 1", true); }
SYM_CASE(any_goal_lrtdp, A("4 states, fixed outcomes")) { anyBounds(1, "searchStrategy lrtdp terminateRegretBound 1", false); }
SYM_CASE(any_loop_hdp, A("3 states")) { anyBounds(0, "searchStrategy hdp terminateRegretBound 1", false); }
SYM_CASE(any_goal_hdp, A("4 states")) { anyBounds(1, "searchStrategy hdp terminateRegretBound 1", false); }
SYM_CASE(any_scc_hdp, A("5 states")) { anyBounds(2, "searchStrategy hdp terminateRegretBound 1", false); }
