#include "mdp_fam.h"
// property P11: a search that says it is finished is within the requested precision
static const double TOL = 1e-6;
static void script() { std::vector<double> s; for (int i = 0; i < 6000; i++) s.push_back((i * 7 % 11) / 11.0 + 0.02); sym_rand_script(s); }
static bool solved(ZSolver *z, MDPNode *n) { return z->p.searchStrategy == S_HDP ? ((HDPExtraNodeData *)n->searchData)->isSolved : ((LRTDPExtraNodeData *)n->searchData)->isSolved; }
static vec stored(ZSolver *z, const ZModel &m) { vec u(m.S, 0.0); for (auto *n : znodes(z->bp()->getRootNode())) u[zsid(n->s)] = n->ubVal; return u; }
// states labelled solved satisfy the residual criterion, closed under their greedy action
static void labels(ZSolver *z, const ZModel &m, double eps) {
  vec u = stored(z, m);
  for (auto *n : znodes(z->bp()->getRootNode())) if (!n->isTerminal && solved(z, n)) {
    int s = zsid(n->s), a = BoundPairCore::getMaxUBAction(*n);
    double best = zq(m, s, 0, u); for (int b = 1; b < m.A; b++) best = sym_max(best, zq(m, s, b, u));
    sym_check_eq(zq(m, s, a, u), best, TOL, "the greedy action of solved state %d is not a best one", s);
    sym_check_eq(u[s], best, eps + TOL, "solved state %d has a residual above the limit", s);
    for (auto *e : n->Q[a].outcomes) if (e) sym_check(e->nextState->isTerminal || solved(z, e->nextState), "solved state %d can reach unsolved state %d under its greedy action", s, zsid(e->nextState->s));
    sym_cover("solved state");
  }
}
static void runm(ZModel m, const char *opts, double eps, int n, bool freeRand, int start);
static void run(int fam, int sel, const char *opts, double eps, int n, bool freeRand = false, int start = 0) { ZModel m = zmfam(fam, sel); m.start = start; runm(m, opts, eps, n, freeRand, start); }
static void shapes(int pick, const char *opts, double eps, int n) { runm(zshapes(pick), opts, eps, n, false, 0); }
static void runm(ZModel m, const char *opts, double eps, int n, bool freeRand, int start) {
  vec vs = zvstar(m);
  ZSolver *z = zinit(m.write("m.mdp"), zfmt("terminateRegretBound %g %s", eps, opts));
  bool label = z->p.searchStrategy == S_HDP || z->p.searchStrategy == S_LRTDP;
  if (!freeRand) script();
  if (sym_thorough()) n += 4;
  for (int k = 0; k < n; k++) {
    bool was = label && solved(z, z->bp()->getRootNode()), done = ztrial(z);
    MDPNode *r = z->bp()->getRootNode();
    if (was) { sym_check(done, "the start state is labelled solved but the search goes on"); sym_cover("solved start"); }
    if (label) { labels(z, m, eps); sym_check(done ? solved(z, r) : true, "finished although the start state is not labelled solved"); }
    else sym_check(done == (r->ubVal - r->lbVal < eps), "finished %d with the start state's interval on the other side of the limit", done);
    if (!done) continue;
    sym_cover("finished");
    sym_check_le(vs[start], r->ubVal, TOL, "finished: upper bound of the start state below its optimal value");
    if (z->p.maintainLowerBound) sym_check_le(r->lbVal, vs[start], TOL, "finished: lower bound of the start state above its optimal value");
    if (!label) { sym_check_le(vs[start], r->lbVal, eps, "finished: lower bound of the start state too far below its optimal value"); sym_check_le(r->ubVal, vs[start], eps, "finished: upper bound of the start state too far above its optimal value"); break; }
    sym_check_le(r->ubVal, vs[start], eps / (1 - m.gamma) + TOL, "finished: the start state's value is too far above the optimal value");
    // the greedy policy really collects it
    std::vector<int> pi(m.S, 0);
    for (auto *q : znodes(r)) if (!q->isTerminal && solved(z, q)) pi[zsid(q->s)] = BoundPairCore::getMaxUBAction(*q);
    vec v = zpolval(m, pi);
    if (!v.empty()) { sym_check_le(r->ubVal, v[start], eps / (1 - m.gamma) + TOL, "finished: the greedy policy is worse than the reported value by more than the precision"); sym_check_le(vs[start], v[start], eps / (1 - m.gamma) + TOL, "finished: the greedy policy is too far from optimal"); sym_cover("greedy policy"); }
    break;
  }
}
#define B(x) x ", symbolic rewards"
#define G(x) "5 states, every choice of where " x ", one symbolic reward"
SYM_CASE(shapes_hdp_a, G("4 of the moves lead, residual 1/2")) { shapes(0x0f, "searchStrategy hdp", 0.5, 12); }
SYM_CASE(shapes_hdp_b, G("4 of the moves lead, residual 1")) { shapes(0x95, "searchStrategy hdp", 1, 10); }
SYM_CASE_THOROUGH(shapes_hdp_c, G("5 of the moves lead, residual 2")) { shapes(0x3d, "searchStrategy hdp", 2, 10); }
SYM_CASE(shapes_frtdp, G("2 of the moves lead, precision 2")) { shapes(0x06, "searchStrategy frtdp", 2, 3); }
SYM_CASE(shapes_hsvi, G("3 of the moves lead, precision 2")) { shapes(0x0b, "searchStrategy hsvi", 2, 12); }
SYM_CASE(loop_frtdp, B("3 states, up to 4 trials, precision 1")) { run(0, 2 | 8, "searchStrategy frtdp", 1, 4); }
SYM_CASE(goal_frtdp, B("4 states, up to 4 trials, precision 2")) { run(1, 2, "searchStrategy frtdp", 2, 4); }
SYM_CASE(scc_frtdp, B("5 states, up to 3 trials, precision 4")) { run(2, 1, "searchStrategy frtdp", 4, 3); }
SYM_CASE(tree_frtdp, B("5 states, up to 4 trials, precision 1/2")) { run(3, 1 | 16, "searchStrategy frtdp", 0.5, 4); }
SYM_CASE(loop_hsvi, B("3 states, up to 16 trials, precision 3")) { run(0, 2 | 8, "searchStrategy hsvi", 3, 16); }
SYM_CASE(goal_hsvi, B("4 states, up to 16 trials, precision 2")) { run(1, 2 | 8, "searchStrategy hsvi", 2, 16); }
SYM_CASE(scc_hsvi, B("5 states, up to 12 trials, precision 2")) { run(2, 1 | 8, "searchStrategy hsvi", 2, 12); }
SYM_CASE(tree_hsvi, B("5 states, up to 12 trials, precision 1/2")) { run(3, 1 | 4, "searchStrategy hsvi", 0.5, 12); }
SYM_CASE(goal_lrtdp, B("4 states, up to 20 trials, residual 1/8, fixed outcomes")) { run(1, 2 | 8, "searchStrategy lrtdp", 0.125, 20); }
SYM_CASE(goal_lrtdp1, B("4 states, up to 8 trials, residual 1, fixed outcomes")) { run(1, 1 | 16, "searchStrategy lrtdp", 1, 8); }
SYM_CASE(scc_lrtdp, B("5 states, up to 10 trials, residual 1/4, fixed outcomes")) { run(2, 1 | 8, "searchStrategy lrtdp", 0.25, 10); }
SYM_CASE(tree_lrtdp, B("5 states, up to 3 trials, residual 1/2, any outcomes")) { run(3, 1 | 2, "searchStrategy lrtdp", 0.5, 3, true); }
SYM_CASE(loop_hdp, B("3 states, up to 16 trials, residual 1/4")) { run(0, 2 | 8, "searchStrategy hdp", 0.25, 16); }
SYM_CASE(loop_hdp1, B("3 states, up to 8 trials, residual 2, with lower bound")) { run(0, 1 | 4, "searchStrategy hdp maintainLowerBound 1", 2, 8); }
SYM_CASE(goal_hdp, B("4 states, up to 16 trials, residual 1/4")) { run(1, 2 | 8, "searchStrategy hdp", 0.25, 16); }
SYM_CASE(goal_hdp1, B("4 states, up to 8 trials, residual 1")) { run(1, 1 | 16, "searchStrategy hdp", 1, 8); }
SYM_CASE(scc_hdp, B("5 states, up to 16 trials, residual 1/2")) { run(2, 1 | 8, "searchStrategy hdp", 0.5, 16); }
SYM_CASE(scc_hdp3, B("5 states, up to 10 trials, residual 2, started at state 1")) { run(2, 2 | 4, "searchStrategy hdp", 2, 10, false, 1); }
SYM_CASE(tree_hdp, B("5 states, up to 8 trials, residual 1/4")) { run(3, 1 | 4, "searchStrategy hdp", 0.25, 8); }
// labelling from any upper bounds, so that deep searches are not needed: the labels the
// algorithms hand out satisfy the criterion whatever values they started from
static void anyBounds(int fam, const char *opts, double eps, int n, bool freeRand) {
  ZModel m = zmfam(fam, 0); m.start = 0;
  ZSolver *z = zinit(m.write("m.mdp"), zfmt("terminateRegretBound %g %s", eps, opts));
  zexpand_all(z);
  vec vs = zvstar(m), u(m.S, 0.0);
  auto nodes = znodes(z->bp()->getRootNode());
  for (auto *q : nodes) if (!q->isTerminal) { int s = zsid(q->s); q->ubVal = u[s] = sym_doublef(vs[s], vs[s] + 8, "u%d", s); }
  for (auto *q : nodes) if (!q->isTerminal) { int s = zsid(q->s); for (int a = 0; a < m.A; a++) { sym_assume_le(zq(m, s, a, u), u[s]); q->Q[a].ubVal = u[s]; } }
  if (!freeRand) script();
  for (int k = 0; k < n + (sym_thorough() ? 1 : 0); k++) { bool was = solved(z, z->bp()->getRootNode()), done = ztrial(z); labels(z, m, eps); sym_check(done || !was, "the start state is labelled solved but the search goes on"); if (done) { sym_cover("finished"); break; } }
}
#define A(x) x ", any valid upper bounds within 8 of the optimum at every state"
SYM_CASE(any_loop_hdp, A("3 states, 3 trials, residual 1")) { anyBounds(0, "searchStrategy hdp", 1, 3, false); }
SYM_CASE(any_goal_hdp, A("4 states, 3 trials, residual 1")) { anyBounds(1, "searchStrategy hdp", 1, 3, false); }
SYM_CASE(any_scc_hdp, A("5 states, 3 trials, residual 2")) { anyBounds(2, "searchStrategy hdp", 2, 3, false); }
SYM_CASE(any_tree_hdp, A("5 states, 3 trials, residual 1")) { anyBounds(3, "searchStrategy hdp", 1, 3, false); }
SYM_CASE(any_goal_lrtdp, A("4 states, 2 trials, residual 1, fixed outcomes")) { anyBounds(1, "searchStrategy lrtdp", 1, 2, false); }
SYM_CASE(any_scc_lrtdp, A("5 states, 2 trials, residual 2, fixed outcomes")) { anyBounds(2, "searchStrategy lrtdp", 2, 2, false); }
SYM_CASE(any_tree_lrtdp, A("5 states, 2 trials, residual 1, any outcomes")) { anyBounds(3, "searchStrategy lrtdp", 1, 2, true); }
