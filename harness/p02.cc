#include "pomdp_fam.h"
// property P02: lower bound <= optimal value <= upper bound at every belief, after any updates
static const double IP = 1e-2;      // terminateRegretBound used; initialisers stop at 1e-2 of it
static void bracket(const ZModel &m, ZSolver *z, const vec &b, int depth, const std::vector<vec> &lo, const std::vector<vec> &hi, double tol, const char *when) {
  ValueInterval v = z->bp()->getValueAt(zbelief(b));
  sym_check_le(v.l, v.u, tol, "%s: lower bound above upper bound", when);
  sym_check_le(v.l, zlook(m, b, depth, hi), tol, "%s: lower bound above the optimal value", when);
  sym_check_le(zlook(m, b, depth, lo), v.u, tol, "%s: upper bound below the optimal value", when);
}
static void run(int fam, int sel, double g, const char *opts, int steps, int maxNodes, int depth) {
  ZModel m = zfam(fam, sel, g);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string("searchStrategy hsvi terminateRegretBound 0.01 ") + opts);
  std::vector<vec> lo = zblind(m), hi = {zmdp_ub(m, 2)};
  double tol = 1e-4 / (1 - g) + 1e-6;
  bracket(m, z, m.b0, depth, lo, hi, tol, "initially");
  for (int k = 0; k < steps; k++) { char nm[16]; snprintf(nm, sizeof nm, "node%d", k); zstep(z, k == 0 ? 1 : maxNodes, nm); }
  sym_cover("updated");
  auto nodes = znodes(z->bp()->getRootNode());
  for (size_t i = 0; i < nodes.size() && i < 8; i++) {
    vec b = zdense(nodes[i]->s);
    bracket(m, z, b, i ? depth - 1 : depth, lo, hi, tol, "after updates");
    sym_check_le(nodes[i]->lbVal, zlook(m, b, depth - 1, hi), tol, "node lower bound above the optimal value");
    sym_check_le(zlook(m, b, depth - 1, lo), nodes[i]->ubVal, tol, "node upper bound below the optimal value");
    // inductive step: LB <= H LB everywhere implies LB <= V*
    double h = z->bp()->getQValue(nodes[i]->s, 0).l; for (int a = 1; a < m.A; a++) h = sym_max(h, z->bp()->getQValue(nodes[i]->s, a).l);
    sym_check_le(z->bp()->getValueAt(nodes[i]->s).l, h, tol, "lower bound above its own one-step lookahead");
  }
}
#define GRID "rewards: 2 symbolic (all real values in the range), every sequence of 2 node updates among the first nodes, all beliefs reached; horizon-3 oracle"
SYM_CASE(tiger, "tiger-like POMDP, gamma 1/2; " GRID) { run(0, 6, 0.5, "", 2, 6, 3); }
SYM_CASE(goal, "3 states + absorbing goal; " GRID) { run(1, 6, 0.5, "", 2, 4, 3); }
SYM_CASE(sparse, "4 states, sparse beliefs; " GRID) { run(2, 9, 0.5, "", 2, 4, 3); }
SYM_CASE(costs, "2 states, 3 observations, all rewards negative; " GRID) { run(3, 4, 0.5, "", 2, 4, 2); }
// ---- updates at beliefs of every kind of support, with every combination of the bound options
static ZModel fam_supports(int sym, double lo, double hi, double g) {
  ZModel m(4, 2, 2, g);
  m.T[0] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
  m.T[1] = {{0.5, 0.5, 0, 0}, {0, 0.5, 0.5, 0}, {0, 0, 0.5, 0.5}, {0.5, 0, 0, 0.5}};
  m.Z[0] = {{1, 0}, {0.5, 0.5}, {0, 1}, {0.5, 0.5}};
  m.Z[1] = {{1, 0}, {1, 0}, {1, 0}, {0, 1}};   // observation 1 cannot follow from most supports
  m.R[0] = {zr(sym & 1, -2, 1, "r00"), zr(sym & 2, -1, 0.75, "r01"), -3, -2};
  m.R[1] = {-1.5, -1, zr(sym & 4, -2, 1.5, "r12"), -1};
  m.b0 = {0.5, 0.5, 0, 0}; (void)lo; (void)hi; return m;
}
static const std::vector<vec> BELIEFS = {{0.5, 0.5, 0, 0}, {0.5, 0, 0.5, 0}, {0, 0.25, 0.75, 0}, {1, 0, 0, 0}, {0, 0, 1, 0}, {0.5, 0.25, 0.25, 0}, {0.25, 0.25, 0.25, 0.25}, {0, 0, 0.5, 0.5}, {0.5, 0, 0, 0.5}};
static void supports(int sym, const char *opts, int steps, unsigned supp, int nb = 9, double g = 0.5) {
  ZModel m = fam_supports(sym, 0, 0, g);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string("searchStrategy hsvi terminateRegretBound 0.01 ") + opts);
  std::vector<vec> lo = zblind(m), hi = {zmdp_ub(m, 3)}; double tol = 1e-4 / (1 - g) + 1e-6; int a;
  if (sym_thorough()) steps++;
  // two beliefs, updated alternately: every ordered pair
  int i = sym_int("belief1", 0, nb - 1), j = sym_int("belief2", 0, nb - 1); if (i == j) sym_assume(false);
  MDPNode *n[2] = {z->bp()->getNode(zbelief(BELIEFS[i])), z->bp()->getNode(zbelief(BELIEFS[j]))};
  for (int k = 0; k < steps; k++) { z->bp()->update(*n[k & 1], &a); for (auto *x : n) { vec b = zdense(x->s); sym_check_le(x->lbVal, zlook(m, b, 2, hi), tol, "node lower bound above the optimal value"); sym_check_le(zlook(m, b, 2, lo), x->ubVal, tol, "node upper bound below the optimal value"); } }
  std::vector<vec> q; if (supp) q.push_back(zsimplex(4, "b", supp)); else { q = BELIEFS; q.push_back({0, 1, 0, 0}); q.push_back({0, 0, 0, 1}); }
  for (auto &b : q) {
    bracket(m, z, b, supp ? 1 : 2, lo, hi, tol, "after updates");
    if (!supp) { double h = z->bp()->getQValue(zbelief(b), 0).l; for (int k = 1; k < m.A; k++) h = sym_max(h, z->bp()->getQValue(zbelief(b), k).l); sym_check_le(z->bp()->getValueAt(zbelief(b)).l, h, tol, "lower bound above its own one-step lookahead"); }
  }
  sym_cover("bracketed");
}
#define SUP "4 states, costs only, updates alternating between any two of 9 beliefs with 8 different supports; "
SYM_CASE(supports, SUP "one symbolic reward, lower bound also below its own lookahead at 11 beliefs") { supports(4, "", 3, 0, sym_thorough() ? 9 : 7); }
SYM_CASE(supports_nomask, SUP "masking and support lists off") { supports(4, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", 2, 0, sym_thorough() ? 9 : 7); }
SYM_CASE(supports_nolist, SUP "support lists off") { supports(1, "useMaxPlanesSupportList 0 useSawtoothSupportList 0", 3, 0, 6); }
SYM_CASE(supports_nocache, SUP "per-node cache off") { supports(2, "useMaxPlanesCache 0 useMaxPlanesExtraPruning 0", 2, 0); }
SYM_CASE(supports_q, SUP "fixed rewards, every query belief") { supports(0, "", 3, 0xF, 6); }
SYM_CASE(supports_qn, SUP "fixed rewards, masking off, every query belief") { supports(0, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", 2, 0xF, 6); }
