// P13: the action executed maximises the one-step lookahead under the bound the policy is based on; the tracked belief is the model's
#include "bound_oracle.h"
#include "mdp_fam.h"
#include "BoundPairExec.h"
#include "MDPSim.h"
static const double TOL = 1e-7;
#define BASE "searchStrategy hsvi terminateRegretBound 0.01 "
typedef double (*Val)(ZSolver *, const vec &);
static double lbv(ZSolver *z, const vec &b) { bool any; double v = zlb_oracle(zmlb(z), b, &any); sym_check(any, "no applicable plane at a successor belief"); return v; }
static double ubv(ZSolver *z, const vec &b) { return zub_oracle(zsub(z), b); }
static double look(const ZModel &m, const vec &b, int a, Val val, ZSolver *z) {
  double q = zrew(m, b, a);
  for (int o = 0; o < m.O; o++) { vec u; double p = zobs(m, b, a, o, u); if (!sym_is_symbolic(p) && p == 0) continue; if (sym_is_symbolic(p)) { if (p <= 1e-9) continue; } for (auto &x : u) x = x / p; q += m.gamma * p * val(z, u); }
  return q;
}
static void greedy(const ZModel &m, ZSolver *z, const vec &b, int a, Val v, const char *w) {
  sym_check(a >= 0 && a < m.A, "%s: action %d", w, a); if (a < 0 || a >= m.A) return;
  double mine = look(m, b, a, v, z); for (int k = 0; k < m.A; k++) if (k != a) sym_check_le(look(m, b, k, v, z), mine, TOL, "%s: action %d has a better lookahead than the chosen action %d", w, k, a);
  sym_cover("greedy");
}
static void sameBelief(const vec &want, const belief_vector &got, const char *w) { vec g = zdense(got); sym_check(g.size() == want.size(), "%s: belief of %d states", w, (int)g.size()); for (size_t s = 0; s < want.size() && s < g.size(); s++) sym_check_eq(g[s], want[s], 1e-6, "%s: belief in state %d", w, (int)s); }
static vec succ(const ZModel &m, const vec &b, int a, int o) { vec u; double p = zobs(m, b, a, o, u); for (auto &x : u) x = x / p; return u; }
// the solver's own choice, after updates
static void solver(int fam, int sel, const char *opts, int steps, bool upper, bool query) {
  ZModel m = zfam(fam, sel); ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE) + opts + (upper ? " runTimeActionSelection upper" : "")); vec b; if (query) { b = zsimplex(m.S, "b", m.S == 4 && sym_bool("face") ? 11 : m.S == 3 && sym_bool("face") ? 6 : ~0u); for (double x : b) if (sym_is_symbolic(x)) sym_assume_le(1e-4, x); }
  if (sym_thorough()) steps++;
  z->bp()->getRootNode(); for (int k = 0; k < steps; k++) zstep(z, k == 0 ? 1 : sym_thorough() ? 4 : 3, zfmt("node%d", k).c_str());
  BoundPairExec e; e.init(z->mdp(), (BoundPair *)z->bp());
  if (query) { e.setBelief(zbelief(b)); greedy(m, z, b, e.chooseAction(), upper ? ubv : lbv, "executed action"); sym_check(z->so.solver->chooseAction(zbelief(b)) == e.bounds->chooseAction(zbelief(b)), "solver and executive choose differently"); return; }
  e.setToInitialState(); sameBelief(m.b0, e.currentState, "initial belief"); greedy(m, z, m.b0, e.chooseAction(), upper ? ubv : lbv, "first action");
  auto n = znodes(z->bp()->getRootNode()); int i = sym_int("at", 0, std::min((int)n.size(), sym_thorough() ? 6 : 3) - 1); vec at = zdense(n[i]->s); greedy(m, z, at, z->bp()->chooseAction(n[i]->s), upper ? ubv : lbv, "action at a visited belief");
}
static int pick(int f) { if (sym_thorough()) return f == 2 ? 9 : 6; bool k = sym_bool("which"); return f == 2 ? (k ? 8 : 1) : (k ? 4 : 2); }
#define L "any value of either of 2 rewards (thorough: of both), every sequence of 2 (thorough 3) updates, initial and visited beliefs"
#define Q "fixed rewards, every sequence of 3 (thorough 4; upper bound likewise) updates, every belief of the whole simplex or one face"
SYM_CASE(lower, L) { int f = sym_int("family", 0, 3); solver(f, pick(f), "", 2, false, false); }
SYM_CASE(upper, L "; selection by the upper bound") { int f = sym_int("family", 0, 3); solver(f, pick(f), "", 2, true, false); }
SYM_CASE(lower_q, Q) { solver(sym_int("family", 0, 3), 0, "", 3, false, true); }
SYM_CASE(upper_q, Q "; selection by the upper bound") { int f = sym_int("family", 0, 2); solver(f == 2 ? 3 : f, 0, "", 3, true, true); }
// an executive that loads its policy from a file and tracks its own belief
static ZSolver *wrap(BoundPairExec &e) { ZSolver *z = new ZSolver(); z->so.problem = e.mdp; z->so.bounds = e.bounds; return z; }
static void exec(int fam, bool symB, bool symV, int steps) {
  ZModel m = zfam(fam, 0); if (symB) { m.b0 = zsimplex(m.S, "b", fam == 2 ? 7 : ~0u); for (double x : m.b0) if (sym_is_symbolic(x)) sym_assume_le(1e-4, x); }
  std::string t = "# policy\n{\n  policyType => \"MaxPlanesLowerBound\",\n  numPlanes => 3,\n  planes => [\n";
  for (int k = 0; k < 3; k++) { t += zfmt("    {\n      action => %d,\n      numEntries => %d,\n      entries => [\n", k % m.A, m.S); for (int s = 0; s < m.S; s++) t += zfmt("        %d, ", s) + sym_text(symV && k < 2 && s == k ? sym_double(zfmt("v%d", k).c_str(), -4, 16) : ((k * 7 + s * 5) % 9) - 3.5) + (s < m.S - 1 ? "," : "") + "\n"; t += zfmt("      ]\n    }%s\n", k < 2 ? "," : ""); }
  t += "  ]\n}\n"; std::string pf = zpath("in.policy"); zwrite(pf, t); std::string mf = m.write("m.pomdp"); ZSolver *c = new ZSolver(); zconfig(c->config); c->config.setString("policyType", "maxPlanes"); c->config.setBool("useFastModelParser", sym_bool("fast parser"));
  BoundPairExec e; e.initReadFiles(mf, pf, c->config); ZSolver *z = wrap(e); e.setToInitialState(); vec b = m.b0; sameBelief(b, e.currentState, "initial belief");
  for (int k = 0; k < steps; k++) {
    int a = e.chooseAction(); greedy(m, z, b, a, lbv, "executed action"); if (a < 0 || a >= m.A) return;
    // any action may be carried out and any possible outcome observed
    if (sym_bool(zfmt("other%d", k).c_str())) a = (a + 1) % m.A; std::vector<int> os; for (int o = 0; o < m.O; o++) { vec u; double p = zobs(m, b, a, o, u); if (sym_is_symbolic(p) || p > 0) os.push_back(o); }
    int o = os[os.size() > 1 ? sym_int(zfmt("outcome%d", k).c_str(), 0, os.size() - 1) : 0]; vec u; double p = zobs(m, b, a, o, u); sym_assume(p > 1e-6);
    b = succ(m, b, a, o); e.advanceToNextState(a, o); sameBelief(b, e.currentState, "tracked belief"); bool term = true; for (int s = 0; s < m.S; s++) if (!zterm(m, s) && (sym_is_symbolic(b[s]) || b[s] > 1e-9)) term = false;
    if (!symB) sym_check(e.getStateIsTerminal() == term, "terminal flag of the tracked belief");
    if (term) return;
  }
  sym_cover("executed");
}
SYM_CASE(file_fixed, "3 planes, fixed initial belief; every sequence of 4 (thorough 6) steps of the chosen or another action and any outcome; both parsers") { exec(sym_int("family", 0, 3), false, false, sym_thorough() ? 6 : 4); }
SYM_CASE(file_values, "2 symbolic plane values, every sequence of 2 (3) steps") { exec(sym_int("family", 0, 3), false, true, sym_thorough() ? 3 : 2); }
SYM_CASE(file_belief, "any initial belief, every sequence of 2 steps") { exec(sym_int("family", 0, 3), true, false, 2); }
// MDPs: point bounds
SYM_CASE(mdp, "4 small MDPs, any bound values at 2 states, every state, lower or upper bound") {
  int f = sym_int("model", 0, NMFAM - 1); ZModel m = zmfam(f, 0); bool upper = sym_bool("upper"); ZSolver *z = zinit(m.write("m.mdp"), zfmt("searchStrategy frtdp terminateRegretBound 0.01 runTimeActionSelection %s", upper ? "upper" : "lower")); z->bp()->getRootNode();
  std::vector<MDPNode *> n; { std::vector<MDPNode *> q = znodes(z->bp()->getRootNode()); for (int k = 0; k < 3; k++) { for (auto *x : q) if (x->isFringe() && !x->isTerminal) { int a; z->bp()->update(*x, &a); } q = znodes(z->bp()->getRootNode()); } n = q; }
  int k = 0; for (auto *x : n) if (!x->isTerminal && k < 2) { x->ubVal = sym_double(zfmt("u%d", k).c_str(), -9, 9); x->lbVal = sym_double(zfmt("l%d", k).c_str(), -9, 9); k++; }
  MDPNode *at = n[sym_int("at", 0, std::min((int)n.size(), 5) - 1)]; int s = (int)zdense(at->s)[0]; int a = z->bp()->chooseAction(at->s); sym_check(a >= 0 && a < m.A, "action %d", a); if (a < 0 || a >= m.A) return;
  std::vector<double> q; for (int c = 0; c < m.A; c++) { double e = 0; for (int t = 0; t < m.S; t++) if (m.T[c][s][t] != 0) { double v = 0; bool have = false; for (auto *x : n) if ((int)zdense(x->s)[0] == t) { v = upper ? x->ubVal : x->lbVal; have = true; } if (!have) return; e += m.T[c][s][t] * v; } q.push_back(m.R[c][s] + m.gamma * e); }
  for (int c = 0; c < m.A; c++) sym_check_le(q[c], q[a], TOL, "action %d has a better lookahead than the chosen action %d", c, a); sym_cover("greedy");
}
