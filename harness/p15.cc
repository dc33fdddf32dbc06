// P15: outcomes are sampled according to the model's probabilities
#include "zh.h"
#include "pomdp_fam.h"
#include "mdp_fam.h"
#include "MDPSim.h"
#include "MDPExec.h"
#include "BoundPairExec.h"
#include "BoundPairCore.h"
// the outcome o sampled with random number r must be possible and its cumulative interval must contain r
struct MDPExecProbe : public BoundPairExec { };
static void judge(const vec &p, double r, int o, const char *what) {
  int n = p.size(); sym_check(o >= 0 && o < n, "%s: outcome %d of %d", what, o, n); if (o < 0 || o >= n) return;
  sym_check(sym_is_symbolic(p[o]) || p[o] > 0, "%s: outcome %d of probability zero", what, o);
  double lo = 0; for (int i = 0; i < o; i++) lo = lo + p[i]; double hi = lo + p[o]; bool later = false; for (int i = o + 1; i < n; i++) if (sym_is_symbolic(p[i]) || p[i] > 0) later = true;
  sym_check_le(lo, r, 1e-9, "%s: outcome %d starts above the random number", what, o); if (later) sym_check_le(r, hi, 1e-9, "%s: outcome %d ends below the random number", what, o); else sym_check_le(r, hi, 2e-5, "%s: outcome %d ends below the random number", what, o);
}
static vec dist(int n, int supp, double missing) {   // symbolic probabilities, at least 1e-4 where possible at all; summing to 1 - missing
  vec b(n, 0.0); double rest = 1 - missing; int last = -1; for (int i = 0; i < n; i++) if (supp >> i & 1) last = i;
  for (int i = 0; i < last; i++) if (supp >> i & 1) { b[i] = sym_doublef(1e-4, 1, "p%d", i); rest = rest - b[i]; }
  b[last] = rest; sym_assume_le(1e-4, rest); return b;
}
static void direct(bool sparse, double missing) {
  int n = sym_int("size", 1, sym_thorough() ? 5 : 4), supp = sym_int("support", 1, (1 << n) - 1); vec p = dist(n, supp, missing);
  dvector d; cvector c; d.resize(n); c.resize(n); for (int i = 0; i < n; i++) { d(i) = p[i]; if (supp >> i & 1) c.push_back(i, p[i]); }
  int o = sparse ? chooseFromDistribution(c) : chooseFromDistribution(d); std::vector<double> l = sym_rand_log(); sym_check(l.size() == 1, "%d random numbers drawn", (int)l.size());
  judge(p, l[0], o, "distribution"); sym_cover("chosen");
}
SYM_CASE(dense, "1-4 (thorough 5) outcomes, every support, any probabilities, any random number including 0 and 1") { direct(false, 0); }
SYM_CASE(sparse, "the same for sparse vectors") { direct(true, 0); }
SYM_CASE(dense_short, "probabilities that sum to up to 1e-5 less than one, as the model parsers accept") { direct(false, sym_double("missing", 0, 1e-5)); }
SYM_CASE(sparse_short, "the same for sparse vectors") { direct(true, sym_double("missing", 0, 1e-5)); }
// the simulated outcome of a search step: one node with edges
SYM_CASE(search_step, "1-4 (thorough 5) outcomes, every support, any probabilities that sum to one or up to 1e-5 less, any random number") {
  int n = sym_int("size", 1, sym_thorough() ? 5 : 4), supp = sym_int("support", 1, (1 << n) - 1); vec p = dist(n, supp, sym_bool("short") ? sym_double("missing", 0, 1e-5) : 0.0);
  MDPNode cn; cn.Q.resize(2); MDPQEntry &q = cn.Q[1]; q.outcomes.resize(n, NULL); MDPNode sn; for (int i = 0; i < n; i++) if (supp >> i & 1) { q.outcomes[i] = new MDPEdge(); q.outcomes[i]->obsProb = p[i]; q.outcomes[i]->nextState = &sn; }
  int o = BoundPairCore::getSimulatedOutcome(cn, 1); std::vector<double> l = sym_rand_log(); sym_check(l.size() == 1, "%d random numbers drawn", (int)l.size()); judge(p, l[0], o, "search step"); sym_check(o < n && q.outcomes[o] != NULL, "impossible outcome"); sym_cover("simulated");
}
// a simulation step samples from the model's outcome distribution at the current state
static void stepFrom(MDP *m, MDPSim &sim, bool pick) {
  state_vector s = sim.state; int a = sym_int("action", 0, m->getNumActions() - 1); outcome_prob_vector opv; m->getOutcomeProbVector(opv, s, a); size_t before = sym_rand_log().size();
  vec p; for (size_t i = 0; i < opv.size(); i++) p.push_back(opv(i));
  if (pick) { MDPExecProbe e; e.mdp = m; e.currentState = s; int o = e.getRandomOutcome(a); judge(p, sym_rand_log().back(), o, "outcome drawn for execution"); before++; }
  sim.performAction(a);
  std::vector<double> l = sym_rand_log(); sym_check(l.size() == before + 1, "one random number per step"); judge(p, l.back(), sim.lastOutcomeIndex, "simulation step");
  state_vector sp; m->getNextState(sp, s, a, sim.lastOutcomeIndex); for (size_t i = 0; i < sp.size(); i++) sym_check_eq(sim.state(i), sp(i), 1e-9, "next state element %d after outcome %d", (int)i, sim.lastOutcomeIndex);
}
SYM_CASE(sim_pomdp, "4 small models, two steps from the initial belief or one from any belief, any action, any random number") {
  ZModel m = zfam(sym_int("model", 0, NFAM - 1), 0); ZSolver *z = zmake(m.write("m.pomdp"), "searchStrategy hsvi"); MDPSim sim(z->mdp()); bool any = sym_bool("any belief");
  if (any) { sim.state = zbelief(zsimplex(m.S, "b")); stepFrom(z->mdp(), sim, true); } else for (int k = 0; k < (sym_thorough() ? 3 : 2) && !sim.terminated; k++) stepFrom(z->mdp(), sim, k == 0);
  sym_cover("simulated");
}
SYM_CASE(sim_mdp, "4 small MDPs, any probabilities of one state, two steps (thorough three), any actions and random numbers") {
  ZModel m = zmfam(sym_int("model", 0, NMFAM - 1), 0); int s = sym_int("state", 0, m.S - 1); vec p = zsimplex(m.S, "p", s == m.S - 1 ? 7 : 11 << (s % 2)); for (double x : p) if (sym_is_symbolic(x)) sym_assume_le(1e-6, x); m.T[0][s] = p; m.start = s;
  ZSolver *z = zmake(m.write("m.mdp"), "searchStrategy frtdp"); MDPSim sim(z->mdp()); for (int k = 0; k < (sym_thorough() ? 3 : 2) && !sim.terminated; k++) stepFrom(z->mdp(), sim, k == 0);
  sym_cover("simulated");
}
