// P14: policy evaluation reports the discounted return of each simulated trial
#include "zh.h"
#include "mdp_fam.h"
#include "PolicyEvaluator.h"
#include "MDPExec.h"
#include "MDPSim.h"
#include "BoundPairExec.h"
#include "MaxPlanesLowerBound.h"
#include <map>
static const double TOL = 1e-7;
// executes a fixed policy of the state it is told about
struct TableExec : public MDPExec {
  std::vector<int> pi; int asked = 0; bool noisy = false;
  void setToInitialState(void) { currentState = mdp->getInitialState(); }
  int chooseAction(void) { asked++; return pi[zsid(currentState)]; }
  void advanceToNextState(int a, int o) { state_vector sp; mdp->getNextState(sp, currentState, a, o); currentState = sp; }
};
// executes actions by step number and last outcome, like a policy with a memory of its own
struct MemoryExec : public MDPExecCore {
  int A, pat, step, mem;
  void setToInitialState(void) { step = 0; mem = 0; }
  int act(int st, int me) { return (pat >> ((st * 2 + me) % 5) & 1) % A; }
  int chooseAction(void) { return act(step, mem); }
  void advanceToNextState(int, int o) { step++; mem = o & 1; }
};
struct Step { int s, a, o; };
typedef std::vector<Step> Trial;
// one trial by the model alone: rewards and transitions as written in the model file, outcomes by the random numbers drawn
struct Oracle {
  const ZModel &m; int steps; std::vector<int> *pi; MemoryExec *mem; size_t used = 0;
  Trial trial(const std::vector<double> &frac, bool *goal) {
    Trial t; int s = m.start, st = 0, me = 0; *goal = false;
    for (int j = 0; steps == 0 || j < steps; j++) {
      int a = pi ? (*pi)[s] : mem->act(st, me); if (used >= frac.size()) { used = (size_t)-1; return t; }
      double r = frac[used++], c = 0; int k = 0, nz = 0, pick = -1, last = -1, lastk = 0;
      for (int u = 0; u < m.S && pick < 0; u++) if (m.T[a][s][u] != 0) { c = c + m.T[a][s][u]; last = u; lastk = nz; if (r <= c) { pick = u; k = nz; } nz++; }
      if (pick < 0) { pick = last; k = lastk; }
      t.push_back({s, a, k}); s = pick; st++; me = k & 1; bool term = true; for (int b = 0; b < m.A; b++) if (m.T[b][s][s] != 1 || sym_is_symbolic(m.R[b][s]) || m.R[b][s] != 0) term = false;
      if (term) { *goal = true; break; }
    }
    return t;
  }
  double prob(const Step &e) { int nz = 0; for (int u = 0; u < m.S; u++) if (m.T[e.a][e.s][u] != 0) { if (nz == e.o) return m.T[e.a][e.s][u]; nz++; } return 0; }
  int outcomes(int s, int a) { int nz = 0; for (int u = 0; u < m.S; u++) nz += m.T[a][s][u] != 0; return nz; }
  // returns of a batch; with reweighting, the continuation of a step counts by the ratio of its probability to how often it was
  // drawn, if every outcome of that state and action was drawn in the batch
  vec returns(const std::vector<Trial> &b, bool reweight) {
    std::map<std::pair<int, int>, std::map<int, int>> n; for (auto &t : b) for (auto &e : t) n[{e.s, e.a}][e.o]++;
    vec r; for (auto &t : b) { double v = 0; for (int j = (int)t.size() - 1; j >= 0; j--) { auto &c = n[{t[j].s, t[j].a}]; double w = 1; if (reweight && (int)c.size() == outcomes(t[j].s, t[j].a)) { int sum = 0; for (auto &x : c) sum += x.second; w = prob(t[j]) * sum / c[t[j].o]; } v = m.R[t[j].a][t[j].s] + w * m.gamma * v; } r.push_back(v); }
    return r;
  }
};
static std::string opts(int cache, int trials, int steps) { return zfmt("searchStrategy frtdp useEvaluationCache %d evaluationTrialsPerEpoch %d evaluationMaxStepsPerTrial %d simulationTraceOutputFile %s scoresOutputFile %s", cache, trials, steps, zpath("sim").c_str(), zpath("scores").c_str()); }
// trials 1..30: one trial per batch; more: batches of several trials, the first 28 of them with fixed random numbers
static void evaluate(ZModel m, int cache, int trials, int steps, bool memory, bool identical, int pat, int scripted) {
  ZSolver *z = zmake(m.write("m.mdp"), opts(cache, trials, steps)); TableExec te; MemoryExec me; te.mdp = z->mdp(); for (int s = 0; s < m.S; s++) te.pi.push_back((pat >> s & 1) % m.A + (m.A > 2 && (pat >> (s + 1) & 3) == 3)); me.A = m.A; me.pat = pat;
  Oracle o{m, steps, memory ? NULL : &te.pi, memory ? &me : NULL}; int nb = std::min(trials, 30), per = trials / nb;
  std::vector<double> script; if (scripted) { unsigned x = 12345 + 77 * pat; for (int i = 0; i < trials * 40; i++) { x = x * 1103515245u + 12345u; script.push_back(((x >> 16) % 1024) / 1024.0); } Oracle q = o; q.used = 0; bool g; for (int i = 0; i < scripted; i++) { q.trial(script, &g); if (q.used == (size_t)-1) { sym_fail("script"); return; } } script.resize(q.used); sym_rand_script(script); }
  PolicyEvaluator e(z->mdp(), memory ? (MDPExecCore *)&me : (MDPExecCore *)&te, &z->config, identical); dvector rew; double succ; e.getRewardSamples(rew, succ, false);
  std::vector<double> log = sym_rand_log(); o.used = 0; sym_check((int)rew.size() == nb, "%d samples of %d batches", (int)rew.size(), nb); int goals = 0;
  for (int b = 0; b < nb; b++) {
    std::vector<Trial> ts; for (int i = 0; i < per; i++) { bool g; ts.push_back(o.trial(log, &g)); if (o.used == (size_t)-1) { sym_fail("trial %d of batch %d ended before a terminal state or the step limit", i, b); return; } goals += g; }
    vec r = o.returns(ts, cache); double avg = 0; for (double x : r) avg = avg + x; sym_check_eq(rew(b), avg / per, TOL, "return of batch %d", b);
  }
  sym_check(o.used == log.size(), "%d more random numbers were drawn than the trials need", (int)(log.size() - o.used)); sym_check_eq(succ, (double)goals / (nb * per), 1e-9, "share of trials that reached a terminal state"); sym_cover("evaluated");
}
static ZModel mod() { int k = sym_int("model", 0, NMFAM - 1); return zmfam(k, k == 0 ? 5 : k == 1 ? 9 : k == 2 ? 9 : 17); }
#define PAT sym_int("policy", 0, sym_thorough() ? 15 : 5) * (sym_thorough() ? 1 : 3)
SYM_CASE(steps_plain, "4 MDPs with 2 symbolic rewards, 6 policies (thorough 16), one trial of 3 (4) steps, any random numbers") { ZModel m = mod(); int p = PAT; evaluate(m, 0, 1, sym_thorough() ? 4 : 3, false, sym_bool("identical"), p, 0); }
SYM_CASE(steps_cache, "the same with cached outcomes") { ZModel m = mod(); int p = PAT; evaluate(m, 1, 1, sym_thorough() ? 4 : 3, false, sym_bool("identical"), p, 0); }
SYM_CASE(two_trials, "2 trials of 2 (thorough 3) steps, in batches of their own, with and without cache") { ZModel m = mod(); int p = PAT; evaluate(m, sym_bool("cache"), 2, sym_thorough() ? 3 : 2, false, true, p, 0); }
SYM_CASE(until_goal, "no step limit: an episodic MDP, any random numbers, with and without cache") { int p = PAT; evaluate(mdp_tree(17), sym_bool("cache"), sym_int("trials", 1, 2), 0, false, sym_bool("identical"), p, 0); }
SYM_CASE(batches, "30 batches of 2 trials of 2 steps, symbolic rewards, fixed random numbers but any in the last batch") { ZModel m = mod(); int p = PAT; evaluate(m, sym_bool("cache"), 60, 2, false, true, p, 58); }
SYM_CASE(big_batches, "30 batches of 5 trials of 4 steps, symbolic rewards, fixed random numbers but any in the last trial") { ZModel m = mod(); int p = PAT; evaluate(m, sym_bool("cache"), 150, 4, false, sym_bool("identical"), p, 149); }
SYM_CASE(rounded, "an MDP whose outcome probabilities add up to one only up to rounding, 2 symbolic rewards: 30 batches of 4-6 trials of 3 steps, fixed random numbers") {
  ZModel m = mdp_base(4, 2, 0.5); static const double Q[3][3] = {{0.7, 0.2, 0.1}, {0.1, 0.7, 0.2}, {0.15, 0.05, 0.8}}; int k = sym_int("order", 0, 2);
  for (int s = 0; s < 4; s++) for (int a = 0; a < 2; a++) { for (int t = 0; t < 3; t++) m.T[a][s][(s + 1 + t) % 4] = Q[(k + a) % 3][t]; m.R[a][s] = 1 + s - 2 * a; } m.R[0][0] = sym_double("r00", 1, 4); m.R[1][2] = sym_double("r12", -5, -1);
  int per = sym_int("trials per batch", 4, 6); evaluate(m, 1, 30 * per, 3, false, true, sym_int("policy", 0, 3) * 5, 30 * per);
}
SYM_CASE(memory, "a policy that acts on its own memory, planned without the simulated model: 2 trials of 2 steps, with and without cache") { ZModel m = mod(); evaluate(m, sym_bool("cache"), 2, sym_thorough() ? 3 : 2, true, false, sym_int("memory policy", 0, 31), 0); }
SYM_CASE(first_step, "an MDP that may reach its terminal state with any action, the first one included: 1-2 trials of at most 1, 2 steps or without limit, any random numbers, with and without cache") {
  ZModel m = mdp_base(3, 2, 0.5); m.start = 0; double q = sym_bool("likely") ? 0.75 : 0.25;
  m.T[0][0][2] = q; m.T[0][0][1] = 1 - q; m.T[1][0][2] = 1; m.T[0][1][2] = q; m.T[0][1][0] = 1 - q; m.T[1][1][1] = 0.5; m.T[1][1][2] = 0.5;
  for (int a = 0; a < 2; a++) { m.T[a][2][2] = 1; m.R[a][2] = 0; m.R[a][0] = 1 + a; m.R[a][1] = 2 - 5 * a; } m.R[0][0] = sym_double("r00", 1, 4); m.R[1][1] = sym_double("r11", -5, -1);
  int p = sym_int("policy", 0, 3), steps = sym_int("step limit", 1, 2), c = sym_bool("cache"); evaluate(m, c, sym_int("trials", 1, 2), steps, false, sym_bool("identical"), p, 0);
}
