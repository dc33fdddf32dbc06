// P29: runs stop when their limits say so, and report what happened
#include "run_h.h"
SYM_CASE(solve_time, "4 small POMDPs, any of 4 searches, no target: any time limit up to 4 trials, with and without a policy file") { int k = sym_int("model", 0, 3), o = sym_int("search", 0, 3); double T = sym_double("limit", 0.5, 45); solve(pm(k), POM[o], T, -sym_int("backups", 0, 1), -1, sym_bool("policy"), 8, 10); }
SYM_CASE(solve_target, "4 small POMDPs, any of 4 searches: any precision, and no or a long time limit") { int k = sym_int("model", 0, 3), o = sym_int("search", 0, 3); double p = sym_double("precision", 0.5, 40); bool lim = sym_bool("limit"); solve(pm(k), POM[o], lim ? 2000 : -1, -1, p, sym_bool("policy"), 100, 50); }
SYM_CASE(solve_backups, "4 small POMDPs or MDPs, any search: any backup limit from -3 to 12, together with any time limit") { bool mdp = sym_bool("mdp"); int k = sym_int("model", 0, 3), o = sym_int("search", 0, mdp ? 4 : 3); int nb = sym_int("backups", -3, 12); double T = sym_double("limit", 5, 45); solve(mdp ? mm(k, o) : pm(k), mdp ? MOP[o] : POM[o], T, nb, -1, true, 8, 10); }
SYM_CASE(solve_mdp, "4 small MDPs, any search: any precision and any time limit, none if not positive") { int k = sym_int("model", 0, 3), o = sym_int("search", 0, 4); double p = sym_double("precision", 0.5, 10), T = sym_double("limit", -20, 100); solve(mm(k, o), MOP[o], T, 0, p, true, 300, 10); }
SYM_CASE(solve_reward, "a POMDP with any one reward and any one precision") { ZModel m = fam_tiger(2); double p = sym_double("precision", 4, 16); solve(m, POM[sym_int("search", 0, 1)], 25, 3, p, false, 8, 10); }
// ---- zmdp benchmark
// (the run is made twice, so that the second one meets no new case distinction: its files then belong to one path)
static void bench(ZModel m, const std::string &opts, double T, double prec, double tl, double tu, double first, double ticks, int cap, double step, bool wantPolicy) {
  Setup *s = NULL;
  for (int pass = 0; pass < 2; pass++) {
    start(step, cap); MOVE = false; std::string f = m.write(m.mdp ? "m.mdp" : "m.pomdp");
    s = setup(f, opts); s->c.setString("command", "benchmark"); s->c.setDouble("terminateWallclockSeconds", T); s->c.setDouble("terminateRegretBound", prec); s->c.setDouble("terminateLowerBoundValue", tl); s->c.setDouble("terminateUpperBoundValue", tu); s->c.setDouble("evaluationFirstEpochWallclockSeconds", first); s->c.setDouble("evaluationEpochsPerMagnitude", ticks);
    s->c.setInt("evaluationTrialsPerEpoch", 3); s->c.setInt("evaluationMaxStepsPerTrial", 2); s->c.setString("policyOutputFile", wantPolicy ? s->policy : "none");
    doBenchmark(s->c); fflush(stdout);
  }
  zlabel = labels(opts); int n = CALLS.size(); sym_check(n >= 1 && FINISHED == 1, "%d trials, logs closed %d times", n, FINISHED); if (!n) return; bool both = LB && UB;
  std::vector<vec> inc = rows(s->c.getString("evaluationOutputFile")), bd = rows(s->c.getString("boundsOutputFile")); size_t e = 0; double lastT = -1;
  sym_check(bd.size() == (size_t)n, "%d lines in the bounds log for %d trials", (int)bd.size(), n);
  for (int i = 0; i < n; i++) {
    const Call &c = CALLS[i]; bool last = i == n - 1; double t = step * (i + 1);
    bool why = c.done || (T > 0 && t >= T - 1e-3) || (both && prec > 0 && c.ub - c.lb <= prec + 1e-9) || (LB && tl != -999 && c.lb >= tl - 1e-9) || (UB && tu != -999 && c.ub <= tu + 1e-9);
    bool must = c.done || (T > 0 && t >= T + 1e-3) || (both && prec > 0 && c.ub - c.lb <= prec - 1e-9) || (LB && tl != -999 && c.lb >= tl + 1e-9) || (UB && tu != -999 && c.ub <= tu - 1e-9);
    if (c.done && both && !zlabel) sym_check_le(c.ub - c.lb, sym_max(prec, 1e-6), 1e-9, "trial %d: done although the regret is not bounded", i);
    if (last) { sym_check(why, "trial %d: stopped without reason", i); sym_cover(c.done ? "done" : "limit"); } else sym_check(!must, "trial %d: goes on although a limit is reached", i);
    if (i < (int)bd.size() && bd[i].size() == 7) { sym_check_eq(bd[i][1], c.lb, 1e-3, "bounds log: lower bound after trial %d", i); sym_check_eq(bd[i][2], c.ub, 1e-3, "bounds log: upper bound after trial %d", i); sym_check((int)bd[i][5] == i + 1, "bounds log: trial number"); sym_check((int)bd[i][6] == c.backups, "bounds log: backups"); } else sym_fail("bounds log: line %d missing or malformed", i);
    bool has = e < inc.size() && inc[e].size() == 5 && fabs(inc[e][0] - t) < 0.01 * t;
    if (last) sym_check(has, "no evaluation after the last trial");
    else { bool spaced = lastT < 0 || log(t) - log(lastT) > log(10) / ticks; if (has) { sym_check_le(first, t, 1e-3, "evaluation before its first time"); sym_check(lastT < 0 || log(t) - log(lastT) > log(10) / ticks - 1e-3, "evaluations too close"); sym_cover("epoch"); } else sym_check(!(spaced && t > first + 1e-3), "trial %d: evaluation left out", i); }
    if (has) { lastT = t; sym_check(inc[e][2] <= inc[e][1] + 1e-3 && inc[e][1] <= inc[e][3] + 1e-3, "evaluation line: mean outside its interval"); sym_check(inc[e][4] >= 0 && inc[e][4] <= 1, "success rate"); e++; }
  }
  sym_check(e == inc.size(), "%d evaluation lines, %d expected", (int)inc.size(), (int)e);
  bool canWrite = !m.mdp && LB && opts.find("Representation point") == std::string::npos; sym_check(there(s->policy) == (wantPolicy && canWrite), "policy file %s", there(s->policy) ? "written" : "not written");
}
static const double TICKS[] = {10, 3, 2};
SYM_CASE(bench_time, "2 POMDPs or MDPs, any search: any time limit up to 5 trials, any time of the first evaluation, 3 spacings") { bool mdp = sym_bool("mdp"); int k = sym_int("model", 0, 1), o = sym_int("search", 0, mdp ? 4 : 3); double T = sym_double("limit", 0.5, 55), first = sym_double("first", 0, 60); bench(mdp ? mm(k, o) : pm(k), mdp ? MOP[o] : POM[o], T, -1, -999, -999, first, TICKS[sym_int("spacing", 0, 2)], 10, 10, false); }
static void targets(int only) {   // 0 lower target, 1 upper target, 2 precision, 3 all
  bool mdp = sym_bool("mdp"); int o = sym_int("search", 0, 2); double p = only > 1 ? sym_double("precision", -1, 20) : -1, tl = only == 0 || (only == 3 && sym_bool("lower target")) ? sym_double("tl", -60, 20) : -999, tu = only == 1 || (only == 3 && sym_bool("upper target")) ? sym_double("tu", -60, 60) : -999;
  bench(mdp ? mm(1, o) : pm(1), mdp ? MOP[o] : POM[o], 85, p, tl, tu, 15, 10, 12, 10, sym_bool("policy"));
}
SYM_CASE(bench_lower, "a POMDP or MDP: any lower target, policy written or not") { targets(0); }
SYM_CASE(bench_upper, "a POMDP or MDP: any upper target, policy written or not") { targets(1); }
SYM_CASE(bench_precision, "a POMDP or MDP: any precision, policy written or not") { targets(2); }
SYM_CASE(bench_targets, "a POMDP or MDP: any precision, any lower and upper targets or none, policy written or not") { targets(3); }
SYM_CASE(bench_none, "no time limit if it is not positive: any other target ends the run") { double T = sym_double("limit", -10, 0), p = sym_double("precision", 1, 20); bench(sym_bool("mdp") ? mm(0, 0) : pm(3), POM[sym_int("search", 0, 1)], T, p, -999, -999, 1, 3, 100, 10, true); }
// ---- hints and evaluation limits
static ZModel stages(int S, double g, double a, double b) {   // S states visited in order, the last one absorbing and free
  ZModel m(S, 2, 2, g); for (int s = 0; s < S; s++) for (int k = 0; k < 2; k++) { if (s == S - 1) m.T[k][s][s] = 1; else if (k && s + 2 < S) { m.T[k][s][s + 1] = 0.5; m.T[k][s][s + 2] = 0.5; } else m.T[k][s][s + 1] = 1; m.R[k][s] = s == S - 1 ? 0 : s == 0 ? (k ? -2 : a) : (k ? b : 1); for (int o = 0; o < 2; o++) m.Z[k][s][o] = s == S - 1 ? (double)(o == 1) : (o == s % 2 ? 0.75 : 0.25); }
  m.b0[0] = 1; return m;
}
static void horizon(bool mdp, double g, int H, int S, double a, double b, const char *opts) {
  ZModel m = stages(S, g, a, b); if (mdp) { m.mdp = true; m.start = 0; m.O = 1; }
  std::vector<vec> zero = zconst(m, 0); ZSolver *z = zinit(m.write(mdp ? "m.mdp" : "m.pomdp"), zfmt("maxHorizon %d %s", H, opts)); MDPNode *r = z->bp()->getRootNode();
  double v; if (mdp) { vec u(S, 0.0); for (int k = 0; k < S; k++) { vec n(S, 0.0); for (int s = 0; s < S; s++) { double best = 0; for (int c = 0; c < 2; c++) { double q = m.R[c][s]; for (int t = 0; t < S; t++) if (m.T[c][s][t] != 0) q += g * m.T[c][s][t] * u[t]; best = c ? sym_max(best, q) : q; } n[s] = best; } u = n; } v = u[0]; } else v = zlook(m, m.b0, S - 1, zero);
  sym_check_le(r->lbVal, v, 1e-6, "lower bound above the optimal value with horizon %d", H); sym_check_le(v, r->ubVal, 1e-3, "upper bound below the optimal value with horizon %d", H);
}
SYM_CASE(horizon_hint, "processes that end after 2-3 steps, discount 1/2 or (with a hint) 1, any two rewards: initial bounds are valid with any hint from the true horizon up, and with every non-positive one") {
  bool mdp = sym_bool("mdp"); int S = sym_int("states", 3, 4); bool one = sym_bool("undiscounted"); int H = sym_int("hint", -2, S); if (H > 0 && H < S - 1) sym_end(); if (one && H <= 0) sym_end();
  double a = sym_double("a", -4, 4), b = sym_double("b", -4, 4); sym_assume_ge_gap(a, 0, 0.01); sym_assume_ge_gap(b, 0, 0.01); horizon(mdp, one ? 1 : 0.5, H, S, a, b, "searchStrategy hsvi ");
}
static void refusedRun(int code) { sym_check(code != 0, "refused with exit code 0"); sym_cover("refused"); }
SYM_CASE(horizon_needed, "an undiscounted POMDP without a positive horizon hint is refused") { double a = sym_double("a", 1, 4); sym_on_exit(refusedRun); int H = sym_int("hint", -2, 0); std::string f = stages(3, 1, a, 1).write("m.pomdp"); ZSolver *z = zmake(f, zfmt("maxHorizon %d", H)); sym_fail("accepted with hint %d", H); delete z; }
static void evalSteps(bool cache, int steps) {
  ZModel m = mdp_base(4, 1, 0.5); double r[3]; for (int s = 0; s < 3; s++) { m.T[0][s][s + 1] = 1; m.R[0][s] = r[s] = sym_double(zfmt("r%d", s).c_str(), 1, 9); } m.T[0][3][3] = 1;
  ZSolver *z = zinit(m.write("m.mdp"), zfmt("searchStrategy hsvi evaluationTrialsPerEpoch 2 evaluationMaxStepsPerTrial %d useEvaluationCache %d simulationTraceOutputFile ", steps, (int)cache) + zpath("t") + " scoresOutputFile " + zpath("s"));
  BoundPairExec exec; exec.init(z->mdp(), (BoundPair *)z->bp()); PolicyEvaluator ev(z->mdp(), &exec, &z->config, true); dvector rew; double ok; fixedRand(); if (!freopen("/dev/null", "w", stdout)) abort(); ev.getRewardSamples(rew, ok, false);
  int n = steps <= 0 || steps > 3 ? 3 : steps; double want = 0, g = 1; for (int s = 0; s < n; s++) { want += g * r[s]; g *= 0.5; } sym_check(rew.size() == 2, "batches"); for (int i = 0; i < (int)rew.size(); i++) sym_check_eq(rew(i), want, 1e-6, "return with step limit %d", steps);
}
SYM_CASE(step_limit, "evaluation of a 3-step process with any rewards: step limits from -3 to 5, none if not positive, with and without the cache") { evalSteps(sym_bool("cache"), sym_int("steps", -3, 5)); }
