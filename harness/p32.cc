// P32: RockExplore's policies, simulator and reports
#define RE_NO_CONFIG
#include "re_h.h"
#define main re_main
#include "pomdpModels/RockExplore/zmdpRockExplore.cc"
#undef main
static void pos(int r, int x, int y) { re_par.pos[2 * r] = x; re_par.pos[2 * r + 1] = y; }
static void two() { small(2, 1); pos(0, 0, 0); pos(1, 1, 0); build(); }
static REValueFunction fixedV(int mul = 37) { REValueFunction v; v.init(); for (int i = 1; i < (int)v.V.size(); i++) v.V[i] = (i * mul % 19) / 2.0 - 3 + (i * mul % 23) / 64.0; return v; }
static double qs(const vec &V, int s, int a) { double r; XS n = step(xs(m.states[s]), a, r); return r + re_par.disc * V[idx(n)]; }
static double qb(const vec &V, const bel &b, int a) { double r = 0; for (auto &e : b) r = r + e.second * qs(V, e.first, a); return r; }
static const double TIE = 1e-12 * (NR + 6);
// a is a maximiser, and the first one
static void best(const vec &q, int a, const char *w) { sym_check(a >= 0 && a < (int)q.size(), "%s: action %d", w, a); if (a < 0 || a >= (int)q.size()) return; for (int k = 0; k < (int)q.size(); k++) sym_check_le(q[k], q[a], 1e-10, "%s: action %d is better than the chosen action %d", w, k, a); }
static void first(const vec &q, int a, const char *w) { for (int k = 0; k < a; k++) if (!sym_is_symbolic(q[k]) && !sym_is_symbolic(q[a])) sym_check(q[k] < q[a] - 1e-13, "%s: action %d is as good as the chosen action %d and comes first", w, k, a); }
static int amax(const vec &q) { int b = 0; for (int i = 1; i < (int)q.size(); i++) if (q[i] > q[b] + 1e-9) b = i; return b; }
SYM_CASE(state_values, "33 states, every state and action, any values of three successor states and any one reward") {
  two(); REValueFunction v = fixedV(); int s = sym_int("state", 0, m.getNumStates() - 1); double r; static const int A[] = {0, 1, 4}; for (int k = 0; k < 3; k++) v.V[idx(step(xs(m.states[s]), A[k], r))] = sym_doublef(-20, 20, "v%d", k); int w = sym_int("reward", 0, 2); (w == 0 ? re_par.leave : w == 1 ? re_par.good : re_par.illegal) = sym_double("r", -20, 20);
  vec V(v.V.begin(), v.V.end()), q; for (int a = 0; a < NA; a++) { q.push_back(qs(V, s, a)); sym_check_eq(v.getQ(s, a), q[a], 1e-9, "Q(%d,%d)", s, a); } sym_check_eq(v.getValue(s), V[s], 0, "V(%d)", s);
  int a = v.getMaxQAction(s); best(q, a, "state"); first(q, a, "state"); sym_check_eq(v.getUpdatedValue(s), q[a], 1e-9, "updated value of state %d", s); sym_cover("state");
}
SYM_CASE(belief_values, "fixed beliefs of 1-4 states (with any rock patterns and places), any values of two successor states and any one reward: Q values and the QMDP choice") {
  two(); REValueFunction v = fixedV(); int k = sym_int("belief", 0, 5), n = sym_int("entries", 1, 4), N = m.getNumStates(); static const double P[] = {0.5, 0.25, 0.125, 0.125}; bel b; for (int i = 0; i < n; i++) { double p = i == n - 1 ? 1 : P[i]; if (i == n - 1) for (int j = 0; j < i; j++) p -= P[j]; b[(k * 5 + i * 7) % N] = p; }
  double r; int s0 = b.rbegin()->first; v.V[idx(step(xs(m.states[s0]), 1, r))] = sym_double("v0", -20, 20); v.V[s0] = sym_double("v1", -20, 20); int w = sym_int("reward", 0, 1); (w == 0 ? re_par.leave : re_par.check) = sym_double("r", -20, 20);
  vec V(v.V.begin(), v.V.end()), q; REBelief rb = toRE(b); double e = 0; for (auto &x : b) e = e + x.second * V[x.first]; sym_check_eq(v.getValue(rb), e, 1e-9, "value of the belief"); for (int a = 0; a < NA; a++) { q.push_back(qb(V, b, a)); sym_check_eq(v.getQ(rb, a), q[a], 1e-9, "Q(b,%d)", a); }
  QMDPPolicy p(v); p.b = rb; int a = p.chooseAction(); best(q, a, "qmdp"); sym_check_eq(v.getUpdatedValue(rb), q[a], 1e-9, "updated value of the belief"); sym_cover("belief");
}
SYM_CASE(any_belief, "any belief over two states that differ in a rock, in their place or in everything, or over three: the QMDP choice") {
  two(); REValueFunction v = fixedV(sym_bool("values") ? 37 : 53); int how = sym_int("other", 0, 3), s = sym_int("state", 0, 3) * 8 + 1; XS x = xs(m.states[s]), y = x; if (x.term) sym_end(); if (how == 0) y.good ^= 1; if (how == 1) y.good ^= 12; if (how == 2) y.x = 1 - y.x; if (how == 3) { y.x = 1 - y.x; y.good ^= 15; } bel b; double p = sym_double("p", 0.01, 0.99); b[s] = p; b[idx(y)] = 1 - p; vec V(v.V.begin(), v.V.end()), q; for (int a = 0; a < NA; a++) q.push_back(qb(V, b, a));
  QMDPPolicy pol(v); pol.b = toRE(b); best(q, pol.chooseAction(), "qmdp"); sym_cover("qmdp");
}
SYM_CASE(voting, "any belief over 2-5 states with fixed values: the action with the most weight of states that prefer it") {
  two(); int mul = sym_int("values", 0, 2) * 4 + 29, n = sym_int("entries", 2, sym_thorough() ? 6 : 5), k = sym_int("first", 0, 3); REValueFunction v = fixedV(mul); vec V(v.V.begin(), v.V.end()), votes(NA, 0.0); bel b; double rest = 1; for (int i = 0; i < n; i++) { int s = (k * 3 + i * 10) % m.getNumStates(); double p = i == n - 1 ? rest : sym_doublef(1e-3, 1, "p%d", i); rest = rest - p; b[s] = p; if (i == n - 1) sym_assume_le(1e-3, p); vec q; for (int a = 0; a < NA; a++) q.push_back(qs(V, s, a)); int a = amax(q); votes[a] = votes[a] + p; }
  VotingPolicy p(v); p.b = toRE(b); best(votes, p.chooseAction(), "votes"); sym_cover("voted");
}
SYM_CASE(most_likely, "any belief over 2-4 states with fixed values: the best action of the most likely state") {
  two(); int n = sym_int("entries", 2, 4), k = sym_int("first", 0, 5); REValueFunction v = fixedV(sym_bool("values") ? 37 : 53); vec V(v.V.begin(), v.V.end()); std::vector<std::pair<int, double>> e; double rest = 1; bel b; for (int i = 0; i < n; i++) { int s = (k * 4 + i * 9) % m.getNumStates(); double p = i == n - 1 ? rest : sym_doublef(1e-3, 1, "p%d", i); rest = rest - p; if (i == n - 1) sym_assume_le(1e-3, p); b[s] = p; e.push_back({s, p}); }
  MostLikelyPolicy p(v); p.b = toRE(b); int a = p.chooseAction(); double mx = 0; for (auto &x : e) mx = sym_max(mx, x.second); double byA = 0; for (auto &x : e) { vec q; for (int c = 0; c < NA; c++) q.push_back(qs(V, x.first, c)); if (amax(q) == a) byA = sym_max(byA, x.second); } sym_check_le(mx, byA, 1e-9, "action %d is not the choice of a most likely state", a); sym_cover("likely");
}
static double entropy(const bel &b) { double h = 0; for (auto &e : b) if (e.second > 0) h -= e.second * log(e.second); return h / log((double)m.getNumStates()); }
SYM_CASE(dual_mode, "product beliefs with marginals on a grid (entropies on both sides of the threshold), any reward or successor value in the QMDP part") {
  two(); REValueFunction v = fixedV(); int x = sym_int("x", 0, 1); static const double M[] = {0, 0.02, 0.1, 0.3, 0.5, 0.8, 1}; RERockProbs mg(NR, 0.0); mg[0] = M[sym_int("m0", 0, 6)]; mg[1] = M[sym_int("m1", 0, 6)]; mg[2] = sym_bool("m2") ? 0.5 : 1; REBelief rb = m.getBelief(REPos(x, 0), mg); bel b = fromRE(rb, "dual"); double h = entropy(b); if (fabs(h - 0.1) < 1e-6) sym_end();
  re_par.leave = sym_double("exit", 0, 40); re_par.good = sym_double("good", -20, 40); DualModePolicy p(v); p.b = rb; int a = p.chooseAction(); sym_check(a >= 0 && a < NA, "action %d", a);
  if (h > 0.1) { vec sh; for (int c = 0; c < NA; c++) { double t = 0; for (int o = 0; o < 2; o++) { double po; bel u = post(b, c, o, po); if (po <= 0) continue; for (auto &e : u) e.second /= po; t += po * entropy(u); } sh.push_back(-t); } best(sh, a, "entropy"); for (int k = 0; k < a; k++) sym_check(sh[k] < sh[a] - 1e-14, "action %d leaves the same entropy as action %d and comes first", k, a); sym_cover("entropy"); }
  else { vec V(v.V.begin(), v.V.end()), q; for (int c = 0; c < NA; c++) q.push_back(qb(V, b, c)); best(q, a, "dual qmdp"); sym_cover("qmdp"); }
}
// ---- value iteration
SYM_CASE(sweep, "any values of one of 12 states (thorough: any of 32) and of the terminal state or the exit reward: every state's new value and the residual") {
  two(); REValueFunction v = fixedV(); double base = sym_bool("high") ? 400 : 0; if (base > 0) for (auto &x : v.V) x = base + x / 64; vec &V0 = *new vec(v.V.begin(), v.V.end()); int i = sym_int("state", 1, sym_thorough() ? m.getNumStates() - 1 : 12); v.V[i] = base + sym_double("v0", -20, 20); if (sym_bool("reward")) re_par.leave = sym_double("exit", -20, 20); else v.V[0] = base + sym_double("v1", -5, 5); V0 = vec(v.V.begin(), v.V.end()); double res = v.valueIterationSweep(), mx = 0;
  for (int s = 0; s < m.getNumStates(); s++) { double b = qs(V0, s, 0); for (int a = 1; a < NA; a++) b = sym_max(b, qs(V0, s, a)); sym_check_eq(v.V[s], b, 1e-9, "new value of state %d", s); mx = sym_max(mx, sym_max(V0[s] - b, b - V0[s])); } sym_check_eq(res, mx, 1e-9, "residual"); sym_cover("swept");
}
static FILE *OUT; static char *OUTP; static size_t OUTN;
static void capture() { OUTP = NULL; OUTN = 0; stdout = OUT = open_memstream(&OUTP, &OUTN); }
static std::string captured() { fflush(OUT); return std::string(OUTP, OUTN); }
static void feed(const std::string &s) { std::cin.rdbuf((new std::istringstream(s))->rdbuf()); std::cin.clear(); }
SYM_CASE(residual, "any exit reward and discount 1/2 or 1/4, any stop criterion of three: value iteration stops when the values change by less, and is then that close to a fixed point") {
  small(2, 1); pos(0, 0, 0); pos(1, 1, 0); re_par.disc = sym_bool("discount") ? 0.5 : 0.25; re_par.leave = sym_double("exit", 5, 15); static const double E[] = {1, 0.25, 0.0625}; double eps = E[sym_int("eps", 0, 2)]; build(); capture(); REValueFunction v; v.valueIterationToResidual(eps); captured();
  for (int s = 0; s < m.getNumStates(); s++) { double b = qs(vec(v.V.begin(), v.V.end()), s, 0); for (int a = 1; a < NA; a++) b = sym_max(b, qs(vec(v.V.begin(), v.V.end()), s, a)); sym_check_le(b - v.V[s], eps * re_par.disc, 1e-9, "state %d can still grow", s); sym_check_le(v.V[s] - b, eps * re_par.disc, 1e-9, "state %d can still shrink", s); } sym_cover("converged");
}
// ---- beliefs kept by the policies
SYM_CASE(tracking, "any belief over two states, every sequence of two actions with any possible observations") {
  two(); QMDPPolicy p((fixedV())); bool init = sym_bool("initial"); bel b; if (init) { re_par.prior = 0.5; pos(2, 1, 0); build(); p.setToInitialState(); b = fromRE(p.b, "init"); bel w = fromRE(m.getInitialBelief(), "init"); same(b, w, 1, "initial belief"); sym_check(b.size() == 16, "initial belief has %d states", (int)b.size()); } else { int s = sym_int("state", 0, 3) * 7 + 3; XS y = xs(m.states[s]); if (y.term) sym_end(); y.good ^= 3; double q = sym_double("p", 0.05, 0.95); b[s] = q; b[idx(y)] = 1 - q; p.b = toRE(b); }
  double scale = 1; for (int t = 0; t < 2; t++) { int a = sym_int(t ? "a1" : "a0", 0, NA - 1), o = a < 5 ? 0 : sym_int(t ? "o1" : "o0", 0, 1); double po; bel u = post(b, a, o, po); if (!nz(po)) sym_end(); sym_assume_le(1e-4, po); p.advanceToNextState(a, o); b = u; scale = po; same(fromRE(p.b, "tracked"), b, scale, "tracked belief"); } sym_cover("tracked");
}
// ---- the simulator
struct Stub : public MDPExecCore {
  std::vector<int> script, A, O; int inits = 0; void setToInitialState(void) { inits++; A.clear(); O.clear(); }
  int chooseAction(void) { size_t k = A.size(); return k < script.size() ? script[k] : script.back(); }
  void advanceToNextState(int a, int o) { A.push_back(a); O.push_back(o); }
};
SYM_CASE(simulate, "any rewards, prior and random numbers, 3 (thorough 4) steps with any actions: states, observations, belief and discounted reward") {
  rewards(); re_par.prior = 1; two(); double pr = sym_bool("mixed") ? sym_double("prior", 0.05, 0.95) : 1; REBelief b0; XS s0 = {false, 0, 0, 15}, s1 = {false, 0, 0, 12}; if (nz(1 - pr)) { b0.push_back(REBeliefEntry(1 - pr, idx(s1))); } b0.push_back(REBeliefEntry(pr, idx(s0)));
  Stub p; int n = sym_thorough() ? 4 : 3; for (int t = 0; t < n; t++) { static const int A[] = {1, 3, 4, 5, 6, 2}; p.script.push_back(A[sym_int(zfmt("a%d", t).c_str(), 0, t ? 4 : 5)]); } capture(); RockExploreSim sim(MODE_EVAL, &p); sim.initialize(); sym_check(p.inits == 1, "policy told of the start %d times", p.inits); sym_check_eq(sim.totalReward, 0, 0, "reward before the first step"); sym_check(code(xs(m.states[sim.si])) / 1024 == 0 && !m.states[sim.si].isTerminalState, "initial state"); sim.b = b0; size_t k0 = sym_rand_log().size(); sim.si = REBasicPomdp::chooseStochasticOutcome(b0); bel b = fromRE(b0, "b0"); double total = 0, g = 1; std::string seen;
  sym_check(b.count(sim.si) == 1, "impossible initial state"); (void)k0; XS s = xs(m.states[sim.si]);
  for (int t = 0; t < n; t++) {
    size_t before = sym_rand_log().size(); sym_check(sim.takeStep(), "step refused"); sym_check((int)p.A.size() == t + 1 && p.A[t] == p.script[t], "policy told of action %d", p.A.empty() ? -1 : p.A.back()); int a = p.A[t], o = p.O[t]; double r; XS nx = step(s, a, r); total = total + g * r; g *= re_par.disc; sym_check(code(xs(m.states[sim.si])) == code(nx), "state after action %d", a); sym_check(o >= 0 && o < 2 && obsp(a, nx, o) > 0, "impossible observation %d after action %d", o, a);
    std::vector<double> l = sym_rand_log(); sym_check(l.size() == before + 2, "%d random numbers drawn", (int)(l.size() - before)); double lo = o ? obsp(a, nx, 0) : 0; sym_check_le(lo, l.back(), 1e-9, "observation %d above the random number", o); sym_check_le(l.back(), lo + obsp(a, nx, o), 1e-9, "observation %d below the random number", o);
    double po; bel u = post(b, a, o, po); bel got = fromRE(sim.b, "sim"); same(got, u, po, "belief"); b = got; s = nx; sym_check_eq(sim.totalReward, total, 1e-9, "discounted reward after %d steps", t + 1); sym_check(sim.timeStep == t + 1, "time step");
  }
  sym_cover("simulated");
}
SYM_CASE(run_length, "policies that exit after any number of steps around 100 or never, any rewards: when runs end and what they return") {
  small(2, 1); pos(0, 0, 0); re_par.ix = 1; rewards(); build(); static const int L[] = {0, 1, 7, 98, 99, 100, 103}; int k = L[sym_int("length", 0, 6)], mode = sym_int("mode", 0, 1) ? MODE_EVAL : MODE_MANUAL; Stub p; for (int i = 0; i < k; i++) p.script.push_back(i % 3 ? 5 : 7); p.script.push_back(1); { std::vector<double> f; f.push_back(0.9); sym_rand_script(f, true); } capture(); RockExploreSim sim(mode, &p); sym_check(sim.run(), "run refused"); std::string out = captured();
  int n = k + 1; bool cut = mode == MODE_EVAL && n > 100; if (cut) n = 100; sym_check((int)p.A.size() == n && sim.timeStep == n, "%d steps instead of %d", (int)p.A.size(), n); double t = 0, g = 1; for (int i = 0; i < n; i++) { t = t + g * (i == k ? re_par.leave : re_par.check); g *= re_par.disc; } sym_check_eq(sim.totalReward, t, 1e-9, "discounted reward of %d steps", n); sym_check(m.states[sim.si].isTerminalState == !cut, "final state"); sym_check((out.find("Reached terminal state") != std::string::npos) == (mode != MODE_EVAL), "report of the end: %s", out.c_str());
  Stub q; q.script.push_back(-1); RockExploreSim no(mode, &q); sym_check(!no.run(), "a policy without an action runs"); sym_check(sim.run() && (int)p.A.size() == n, "a second run"); sym_check_eq(sim.totalReward, t, 1e-9, "discounted reward of the second run"); sym_cover("ended");
}
// ---- evaluation and reports
static void script(int k) { std::vector<double> f; for (int i = 0; i < 131; i++) f.push_back((i * (k + 5) % 13) / 13.0 + 0.03); sym_rand_script(f, true); }
static void policyFile() { chdir(sym_scratch()); capture(); m.writeCassandraModel("RockExplore.pomdp"); m.writeCassandraModel("RockExplore.pomdp"); std::string t = "{\n  policyType => \"MaxPlanesLowerBound\",\n  numPlanes => 2,\n  planes => [\n"; int n = m.getNumStates(); for (int k = 0; k < 2; k++) { t += zfmt("    {\n      action => %d,\n      numEntries => %d,\n      entries => [\n", k ? 1 : 4, n); for (int i = 0; i < n; i++) { XS s = xs(m.states[i]); bool here = !s.term && s.x == 0 && s.good & 1; t += zfmt("        %d, %d%s\n", i, k ? 5 : here ? 9 : 1, i < n - 1 ? "," : ""); } t += k ? "      ]\n    }\n" : "      ]\n    },\n"; } zwrite("out.policy", t + "  ]\n}\n"); }
SYM_CASE(evaluate, "each heuristic policy and a stored policy, 100 runs with fixed random numbers, one reward of any value in a range: mean and confidence interval are those of the runs") {
  small(2, 1); pos(0, 0, 0); pos(1, 1, 0); re_par.disc = 0.5; re_par.check = -0.25; re_par.bad = -4; build(); policyFile(); int type = sym_int("policy", 1, 5); MDPExecCore *p = getPolicy(type); re_par.leave = 15 + sym_double("d", 0, 0.25);
  script(type); vec tot; RockExploreSim sim(MODE_EVAL, p); for (int i = 0; i < 100; i++) { sym_check(sim.run(), "run"); tot.push_back(sim.totalReward); } script(type); EvalResult r = evaluatePolicy(type); double s = 0, q = 0; for (double x : tot) { s = s + x; q = q + x * x; } double mean = s / 100, var = (q - s * s / 100) / 99;
  sym_check_eq(r.mean, mean, 1e-9, "mean of policy %d", type); sym_check_le(0, r.conf95, 1e-9, "confidence interval"); sym_check_eq(r.conf95 * r.conf95, var * (1.96 * 1.96 / 100), 1e-6, "confidence interval of policy %d", type); sym_cover("evaluated");
}
SYM_CASE(report, "evaluation of one and of all policies with fixed parameters: the reports name the policies with their results") {
  small(2, 1); pos(0, 0, 0); pos(1, 1, 0); re_par.disc = 0.5; re_par.bad = -4; build(); policyFile(); static const char *names[] = {"qmdp", "voting", "mostLikely", "dualMode", "zmdpSolve"}; int type = sym_int("policy", 0, 5); std::string e; capture(); script(3);
  if (type) { EvalResult r = evaluatePolicy(type); e = zfmt("\nExpected discounted reward 95%% confidence interval:\n  %-10s   %8.3lf +/- %7.3lf\n", names[type - 1], r.mean, r.conf95); capture(); script(3); feed(zfmt("x\n0\n6\n%d\n", type)); doEvaluateOne(); }
  else { e = "\nExpected discounted reward 95% confidence interval:\n"; for (int k = 1; k <= 5; k++) { EvalResult r = evaluatePolicy(k); e += zfmt("  %-10s   %8.3lf +/- %7.3lf\n", names[k - 1], r.mean, r.conf95); } capture(); script(3); doEvaluateAll(); }
  std::string out = captured(); sym_check(out.size() > e.size() && out.substr(out.size() - e.size()) == e, "report is\n%s\ninstead of\n%s", out.substr(out.size() > 400 ? out.size() - 400 : 0).c_str(), e.c_str()); sym_cover("reported");
}
SYM_CASE(stored_policy, "the stored policy's choice looks one step ahead on its planes: after any first action and observation, any of five rewards") {
  small(2, 1); pos(0, 0, 0); pos(1, 1, 0); re_par.leave = sym_int("exit", 0, 4) * 5 - 6; build(); policyFile(); MDPExecCore *p = getPolicy(5); p->setToInitialState(); bel b = fromRE(m.getInitialBelief(), "b0"); int a = sym_int("a0", 0, NA - 1), o = a < 5 ? 0 : sym_int("o0", 0, 1);
  for (int t = 0; t < 2; t++) { vec q; for (int c = 0; c < NA; c++) { double v = erew(b, c); for (int k = 0; k < 2; k++) { double po, v0 = 0, v1 = 0; bel u = post(b, c, k, po); for (auto &e : u) { XS s = xs(m.states[e.first]); v0 += e.second * (!s.term && s.x == 0 && s.good & 1 ? 9 : 1); v1 += e.second * 5; } if (po > 0) v += re_par.disc * std::max(v0, v1); } q.push_back(v); } int c = p->chooseAction(); best(q, c, "stored policy"); if (t == 1) break; double po; bel u = post(b, a, o, po); if (po < 1e-9) sym_end(); for (auto &e : u) e.second /= po; p->advanceToNextState(a, o); b = u; } sym_cover("stored");
}
// ---- menus
SYM_CASE(menus, "answers that are no choice before one that is; action names") {
  two(); capture(); int k = sym_int("choice", 1, 5), w = sym_int("noise", 0, 3); static const char *N[] = {"", "0\n6\n", "x\n\n-1\n", "99\n 7 \n"}; feed(std::string(N[w]) + zfmt("%d\n", k)); int got = getUserPolicyType(); sym_check(got == k, "policy type %d instead of %d", got, k); static const char *names[] = {"qmdp", "voting", "mostLikely", "dualMode", "zmdpSolve"}; sym_check(std::string(getPolicyName(k)) == names[k - 1], "name of policy %d", k);
  std::stringbuf *sink = new std::stringbuf(); std::cout.rdbuf(sink); int a = sym_int("action", 0, NA - 1); feed(std::string(w ? "zz amx\n" : "") + m.getActionString(a) + "\n"); UserPolicy u; int c = u.chooseAction(); sym_check(c == a, "action %d instead of %d", c, a); for (int i = 0; i < NA; i++) sym_check(sink->str().find(m.getActionString(i)) != std::string::npos, "action %d is not offered", i); sym_cover("menus");
}
SYM_CASE(policy_table, "grids of up to 4 cells: the displayed policy lists each state's best action by rocks and position") {
  static const int g[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}}; int k = sym_int("grid", 0, 3); small(g[k][0], g[k][1]); pos(0, 0, 0); pos(1, g[k][0] - 1, g[k][1] - 1); re_par.leave = sym_bool("exit") ? 3 : 15; build(); capture(); REValueFunction v; v.valueIterationToResidual(1e-3); capture(); doDisplayMDPPolicy(); std::string out = captured(); size_t at = out.find("MDP policy:\n\n"); sym_check(at != std::string::npos, "no heading"); out = out.substr(at); std::string e = "MDP policy:\n\n";
  for (int r = 0; r < 1 << NR; r++) { e += "r"; for (int i = 0; i < NR; i++) e += r >> (NR - 1 - i) & 1 ? "1" : "0"; e += ":\n"; for (int y = re_par.h - 1; y >= 0; y--) { e += "  "; for (int x = 0; x < re_par.w; x++) { XS s = {false, x, y, 0}; for (int i = 0; i < NR; i++) s.good |= (r >> (NR - 1 - i) & 1) << i; vec q; for (int a = 0; a < NA; a++) q.push_back(qs(vec(v.V.begin(), v.V.end()), idx(s), a)); e += zfmt("%-3s ", m.getActionString(amax(q)).c_str()); } e += "\n"; } e += "\n"; }
  sym_check(out == e, "table is\n%s\ninstead of\n%s", out.substr(0, 300).c_str(), e.substr(0, 300).c_str()); sym_cover("table");
}
SYM_CASE(main_write, "the main menu writes the model file, after answers that are no choice") { two(); chdir(sym_scratch()); unlink("RockExplore.pomdp"); capture(); feed(sym_bool("noise") ? "9\nfoo\n1\n" : "1\n"); struct F { static void done(int c) { sym_check(c == 0, "exit code %d", c); std::ifstream in("RockExplore.pomdp"); std::stringstream s; s << in.rdbuf(); zwrite("twice.pomdp", ""); m.writeCassandraModel("twice.pomdp"); std::ifstream i2("twice.pomdp"); std::stringstream s2; s2 << i2.rdbuf(); sym_check(!s.str().empty() && s.str() == s2.str(), "the menu did not write the model"); sym_cover("written"); sym_end(); } }; sym_on_exit(F::done); char *av[] = {(char *)"x", NULL}; re_main(1, av); sym_fail("the menu returned"); }
