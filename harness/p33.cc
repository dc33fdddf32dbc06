// P33: zmdp evaluate runs the policy it is given in the model it is given, and reports what happened
#define ZH_NO_EMBED
#include "pomdp_fam.h"
#ifndef CFLAGS
#define CFLAGS "x"
#endif
#include <map>
#include "BoundPairExec.h"
#include "PolicyEvaluator.h"
#include "TestDriver.h"
#include "LSPathAndReactExec.h"
static size_t SEEDED;   // random numbers drawn while the generator is set up
static void zv_seed() { init_matrix_utils(); SEEDED = sym_rand_log().size(); }
#define init_matrix_utils zv_seed
#define main zmdp_main
#define usage zmdp_usage
#include "main/zmdp.cc"
#undef main
#undef usage
#undef init_matrix_utils
typedef std::vector<double> fracs;
static const double GAP = 1e-3;
struct Plane { int a; vec v; std::vector<bool> in; };
typedef std::vector<Plane> Policy;
static vec follow(const ZModel &m, const vec &b, int a, int o, double *p) { vec u; *p = zobs(m, b, a, o, u); for (auto &x : u) x = x / *p; return u; }
// the value of a policy file: the best plane of those that apply to the belief
static double pval(const Policy &P, const vec &b) {
  double best = 0; bool any = false;
  for (auto &p : P) { bool ok = true; for (size_t s = 0; s < b.size(); s++) if (!p.in[s] && (sym_is_symbolic(b[s]) || b[s] > 0)) ok = false; if (!ok) continue; double v = zdot(p.v, b); best = any ? sym_max(best, v) : v; any = true; }
  if (!any) { sym_fail("test policy has no plane for a belief"); } return best;
}
// the action the executive must take: best one-step lookahead of the planner's model; runs with ties are left out
static int act(const ZModel &m, const Policy &P, const vec &b) {
  vec q(m.A, 0.0); for (int a = 0; a < m.A; a++) { q[a] = zrew(m, b, a); for (int o = 0; o < m.O; o++) { vec u; double p = zobs(m, b, a, o, u); if (!sym_is_symbolic(p) && p == 0) continue; for (auto &x : u) x = x / p; q[a] = q[a] + m.gamma * p * pval(P, u); } }
  int w = 0; for (int a = 1; a < m.A; a++) { sym_assume_ge_gap(q[a], q[w], GAP); if (q[a] > q[w]) w = a; } for (int a = 0; a < m.A; a++) if (a != w) sym_assume_ge_gap(q[a], q[w], GAP); return w;
}
static bool allTerm(const ZModel &m, const vec &b) { for (int s = 0; s < m.S; s++) if (!zterm(m, s) && (sym_is_symbolic(b[s]) || b[s] > 1e-12)) return false; return true; }
struct StepRec { int a, o; vec b, n; };
struct TrialRec { std::vector<StepRec> st; double ret; bool goal; };
static LSPathAndReactExec *LS; static std::string LSOPT;   // a survey policy, if that is what is evaluated: another instance of it
// the run of one trial as the random numbers decide it
static TrialRec trial(const ZModel &plan, const ZModel &sim, const Policy &P, const fracs &f, size_t &used, int steps) {
  TrialRec t; t.ret = 0; t.goal = false; vec sb = sim.b0, pb = plan.b0; double g = 1; if (LS) LS->setToInitialState();
  for (int j = 0; steps <= 0 || j < steps; j++) {
    if (used >= f.size()) { sym_fail("%d random numbers drawn, more needed", (int)f.size()); sym_end(); }
    int a = LS ? LS->chooseAction() : act(plan, P, pb); double r = f[used++], c = 0; int pick = -1, last = 0; for (int o = 0; o < sim.O && pick < 0; o++) { vec u; double p = zobs(sim, sb, a, o, u); if (!sym_is_symbolic(p) && p == 0) continue; c = c + p; last = o; if (sym_is_symbolic(r)) sym_assume_ge_gap(r, c, 1e-6); if (r <= c) pick = o; }
    if (pick < 0) pick = last;
    double p; t.ret = t.ret + g * zrew(sim, sb, a); g *= sim.gamma; vec n = follow(sim, sb, a, pick, &p); t.st.push_back({a, pick, sb, n}); sb = n; if (LS) LS->advanceToNextState(a, pick); else pb = follow(plan, pb, a, pick, &p); if (allTerm(sim, sb)) { t.goal = true; break; }
  }
  return t;
}
// returns of one batch of trials; the cache weighs continuations by how often they were drawn
static double batchMean(const ZModel &sim, std::vector<TrialRec> &b, bool cache) {
  if (!cache) { double v = 0; for (auto &t : b) v = v + t.ret; return v / b.size(); }
  auto same = [](const vec &x, const vec &y) { for (size_t i = 0; i < x.size(); i++) if (fabs(x[i] - y[i]) > 1e-9) return false; return true; };
  double v = 0;
  for (auto &t : b) { double r = 0; for (int j = (int)t.st.size() - 1; j >= 0; j--) {
    StepRec &e = t.st[j]; std::map<int, int> n; int tot = 0; for (auto &t2 : b) for (auto &e2 : t2.st) if (e2.a == e.a && same(e2.b, e.b)) { n[e2.o]++; tot++; }
    int poss = 0; double pe = 0; for (int o = 0; o < sim.O; o++) { vec u; double p = zobs(sim, e.b, e.a, o, u); if (p > 0) poss++; if (o == e.o) pe = p; }
    double w = (int)n.size() == poss ? pe / ((double)n[e.o] / tot) : 1; r = zrew(sim, e.b, e.a) + sim.gamma * w * r; }
    v = v + r; }
  return v / b.size();
}
// ---- files and the command line
static std::string text(const Policy &P) {
  std::string t = "# policy\n{\n  policyType => \"MaxPlanesLowerBound\",\n" + zfmt("  numPlanes => %d,\n  planes => [\n", (int)P.size());
  for (size_t k = 0; k < P.size(); k++) { std::vector<std::string> es; for (size_t s = 0; s < P[k].v.size(); s++) if (P[k].in[s]) es.push_back(zfmt("        %d, ", (int)s) + sym_text(P[k].v[s])); t += zfmt("    {\n      action => %d,\n      numEntries => %d,\n      entries => [\n", P[k].a, (int)es.size()); for (size_t i = 0; i < es.size(); i++) t += es[i] + (i + 1 < es.size() ? "," : "") + "\n"; t += zfmt("      ]\n    }%s\n", k + 1 < P.size() ? "," : ""); }
  return t + "  ]\n}\n";
}
static std::string alpha(const Policy &P) { std::string t; for (auto &p : P) { t += zfmt("%d\n", p.a); for (double x : p.v) t += sym_text(x) + " "; t += "\n\n"; } return t; }
static char *OUTP; static size_t OUTN;
static std::string W;
static void call(std::vector<std::string> a) { std::vector<char *> v; v.push_back(strdup("zmdp")); for (auto &s : a) v.push_back(strdup(s.c_str())); stdout = open_memstream(&OUTP, &OUTN); zmdp_main((int)v.size(), &v[0]); fflush(stdout); }
static std::vector<std::string> words(const std::string &s) { std::istringstream in(s); std::vector<std::string> r; std::string w; while (in >> w) r.push_back(w); return r; }
static Policy mk(const ZModel &m, int n, int seed, bool masked) { Policy P; for (int k = 0; k < n; k++) { Plane p; p.a = k % m.A; p.v = vec(m.S, 0.0); p.in.assign(m.S, true); for (int s = 0; s < m.S; s++) { p.v[s] = ((k * 7 + s * 5 + seed * 3) % 9) * 1.5 - 3.7; if (masked && k > 0 && s == (k + seed) % m.S) p.in[s] = false; } P.push_back(p); } return P; }
// runs zmdp evaluate and compares the report with the trials the random numbers decide
struct Run { ZModel plan, sim; Policy P; int trials, steps; bool cache, cass, fast, separate; fracs script; };
static void report(Run &r) {
  std::string sf = r.sim.write("sim.pomdp"), pf = zpath("in.policy"), opts = zfmt("evaluate -i %d --evaluationMaxStepsPerTrial %d --useEvaluationCache %d --useFastModelParser %d --policyInputFile ", r.trials, r.steps, (int)r.cache, (int)r.fast) + pf + " --scoresOutputFile " + zpath("scores") + " --simulationTraceOutputFile " + zpath("trace");
  zwrite(pf, r.cass ? alpha(r.P) : text(r.P)); if (r.cass) opts += " --policyType cassandraAlpha"; if (LS) opts += LSOPT; if (r.separate) opts += " --plannerModel " + r.plan.write("plan.pomdp");
  sym_rand_script(r.script); call(words(opts + " " + sf)); std::string t(OUTP, OUTN);
  int nb = std::min(r.trials, 30), per = r.trials / nb; fracs log = sym_rand_log(); size_t used = SEEDED; double mean = 0; vec bm;
  for (int b = 0; b < nb; b++) { std::vector<TrialRec> ts; for (int i = 0; i < per; i++) ts.push_back(trial(r.plan, r.sim, r.P, log, used, r.steps)); bm.push_back(batchMean(r.sim, ts, r.cache)); mean = mean + bm.back(); }
  mean = mean / nb; double a = 0, l = 0, u = 0; size_t p = t.find("REWARD_MEAN_CONF95MIN_CONF95MAX"); sym_check(p != std::string::npos, "no report"); if (p == std::string::npos) return;
  sym_check(t.find("REWARD_MEAN_CONF95MIN_CONF95MAX", p + 5) == std::string::npos, "two reports"); if (sscanf(t.c_str() + p, "REWARD_MEAN_CONF95MIN_CONF95MAX %lf %lf %lf", &a, &l, &u) != 3) { sym_fail("report not understood"); return; }
  sym_check_eq(a, mean, 1.1e-3, "reported mean"); double lo = bm[0], hi = bm[0]; for (double x : bm) { lo = sym_min(lo, x); hi = sym_max(hi, x); }
  sym_check_le(lo, l, 1.1e-3, "interval below the worst sample"); sym_check_le(l, u, 1.1e-3, "interval upside down"); sym_check_le(u, hi, 1.1e-3, "interval above the best sample");
  // the interval: 2.5% quantiles of the means of 2000 samples with replacement
  sym_check(log.size() - used == (size_t)2000 * nb, "%d random numbers for the interval", (int)(log.size() - used)); if (log.size() - used != (size_t)2000 * nb) return;
  if (nb > 1) { vec means; for (int i = 0; i < 2000; i++) { double s = 0; for (int j = 0; j < nb; j++) { int k = (int)(log[used++] * nb); if (k >= nb) k = nb - 1; s = s + bm[k]; } means.push_back(s / nb); } std::sort(means.begin(), means.end()); sym_check_eq(l, means[49] + 0.5 * (means[50] - means[49]), 1.1e-3, "lower end of the interval"); sym_check_eq(u, means[1949] + 0.5 * (means[1950] - means[1949]), 1.1e-3, "upper end of the interval"); sym_cover("interval"); }
  else { sym_check_eq(l, mean, 1.1e-3, "lower end of the interval"); sym_check_eq(u, mean, 1.1e-3, "upper end of the interval"); }
  sym_cover("reported");
}
static fracs bootRand(fracs f, int nb) { f.insert(f.begin(), 0.5); for (int i = 0; i < 2000 * nb; i++) f.push_back(((i * 37 + i / 7 * 11) % 101) / 101.0); return f; }
static Policy anyPolicy(const ZModel &m, bool cass) { return mk(m, 3, sym_int("policy", 0, sym_thorough() ? 5 : 2), !cass && sym_bool("masked")); }
SYM_CASE(one_trial, "4 POMDPs with one symbolic reward, 3 (6) policies in both formats, one trial of 1-3 (4) steps, any random numbers, with and without cache and fast parser") {
  int f = sym_int("model", 0, 3); Run r{zfam(f, 1 << sym_int("reward", 0, 1)), ZModel(1, 1, 1, 0.5), {}, 1, sym_int("steps", 1, sym_thorough() ? 4 : 3), sym_bool("cache"), sym_bool("alpha file"), sym_bool("fast"), false, {}}; r.sim = r.plan; r.P = anyPolicy(r.plan, r.cass);
  if (f == 1) r.steps = std::min(r.steps, 2); fracs s; for (int i = 0; i < r.steps; i++) s.push_back(sym_doublef(0, 1, "random%d", i)); r.script = bootRand(s, 1); report(r);
}
SYM_CASE(two_trials, "4 POMDPs with one symbolic reward, two trials of 2 steps (with the cache: in batches of their own), fixed random numbers of 6 patterns: mean and interval") {
  int f = sym_int("model", 0, 3), pat = sym_int("pattern", 0, 5); Run r{zfam(f, 1 << sym_int("reward", 0, 1)), ZModel(1, 1, 1, 0.5), {}, 2, 2, sym_bool("cache"), sym_bool("alpha file"), true, false, {}}; r.sim = r.plan; r.P = mk(r.plan, 3, pat, !r.cass); fracs s; for (int i = 0; i < 4; i++) s.push_back(((pat * 5 + i * 7) % 13) / 13.0 + 0.031); r.script = bootRand(s, 2); report(r);
}
static fracs fixedFracs(int n, int pat) { fracs s; unsigned x = 99 + 17 * pat; for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345u; s.push_back(((x >> 16) % 1021) / 1021.0); } return s; }
SYM_CASE(many_trials, "4 POMDPs, one symbolic reward (in 1 of 4 runs), 30-95 trials of up to 5 steps, fixed random numbers of 3 patterns: batches, mean and interval") {
  int f = sym_int("model", 0, 3), pat = sym_int("pattern", 0, 2), n = 30 + 65 * sym_int("trials", 0, 1); bool sy = false; Run r{zfam(f, sy ? 1 : 0), ZModel(1, 1, 1, 0.5), {}, n, sym_int("steps", 3, 5), sym_bool("cache"), sym_bool("alpha file"), true, false, {}}; r.sim = r.plan; r.P = mk(r.plan, 3, pat, !r.cass); r.script = bootRand(fixedFracs(n / 30 * 30 * r.steps, pat), 30); report(r);
}
// the simulated world differs from the one planned for
static ZModel other(const ZModel &p, int how) {
  ZModel m = p; if (how & 1) for (int a = 0; a < m.A; a++) for (int t = 0; t < m.S; t++) { double k = m.Z[a][t][0]; m.Z[a][t][0] = k * 0.5; for (int o = 1; o < m.O; o++) m.Z[a][t][o] = m.Z[a][t][o] + k * 0.5 / (m.O - 1); }
  if (how & 2) for (auto &r : m.R) for (double &x : r) x = x * 2 + 1; if (how & 4) m.b0 = vec(m.S, 1.0 / m.S); if (how & 8) for (auto &z : m.Z) for (auto &r : z) r = vec(m.O, 1.0 / m.O); return m;   // 8: nothing is learnt, so different histories meet again
}
SYM_CASE(other_model, "4 POMDPs planned for, simulated in one with other observations, rewards or initial belief and one symbolic reward: one trial of 1-2 (3) steps, any random numbers, with and without cache") {
  int f = sym_int("model", 0, 3); if (f == 2) f = 1; Run r{zfam(f, 0), ZModel(1, 1, 1, 0.5), {}, 1, sym_int("steps", 1, sym_thorough() ? 3 : 2), sym_bool("cache"), false, sym_bool("fast"), true, {}}; r.sim = other(r.plan, sym_int("difference", 1, 7)); r.sim.R[0][0] = sym_double("reward", 0.5, 4); if (f == 3) for (auto *m : {&r.plan, &r.sim}) m->Z[1] = {{0.5, 0.25, 0.25}, {0.25, 0.5, 0.25}};
  if (f == 1) for (auto *m : {&r.plan, &r.sim}) for (int a = 0; a < 2; a++) m->Z[a][2] = {0.25, 0.75}; r.P = anyPolicy(r.plan, false); fracs s; for (int i = 0; i < r.steps; i++) s.push_back(sym_doublef(0, 1, "random%d", i)); r.script = bootRand(s, 1); report(r);
}
SYM_CASE(other_trials, "2 POMDPs planned for, simulated in different ones: 30-60 trials of 3-4 steps of fixed random numbers, with and without cache") {
  int f = sym_int("model", 0, 1), n = 30 * sym_int("per batch", 1, 2), pat = sym_int("pattern", 0, 2); Run r{zfam(f, 0), ZModel(1, 1, 1, 0.5), {}, n, sym_int("steps", 3, 4), sym_bool("cache"), false, true, true, {}}; int d = sym_int("difference", 1, 9); r.sim = other(r.plan, d < 8 ? d : d == 8 ? 8 : 10); if (f == 1) for (auto *m : {&r.plan, &r.sim}) for (int a = 0; a < 2; a++) if (m == &r.plan || d < 8) m->Z[a][2] = {0.25, 0.75}; r.P = mk(r.plan, 3, pat, true); r.script = bootRand(fixedFracs(n * r.steps, pat), 30); report(r);
}
// ---- log files
static std::string slurp(const std::string &p) { std::ifstream in(p.c_str()); std::stringstream s; s << in.rdbuf(); return s.str(); }
static void logs(bool cache, bool many = false) {
  int f = sym_int("model", 0, many ? 1 : 3), pat = sym_int("pattern", 0, sym_thorough() ? 2 : 0), n = many ? (sym_bool("60 trials") ? 60 : 95) : sym_int("trials", 1, 4), L = sym_int("log", -1, many ? 8 : 5); if (many && L > 3) { static const int LL[] = {29, 31, 45, 61, 100}; L = LL[L - 4]; } const int asked = n; if (many) n = n / 30 * 30; const int nb = std::min(n, 30); if (f == 1) f = many ? 3 : 0; ZModel m = zfam(f, 0); double x = sym_double("bonus", 0.125, 0.625); for (auto &r : m.R) for (double &y : r) y = y + x;   // the same for all actions: no choice depends on it
  Run r{m, m, mk(m, 3, pat, true), asked, sym_int("steps", 1, many ? 2 : 4), cache, false, sym_bool("fast"), sym_bool("planner model"), bootRand(fixedFracs(n * 4, pat), nb)};
  std::string tf = zpath("trace"), sc = zpath("scores"), pf = zpath("in.policy"); zwrite(pf, text(r.P)); std::string sf = m.write("sim.pomdp"), o = zfmt("evaluate -i %d --evaluationMaxStepsPerTrial %d --useEvaluationCache %d --simulationTracesToLogPerEpoch %d --useFastModelParser %d --policyInputFile ", asked, r.steps, (int)cache, L, (int)r.fast) + pf + " --scoresOutputFile " + sc + " --simulationTraceOutputFile " + tf; if (r.separate) o += " --plannerModel " + m.write("plan.pomdp");
  sym_rand_script(r.script); call(words(o + " " + sf)); fracs log = sym_rand_log(); size_t used = SEEDED; std::vector<TrialRec> ts; for (int i = 0; i < n; i++) ts.push_back(trial(m, m, r.P, log, used, r.steps));
  int want = L < 0 || L > n ? n : L, seen = 0; std::istringstream in(slurp(tf)); std::string l; size_t step = 0; bool open = false;
  while (std::getline(in, l)) {
    if (l == ">>> begin") { if (open) sym_check(step == ts[seen - 1].st.size(), "trace %d has %d steps", seen, (int)step); seen++; step = 0; open = true; if (seen > want) break; continue; }
    if (l == "terminated") { sym_check(open && ts[seen - 1].goal && step == ts[seen - 1].st.size(), "trace %d: terminated after %d steps", seen, (int)step); continue; }
    if (l.compare(0, 5, "sim: ") != 0) { if (!l.empty()) sym_fail("trace line not understood: %s", l.c_str()); continue; }
    if (!open || step >= ts[seen - 1].st.size()) { sym_fail("trace %d goes on after its end", seen); return; } const StepRec &e = ts[seen - 1].st[step++];
    // sim: [belief] action [belief] observation
    size_t a = l.find('['), b = l.find(']'), c = l.find('[', b), d = l.rfind(']'); int act = -1, ob = -1; if (a == std::string::npos || c == std::string::npos || sscanf(l.c_str() + b + 1, "%d", &act) != 1 || sscanf(l.c_str() + d + 1, "%d", &ob) != 1) { sym_fail("trace line not understood"); return; }
    sym_check(act == e.a, "trace %d, step %d: action %d instead of %d", seen, (int)step, act, e.a); sym_check(ob == e.o, "trace %d, step %d: observation %d instead of %d", seen, (int)step, ob, e.o);
    for (int k = 0; k < 2; k++) { vec got(m.S, 0.0); std::istringstream q(k ? l.substr(c + 1, d - c - 1) : l.substr(a + 1, b - a - 1)); int i; double v; std::string w; while (q >> w) { for (char &ch : w) if (ch == '=' || ch == ':' || ch == ',') ch = ' '; if (sscanf(w.c_str(), "%d %lf", &i, &v) == 2 && i >= 0 && i < m.S) got[i] = v; else if (sscanf(w.c_str(), "%d", &i) != 1) { sym_fail("trace belief not understood: %s", l.c_str()); return; } } for (int s = 0; s < m.S; s++) sym_check_eq(got[s], k ? e.n[s] : e.b[s], 1e-4, "trace %d, step %d: belief %s in state %d", seen, (int)step, k ? "after" : "before", s); }
    sym_cover("step in the trace");
  }
  sym_check(seen == want, "%d traces of %d wanted", seen, want); if (open && seen == want && want > 0) sym_check(step == ts[seen - 1].st.size(), "last trace has %d steps", (int)step);
  std::istringstream q(slurp(sc)); std::string w; size_t k = 0; const int lines = cache ? nb : n, each = n / lines; while (q >> w) { double v = strtod(w.c_str(), NULL); if ((int)k < lines) { double sc1 = ts[k].ret; if (cache) { std::vector<TrialRec> part(ts.begin() + k * each, ts.begin() + (k + 1) * each); sc1 = batchMean(m, part, true); } sym_check_eq(v, sc1, 2e-4, "score %d", (int)k); } k++; } sym_check((int)k == lines, "%d scores instead of %d", (int)k, lines); sym_cover("scores");
}
SYM_CASE(log_files, "3 POMDPs with any bonus on every reward, 1-4 trials of 1-4 steps of fixed random numbers, -1 to 5 traces wanted: the traces are those of the first trials, step by step, and each score is its trial's return") { logs(false); }
SYM_CASE(log_files_cache, "the same with the cache, in batches of one trial") { logs(true); }
SYM_CASE(log_files_many, "2 POMDPs, 60 or 95 trials of 1-2 steps of fixed random numbers, in 30 batches of 2 or 3 trials, with and without cache: none, some or all traces wanted") { logs(sym_bool("cache"), true); }
// ---- refusals
static void refused(int code) { sym_check(code != 0, "%s: exit code 0", W.c_str()); fflush(stdout); std::string t(OUTP, OUTN); sym_check(t.find("REWARD_MEAN") == std::string::npos, "%s: reported before it was refused", W.c_str()); sym_cover("refused"); }
// the survey policies act by their map alone: look, then move; the simulator has its own idea of what is read
static void survey(int trials, int steps, bool any, bool blind) {
  static const char *MAPT[] = {"a b b a a a\n a a b b a a\na a a a b b\n", "a a a a a a\n b b b a a a\na b b b b b\n"};
  int k = sym_int("map", 0, 1), o1 = sym_int("reading", 0, 2); bool cache = sym_bool("cache"); static const int RD[] = {26, 2, 18}; ZModel m(3, 7, 28, 0.5); m.b0 = {0.5, 0.25, 0.25};
  for (int a = 0; a < 7; a++) for (int s = 0; s < 3; s++) { m.T[a][s][s] = 0.75; m.T[a][s][(s + a) % 3] = m.T[a][s][(s + a) % 3] + 0.25; m.R[a][s] = (a * 5 + s * 3) % 11 - 4; if (a < 6) m.Z[a][s][27] = 1; else if (s == 0) m.Z[a][s][0] = 1; else { m.Z[a][s][RD[(o1 + s) % 3]] = 0.75; m.Z[a][s][0] = 0.25; } }
  m.R[blind ? 4 : 6][0] = sym_double("reward", -5, 5);
  std::string f = zpath("m.lifeSurvey"); zwrite(f, std::string("startX 1\nstartY 1\nbaseCost 1.0\nlookaheadCost 5.0\nregionPriors 0.1 0.5\nobsDistributionLifeAbsent 0.7 0.2 0.1\nobsDistributionLifePresent 0.1 0.2 0.7\n---\n") + MAPT[k]);
  fracs sc; int nb = std::min(trials, 30); static const double F[] = {0.1, 0.4, 0.7, 0.95, 0.3}; int pat = sym_int("pattern", 0, 3);
  for (int i = 0; i < trials * steps; i++) sc.push_back(any ? sym_double(zfmt("r%d", i).c_str(), 0, 1) : F[(i * (pat + 1) + i / 4) % 5]);
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); c->setString("policyType", blind ? "lsblind" : "lspath"); tableG = LSStateTable(); stdout = open_memstream(&OUTP, &OUTN); LS = new LSPathAndReactExec(); LS->init(f, c); LSOPT = blind ? " --policyType lsblind" : " --policyType lspath --customModel " + f;
  Run r = {m, m, mk(m, 1, 0, false), trials, steps, cache, false, false, false, bootRand(sc, nb)}; report(r); sym_cover("survey policy");
}
SYM_CASE(survey_one, "a LifeSurvey map policy in a simulator of its own: 2 maps, 3 sets of readings, one trial of 3 (4) steps, any random numbers, with and without cache; any reward of one action") { survey(1, sym_thorough() ? 4 : 3, true, false); }
SYM_CASE(survey_many, "the same, 30 or 60 trials of 4 steps of fixed random numbers of 4 patterns") { survey(sym_bool("more") ? 60 : 30, 4, false, false); }
SYM_CASE(survey_blind, "the blind survey policy, which needs no map: 1 or 30 trials of 3 steps") { survey(sym_bool("more") ? 30 : 1, 3, false, true); }
SYM_CASE(refuse, "models with other numbers of actions or observations, unknown policy types, life survey policies without their map, missing or wrong policy files; any one reward") {
  ZModel m = fam_tiger(1); int k = sym_int("mistake", 0, 8); Policy P = mk(m, 3, 1, false); std::string pf = zpath("in.policy"), f = m.write("m.pomdp"), base = "evaluate -i 2 --evaluationMaxStepsPerTrial 2 --scoresOutputFile " + zpath("scores") + " --simulationTraceOutputFile " + zpath("trace") + " --policyInputFile " + pf + " "; zwrite(pf, text(P)); sym_rand_script({0.3, 0.6, 0.1}, true); sym_on_exit(refused);
  auto shape = [](int A, int O) { ZModel q(2, A, O, 0.5); for (int a = 0; a < A; a++) for (int s = 0; s < 2; s++) { q.T[a][s][s] = 1; for (int o = 0; o < O; o++) q.Z[a][s][o] = 1.0 / O; q.R[a][s] = a + s + 1; } q.b0 = {0.5, 0.5}; return q; };
  static const char *N[] = {"more actions in the simulator", "fewer actions in the simulator", "more observations in the simulator", "fewer observations in the simulator", "unknown policy type", "lspath without a map", "policy file missing", "policy file of the other kind", "planner model missing"}; W = N[k]; if (k == 3) { m = fam_costs(1); f = m.write("m.pomdp"); zwrite(pf, text(mk(m, 3, 1, false))); }
  if (k < 4) call(words(base + "--plannerModel " + f + " " + shape(k == 0 ? 4 : k == 1 ? 2 : m.A, k == 2 ? 4 : k == 3 ? 2 : m.O).write("s.pomdp"))); else if (k == 4) { static const char *B[] = {"planes", "maxplanes", "cassandra", "0", "lspat"}; call(words(base + "--policyType " + B[sym_int("type", 0, 4)] + " " + f)); }
  else if (k == 5) call(words(base + "--policyType lspath " + f)); else if (k == 6) { unlink(pf.c_str()); call(words(base + f)); } else if (k == 7) { if (sym_bool("alpha")) zwrite(pf, alpha(P)), call(words(base + f)); else call(words(base + "--policyType cassandraAlpha " + f)); } else call(words(base + "--plannerModel " + zpath("none.pomdp") + " " + f));
  sym_fail("%s: accepted", W.c_str());
}
