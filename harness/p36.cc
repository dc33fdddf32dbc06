// P36: what zmdp benchmark logs about a run is so, and logging does not change it
#include "run_h.h"
struct Snap { int s[8]; int nodes, expanded; };
static std::vector<Snap> SNAPS;
static int stored(const cvector &v) { return (int)v.data.size(); }
// what the bounds hold, counted from their data
static void snap() {
  Snap r = {{0, 0, 0, 0, 0, 0, 0, 0}, 0, 0}; int ex = 0, ent = 0; for (auto &kv : *BP->lookup) { r.nodes++; MDPNode *n = kv.second; if (n->Q.size()) { r.expanded++; ex++; ent += stored(n->s) + 1; } }
  if (LB) { AbstractBound *l = BP->lowerBound; if (PointLowerBound *p = dynamic_cast<PointLowerBound *>(l)) { r.s[2] = ex; r.s[3] = ent; l = p->initBound; } if (MaxPlanesLowerBound *m = dynamic_cast<MaxPlanesLowerBound *>(l)) for (auto *p : m->planes) { r.s[0]++; r.s[1] += stored(p->alpha); if (m->useMaxPlanesMasking) r.s[1] += (int)p->mask.data.size(); } }
  if (UB) { AbstractBound *u = BP->upperBound; if (PointUpperBound *p = dynamic_cast<PointUpperBound *>(u)) { r.s[6] = ex; r.s[7] = ent; u = p->initBound; } if (SawtoothUpperBound *w = dynamic_cast<SawtoothUpperBound *>(u)) { r.s[4] = w->pts.size() + w->cornerPts.size(); r.s[5] = w->cornerPts.size(); for (auto *p : w->pts) r.s[5] += stored(p->b) + 1; } }
  SNAPS.push_back(r);
}
static const char *SNAME[] = {"planes", "plane entries", "tabular lower bounds", "tabular lower bound entries", "points", "point entries", "tabular upper bounds", "tabular upper bound entries"};
static const char *LOGS[] = {"", "storageOutputFile storage ", "useLogBackups 1 ", "qValuesOutputFile q ", "storageOutputFile storage useLogBackups 1 qValuesOutputFile q "};
static Setup *bench(ZModel &m, const std::string &opts, double T, double prec, double first, bool policy, int trials, int steps, bool cache) {
  SNAPS.clear(); start(10, 12); MOVE = false; AFTER = snap; std::string f = m.write(m.mdp ? "m.mdp" : "m.pomdp"); Setup *s = setup(f, opts); s->c.setString("command", "benchmark"); s->c.setDouble("terminateWallclockSeconds", T); s->c.setDouble("terminateRegretBound", prec); s->c.setDouble("evaluationFirstEpochWallclockSeconds", first); s->c.setDouble("evaluationEpochsPerMagnitude", 1000);
  s->c.setInt("evaluationTrialsPerEpoch", trials); s->c.setInt("evaluationMaxStepsPerTrial", steps); s->c.setInt("useEvaluationCache", cache); s->c.setString("policyOutputFile", policy ? s->policy : "none"); doBenchmark(s->c); fflush(stdout); return s;
}
// storage and bounds logs: every line is what the bounds held after that trial (the run is made twice, so that no branch is left to decide in the second and its files belong to one path)
static void logs(ZModel m, const std::string &o, double T, double prec) {
  std::string opts = o + "storageOutputFile storage "; Setup *s = NULL; for (int pass = 0; pass < 2; pass++) s = bench(m, opts, T, prec, 0, false, 2, 2, sym_bool("cache"));
  int n = CALLS.size(); std::vector<vec> st = rows("storage"), bd = rows(s->c.getString("boundsOutputFile")), ev = rows(s->c.getString("evaluationOutputFile")); sym_check((int)st.size() == n, "%d storage lines for %d evaluations", (int)st.size(), n); sym_check((int)bd.size() == n, "%d bounds lines", (int)bd.size()); sym_check((int)ev.size() == n, "%d evaluation lines", (int)ev.size());
  for (int i = 0; i < n && i < (int)st.size() && i < (int)bd.size(); i++) {
    if (st[i].size() != 10) { sym_fail("storage line of %d numbers", (int)st[i].size()); continue; } sym_check_eq(st[i][0], 10.0 * (i + 1), 0.01, "time of storage line %d", i); const Snap &r = SNAPS[i]; for (int k = 0; k < 8; k++) sym_check((int)st[i][2 + k] == r.s[k], "storage line %d: %d %s instead of %d", i, (int)st[i][2 + k], SNAME[k], r.s[k]); sym_check((int)st[i][1] == r.s[1] + r.s[3] + r.s[5] + r.s[7], "storage line %d: total", i);
    if (bd[i].size() != 7) { sym_fail("bounds line of %d numbers", (int)bd[i].size()); continue; } sym_check((int)bd[i][3] == r.nodes, "bounds line %d: %d states touched instead of %d", i, (int)bd[i][3], r.nodes); sym_check((int)bd[i][4] == r.expanded, "bounds line %d: %d states expanded instead of %d", i, (int)bd[i][4], r.expanded); sym_cover("line");
  }
}
static const char *EXTRA[] = {"", "useMaxPlanesCache 0 useMaxPlanesExtraPruning 0 ", "useMaxPlanesMasking 0 useMaxPlanesSupportList 0 ", "useSawtoothSupportList 0 "};
SYM_CASE(storage_pomdp, "4 POMDPs, any of 4 searches, 4 options of the bounds, any time limit up to 4 trials, any precision, one symbolic reward: every storage and bounds line") { int k = sym_int("model", 0, 3), o = sym_int("search", 0, 3), x = sym_int("options", 0, 3); bool r = sym_bool("reward"); double T = sym_double("limit", 5, 45), p = r ? -1 : sym_double("precision", 0.1, 20); logs(zfam(k, r), std::string(POM[o]) + EXTRA[x], T, p); }
SYM_CASE(storage_mdp, "4 MDPs, any of 5 searches, with one or both bounds: the same") { int k = sym_int("model", 0, 3), o = sym_int("search", 0, 4); std::string s = MOP[o]; if (o >= 2 && sym_bool("upper bound only")) s = s.substr(0, s.find("maintain")) + "maintainLowerBound 0 "; double T = sym_double("limit", 5, 45), p = sym_double("precision", 0.1, 10); logs(mm(k, o), s, T, p); }
// ---- reporting does not change the search
SYM_CASE(no_influence, "4 POMDPs or MDPs, one symbolic reward, searches that draw no random numbers: the bounds, backups and nodes after each of 3 trials are the same with all evaluations, policies, storage and backup logs as with none") {
  bool mdp = sym_bool("mdp"); int k = sym_int("model", 0, 3), o = sym_int("search", 0, mdp ? 1 : 3), l = sym_int("logs", 0, 4); bool pol = sym_bool("policies"), cache = sym_bool("cache"); ZModel m = mdp ? zmfam(k, 1) : zfam(k, 1); std::string s = mdp ? MOP[o] : POM[o]; double T = 25;
  bench(m, s, T, -1, 1e6, false, 1, 1, false); std::vector<Call> c0 = CALLS; std::vector<Snap> s0 = SNAPS; bench(m, s + LOGS[l], T, -1, 0, pol, 3, 3, cache);
  sym_check(CALLS.size() == c0.size(), "%d trials instead of %d", (int)CALLS.size(), (int)c0.size()); for (size_t i = 0; i < c0.size() && i < CALLS.size(); i++) { sym_check_eq(CALLS[i].lb, c0[i].lb, 1e-9, "lower bound after trial %d", (int)i); sym_check_eq(CALLS[i].ub, c0[i].ub, 1e-9, "upper bound after trial %d", (int)i); sym_check(CALLS[i].backups == c0[i].backups && SNAPS[i].nodes == s0[i].nodes && SNAPS[i].expanded == s0[i].expanded, "backups and nodes after trial %d", (int)i); for (int q = 0; q < 8; q++) sym_check(SNAPS[i].s[q] == s0[i].s[q], "%s after trial %d", SNAME[q], (int)i); } sym_cover("compared");
}
// ---- the evaluation of the last epoch
static vec follow(const ZModel &m, const vec &b, int a, int o) { vec u; double p = zobs(m, b, a, o, u); for (auto &x : u) x = x / p; return u; }
static state_vector sv(const vec &b) { state_vector s; s.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > 1e-12) s.push_back(i, b[i]); return s; }
// the 95% interval: quantiles of the means of 2000 resamples of the returns, drawn with the random numbers that follow
static void interval(const vec &ret, const std::vector<double> &log, size_t used, double lo, double hi) {
  int n = ret.size(); std::map<std::vector<int>, int> cnt; for (int i = 0; i < 2000; i++) { std::vector<int> c(n, 0); for (int j = 0; j < n; j++) { if (used >= log.size()) { sym_fail("interval of too few resamples"); return; } c[std::min((int)(log[used++] * n), n - 1)]++; } cnt[c]++; }
  std::vector<std::pair<double, int>> v; for (auto &x : cnt) { double m = 0; for (int j = 0; j < n; j++) m = m + ret[j] * x.first[j] / n; size_t k = 0; while (k < v.size() && v[k].first < m) k++; v.insert(v.begin() + k, {m, x.second}); }
  auto at = [&](int i) { for (auto &x : v) { if (i < x.second) return x.first; i -= x.second; } return v.back().first; };
  double a = (at(49) + at(50)) / 2, b = (at(1949) + at(1950)) / 2; sym_check_eq(lo, a, 2e-3, "lower end of the 95%% interval"); sym_check_eq(hi, b, 2e-3, "upper end of the 95%% interval");
}
static ZModel coin() { ZModel m(3, 2, 3, 0.5); double r = sym_double("r", 1, 9); for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) { m.T[a][s][0] = 0.25; m.T[a][s][1] = 0.5; m.T[a][s][2] = 0.25; for (int o = 0; o < 3; o++) m.Z[a][s][o] = o == s; m.R[a][s] = s == 0 ? 2 * r : s == 1 ? 1 - a : -r - a; } m.b0 = {0, 1, 0}; return m; }
static void evaluation(int k) {
  int few = k == 4, o = sym_int("search", 0, 1), n = sym_int("trials", 1 + few, 3), steps = sym_int("steps", 1 + few, 3), pat = sym_int("pattern", 0, few ? 1 : 3); ZModel m = k == 4 ? coin() : zfam(k, 1); Setup *s = NULL; std::vector<double> f; for (int i = 0; i < 9; i++) f.push_back(((pat * 5 + i * 7) % 13) / 13.0 + 0.031); std::vector<double> script = f; for (int i = 0; i < 4000 * n; i++) script.push_back(((i * 37 + i / 7 * 11) % 101) / 101.0);
  double T = 10 * sym_int("search trials", 1, few ? 1 : 3) - 5; FRACS = script; for (int pass = 0; pass < 2; pass++) s = bench(m, POM[o], T, -1, 1e6, false, n, steps, false); FRACS.clear();
  std::vector<double> log = sym_rand_log(); size_t used = SEEDED; double mean = 0; vec ret(n, 0.0); for (int t = 0; t < n; t++) { vec b = m.b0; double g = 1; for (int j = 0; j < steps; j++) { int a = BP->chooseAction(sv(b)); double gr = g * zrew(m, b, a); mean = mean + gr / n; ret[t] = ret[t] + gr; g *= m.gamma; if (used >= log.size()) { sym_fail("too few random numbers"); return; } double r = log[used++], c = 0; int pick = -1, last = 0; for (int q = 0; q < m.O && pick < 0; q++) { vec u; double p = zobs(m, b, a, q, u); if (p == 0) continue; c += p; last = q; if (r < c) pick = q; } if (pick < 0) pick = last; b = follow(m, b, a, pick); bool term = true; for (int q = 0; q < m.S; q++) if (b[q] > 1e-12 && !zterm(m, q)) term = false; if (term) break; } }
  std::vector<vec> ev = rows(s->c.getString("evaluationOutputFile")); sym_check(ev.size() == 1, "%d evaluation lines", (int)ev.size()); if (ev.size() == 1 && ev[0].size() == 5) { sym_check_eq(ev[0][1], mean, 2e-3, "logged mean"); sym_check_le(ev[0][2], mean, 2e-3, "interval"); sym_check_le(mean, ev[0][3], 2e-3, "interval"); interval(ret, log, used, ev[0][2], ev[0][3]); sym_cover("mean"); if (n > 1 && !sym_is_symbolic(ev[0][2] - ev[0][3]) && ev[0][3] - ev[0][2] > 0.01) sym_cover("spread"); if (sym_is_symbolic(ev[0][2] - ev[0][3])) sym_cover("symbolic spread"); } else sym_fail("evaluation line not understood");
}
#define E "then 1-3 evaluation trials of 1-3 steps of fixed random numbers of 4 patterns: the mean logged and its 95% interval are those of the returns of the bounds' greedy policy"
SYM_CASE(evaluation, "4 POMDPs with one symbolic reward, 2 searches, 1-3 trials of search, " E) { evaluation(sym_int("model", 0, 3)); }
SYM_CASE(evaluation_chance, "a POMDP whose rewards are left to chance, one of them symbolic, 2 searches, one trial of search, " E) { evaluation(4); }
