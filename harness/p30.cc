// P30: the RockExplore model
#include "re_h.h"
#include "Pomdp.h"
static void pos(int r, int x, int y) { re_par.pos[2 * r] = x; re_par.pos[2 * r + 1] = y; }
static void layout() { static const int g[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}}; int k = sym_int("grid", 0, sym_thorough() ? 4 : 3); small(g[k][0], g[k][1]); int n = re_par.w * re_par.h; for (int r = 0; r < NR; r++) pos(r, 7 + r, 7); int a = sym_int("rock0", 0, n), b = sym_int("rock1", 0, n - 1); if (a < n) { pos(0, a % re_par.w, a / re_par.w); if (b != a) pos(1, b % re_par.w, b / re_par.w); } else pos(3, b % re_par.w, b / re_par.w); int c = sym_int("start", 0, n - 1); re_par.ix = c % re_par.w; re_par.iy = c / re_par.w; }
static void allRules(const char *w) {
  for (int i = 0; i < m.getNumStates(); i++) for (int a = 0; a < NA; a++) {
    XS s = xs(m.states[i]); double rew; XS n = step(s, a, rew); REActionResult out = m.getActionResult(i, a);
    sym_check_eq(out.reward, rew, 1e-9, "%s: reward of action %d in state %d (%d,%d,%x)", w, a, i, s.x, s.y, s.good); bel want; want[idx(n)] = 1; same(fromRE(out.outcomes, w), want, 1, w);
    double sum = 0; REObsProbs op = m.getObsProbs(a, i); sym_check((int)op.size() == 2 && m.getNumObservations() == 2, "%s: number of observations", w);
    for (int o = 0; o < 2; o++) { double p = m.getObsProb(a, i, o); sum += p; sym_check(fabs(p - obsp(a, s, o)) < 1e-9 && p == op[o], "%s: observation %d after action %d in state %d has probability %g, not %g", w, o, a, i, p, obsp(a, s, o)); }
    sym_check(fabs(sum - 1) < 1e-9, "%s: observation probabilities sum to %g", w, sum);
  }
}
static void reachable(const char *w) {
  sym_check(m.getNumStates() == (int)m.states.size() && m.getNumActions() == NA, "%s: sizes", w); sym_check(m.states[0].isTerminalState, "%s: state 0 is not the terminal state", w);
  std::set<int> seen; std::vector<XS> q; bel b0 = fromRE(m.getInitialBelief(), w); double sum = 0;
  for (int g = 0; g < 1 << NR; g++) { double p = 1; for (int r = 0; r < NR; r++) p = p * (g >> r & 1 ? re_par.prior : 1 - re_par.prior); XS s = {false, re_par.ix, re_par.iy, g}; bool zero = !sym_is_symbolic(p) && p == 0; auto i = INDEX.find(code(s)); double got = i != INDEX.end() && b0.count(i->second) ? b0[i->second] : 0; sym_check_eq(got, p, 1e-9, "%s: initial probability of rocks %x", w, g); if (!zero && i != INDEX.end() && b0.count(i->second)) q.push_back(s); sum = sum + got; }
  sym_check_eq(sum, 1, 1e-9, "%s: initial belief", w); sym_check(!q.empty(), "%s: no initial state", w); for (auto &s : q) seen.insert(code(s));
  for (size_t i = 0; i < q.size(); i++) for (int a = 0; a < NA; a++) { double r; XS n = step(q[i], a, r); idx(n); if (seen.insert(code(n)).second) q.push_back(n); }
  sym_check((int)seen.size() == m.getNumStates(), "%s: %d states, %d can be reached", w, m.getNumStates(), (int)seen.size());
  std::set<std::string> names; for (int i = 0; i < m.getNumStates(); i++) { std::string n = m.getStateString(i); sym_check(names.insert(n).second, "%s: state name %s occurs twice", w, n.c_str()); sym_check(m.getStateId(m.states[i]) == i, "%s: the index of state %d is looked up as %d", w, i, m.getStateId(m.states[i])); XS s = xs(m.states[i]); std::string e = "st"; if (!s.term) { e = zfmt("sx%dy%dr", s.x, s.y); for (int r = 0; r < NR; r++) e += s.good >> r & 1 ? '1' : '0'; } sym_check(n == e, "%s: state %s is called %s", w, e.c_str(), n.c_str()); }
  std::set<std::string> an; for (int a = 0; a < NA; a++) sym_check(an.insert(m.getActionString(a)).second, "%s: action name occurs twice", w); sym_check(m.getObservationString(0) != m.getObservationString(1), "%s: observation names", w);
}
SYM_CASE(rules, "grids of up to 4 (thorough 6) cells, two rocks anywhere (and others off the map), any start, any rewards: all states and actions") { layout(); rewards(); build(); reachable("small"); allRules("small"); sym_check(m.getNumStates() > 1, "states"); sym_cover("rules"); }
SYM_CASE(rules_default, "the parameters of the sources with any rewards") { rewards(); build(); reachable("default"); allRules("default"); sym_cover("rules"); }
SYM_CASE(prior, "any prior, and priors of 0 and 1: states and initial belief") { small(2, 1); pos(0, 0, 0); pos(1, 1, 0); int k = sym_int("kind", 0, 2); re_par.prior = k < 2 ? k : sym_double("prior", 0.01, 0.99); re_par.ix = sym_int("start", 0, 1); build(); reachable("prior"); allRules("prior"); sym_cover("prior"); }
// ---- beliefs
static void judge(const bel &b, int a, const char *w) {
  REBelief rb = toRE(b); REObsProbsResult r = m.getBeliefResult(rb, a); sym_check((int)r.obsProbs.size() == 2, "%s: observations", w); sym_check_eq(r.expectedReward, erew(b, a), 1e-9, "%s: expected reward of action %d", w, a);
  for (int o = 0; o < 2; o++) { double po; bel u = post(b, a, o, po); sym_check_eq(r.obsProbs[o], po, 1e-9, "%s: probability of observation %d after action %d", w, o, a); if (!nz(po)) continue; sym_assume_le(1e-4, po); REBelief nb = m.getUpdatedBelief(rb, a, o); bel g = fromRE(nb, w); double s = 0; for (auto &e : nb) s = s + e.prob; sym_check_eq(s, 1, 1e-9, "%s: sum of the updated belief", w); same(g, u, po, w); }
  sym_cover("updated");
}
SYM_CASE(update, "any belief over 2-3 states (one anywhere, a neighbour with other rocks or place, the terminal state), every action and observation") {
  small(2, 1); pos(0, 0, 0); pos(1, 1, 0); build(); int i = sym_int("state", 1, m.getNumStates() - 1), how = sym_int("other", 0, 3), a = sym_int("action", 0, NA - 1); XS s = xs(m.states[i]), t = s; if (how < 2) t.good ^= 1 << how; else if (how == 2) t.x = 1 - t.x; else t.good ^= 15;
  bel b; bool third = sym_bool("terminal"); double p = sym_double("p", 0.05, 0.9), q = third ? sym_double("q", 0.01, 0.9) : 0; sym_assume_le(p + q, 0.99); b[i] = p; b[idx(t)] = 1 - p - q; if (third) b[0] = q; judge(b, a, "update");
}
SYM_CASE(update_rewards, "any rewards, fixed beliefs over five states, every action") { small(2, 2); pos(0, 0, 1); pos(1, 1, 1); rewards(); build(); static const double P[] = {0.125, 0.25, 0.375, 0.0625, 0.1875}; int k = sym_int("first", 0, 6), n = m.getNumStates(); bel b; for (int i = 0; i < 5; i++) b[(k * 9 + i * 11) % n] = P[i]; judge(b, sym_int("action", 0, NA - 1), "rewards"); }
SYM_CASE(marginals, "beliefs from any two rocks' marginals (the others fixed, certain or not): the inverse, and every check action") {
  small(2, 1); for (int r = 0; r < NR; r++) pos(r, 1, 0); pos(0, 0, 0); build(); int i = sym_int("rockA", 0, NR - 2), j = sym_int("rockB", i + 1, NR - 1), fix = sym_int("fixed", 0, 3); static const double F[] = {0, 1, 0.5, 0.25}; RERockProbs p(NR, F[fix]); p[i] = sym_double("p", 0, 1); p[j] = sym_double("q", 0.01, 0.99); int x = sym_int("x", 0, 1);
  REBelief rb = m.getBelief(REPos(x, 0), p); bel b = fromRE(rb, "marginals"); double sum = 0;
  for (int g = 0; g < 1 << NR; g++) { double e = 1; for (int r = 0; r < NR; r++) e = e * (g >> r & 1 ? p[r] : 1 - p[r]); XS s = {false, x, 0, g}; double got = b.count(idx(s)) ? b[idx(s)] : 0; sym_check_eq(got, e, 1e-9, "probability of rocks %x", g); sum = sum + got; }
  sym_check_eq(sum, 1, 1e-9, "sum"); for (auto &e : b) { XS s = xs(m.states[e.first]); sym_check(!s.term && s.x == x && s.y == 0, "position of state %d", e.first); }
  RERockProbs back = m.getRockProbs(rb); sym_check((int)back.size() == NR, "size"); for (int r = 0; r < NR; r++) sym_check_eq(back[r], p[r], 1e-9, "marginal of rock %d", r);
  int c = sym_int("check", 0, NR - 1), o = sym_int("obs", 0, 1); double hit = re_par.pos[2 * c] == x ? 1 : 0.95, l1 = o ? hit : 1 - hit, l0 = o ? 1 - hit : hit, po = p[c] * l1 + (1 - p[c]) * l0; sym_assume_le(1e-3, po);
  RERockProbs after = m.getRockProbs(m.getUpdatedBelief(rb, 5 + c, o)); for (int r = 0; r < NR; r++) sym_check_eq(after[r] * po, r == c ? p[c] * l1 : p[r] * po, 1e-9, "marginal of rock %d after checking rock %d", r, c); sym_cover("marginals");
}
SYM_CASE(terminal_probs, "any belief that puts some probability on the terminal state: rock probabilities and map") {
  small(2, 2); pos(0, 0, 0); pos(1, 1, 1); build(); int i = sym_int("state", 0, m.getNumStates() - 1); double p = sym_double("p", 0, 1); bel b; b[0] = 1 - p; if (i) b[i] = p; else b[0] = 1; RERockProbs r = m.getRockProbs(toRE(b)); for (int k = 0; k < NR; k++) sym_check_eq(r[k], i && xs(m.states[i]).good >> k & 1 ? p : 0, 1e-9, "rock %d", k);
  std::string t = m.getMap(i, toRE(i ? bel{{i, 1}} : bel{{0, 1}})); XS s = xs(m.states[i]); std::string e;
  if (s.term) e = "[terminal state]"; else { std::string bar(re_par.w * 2 + 3, '#'); e = bar + "\n"; for (int y = re_par.h - 1; y >= 0; y--) { e += "# "; for (int x = 0; x < re_par.w; x++) { int rk = -1; for (int k = NR - 1; k >= 0; k--) if (re_par.pos[2 * k] == x && re_par.pos[2 * k + 1] == y) rk = k; e += s.x == x && s.y == y ? "*" : rk < 0 ? "." : zfmt("%d", rk); e += rk < 0 ? " " : s.good >> rk & 1 ? "+" : "-"; } e += "x\n"; } e += bar + "\nRock probs: "; for (int k = 0; k < NR; k++) e += zfmt("%d=%s ", k, s.good >> k & 1 ? "1.000" : "0.000"); e += "\n"; }
  sym_check(t == e, "map of state %d is\n%s", i, t.c_str()); sym_cover("map");
}
// ---- sampling and the most likely state
static vec dist(int n, int supp) { vec b(n, 0.0); double rest = 1; int last = -1; for (int i = 0; i < n; i++) if (supp >> i & 1) last = i; for (int i = 0; i < last; i++) if (supp >> i & 1) { b[i] = sym_doublef(1e-4, 1, "p%d", i); rest = rest - b[i]; } b[last] = rest; sym_assume_le(1e-4, rest); return b; }
static void sampled(const vec &p, double r, int o, const char *what) {
  int n = p.size(); sym_check(o >= 0 && o < n, "%s: outcome %d of %d", what, o, n); if (o < 0 || o >= n) return; sym_check(nz(p[o]), "%s: outcome %d has probability zero", what, o);
  double lo = 0; for (int i = 0; i < o; i++) lo = lo + p[i]; sym_check_le(lo, r, 1e-9, "%s: outcome %d starts above the random number", what, o); sym_check_le(r, lo + p[o], 1e-9, "%s: outcome %d ends below the random number", what, o);
}
SYM_CASE(sampling, "1-4 (thorough 5) outcomes, every support, any probabilities, any random number including 0 and 1") {
  int n = sym_int("size", 1, sym_thorough() ? 5 : 4), supp = sym_int("support", 1, (1 << n) - 1); bool obs = sym_bool("observations"); vec p = dist(n, supp); int o;
  if (obs) o = REBasicPomdp::chooseStochasticOutcome(REObsProbs(p.begin(), p.end())); else { REBelief b; for (int i = 0; i < n; i++) b.push_back(REBeliefEntry(p[i], 10 + 3 * i)); int k = REBasicPomdp::chooseStochasticOutcome(b); sym_check(k >= 10 && (k - 10) % 3 == 0, "outcome %d", k); o = (k - 10) / 3; }
  std::vector<double> l = sym_rand_log(); sym_check(l.size() == 1, "%d random numbers drawn", (int)l.size()); sampled(p, l[0], o, obs ? "observations" : "states"); sym_cover("sampled");
}
SYM_CASE(sampling_short, "probabilities that sum to up to 1e-12 less than one (round-off)") {
  int n = sym_int("size", 1, 4), supp = sym_int("support", 1, (1 << n) - 1); bool obs = sym_bool("observations"); vec p = dist(n, supp); double miss = sym_double("missing", 0, 1e-12); for (int i = n - 1; i >= 0; i--) if (supp >> i & 1) { p[i] = p[i] - miss; break; } int o;
  if (obs) o = REBasicPomdp::chooseStochasticOutcome(REObsProbs(p.begin(), p.end())); else { REBelief b; for (int i = 0; i < n; i++) b.push_back(REBeliefEntry(p[i], i)); o = REBasicPomdp::chooseStochasticOutcome(b); } sampled(p, sym_rand_log()[0], o, "short"); sym_cover("sampled");
}
SYM_CASE(likeliest, "any belief of 2-4 entries with every support") { int n = sym_int("size", 2, 4), supp = sym_int("support", 1, (1 << n) - 1); vec p = dist(n, supp); REBelief b; for (int i = 0; i < n; i++) b.push_back(REBeliefEntry(p[i], 40 - 7 * i)); int k = REBasicPomdp::getMostLikelyState(b); int i = (40 - k) / 7; sym_check(k == 40 - 7 * i && i >= 0 && i < n, "state %d", k); for (int j = 0; j < n; j++) sym_check_le(p[j], p[i], 1e-9, "state %d is likelier than state %d", j, i); sym_cover("likeliest"); }
// ---- the written model file means the same model
static void written(double tol, const char *w) {
  std::string f = zpath("re.pomdp"); m.writeCassandraModel(f); m.writeCassandraModel(f); CassandraModel *p = pload(f, false, false); int n = m.getNumStates();
  sym_check(p->numStates == n && p->numActions == NA && p->numObservations == 2, "%s: sizes %d %d %d", w, p->numStates, p->numActions, p->numObservations); sym_check_eq(p->discount, re_par.disc, tol, "%s: discount", w); bel b0 = fromRE(m.getInitialBelief(), w);
  for (int i = 0; i < n; i++) { sym_check_eq(p->initialBelief(i), b0.count(i) ? b0[i] : 0, tol, "%s: initial belief, state %d", w, i); XS s = xs(m.states[i]);
    for (int a = 0; a < NA; a++) { double r; int t = idx(step(s, a, r)); sym_check_eq(p->R(i, a), r, tol, "%s: R(%d,%d)", w, i, a); for (int j = 0; j < n; j++) sym_check_eq(p->T[a](i, j), j == t, tol, "%s: T[%d](%d,%d)", w, a, i, j); for (int o = 0; o < 2; o++) sym_check_eq(p->O[a](i, o), obsp(a, s, o), tol, "%s: O[%d](%d,%d)", w, a, i, o); } }
  sym_cover("loaded");
}
SYM_CASE(written_file, "1-2 cells, any one positive reward, discount or prior: the written model loads back the same") { small(sym_int("w", 1, 2), 1); pos(0, 0, 0); pos(1, 1, 0); int k = sym_int("which", 0, 3); if (k == 0) re_par.leave = sym_double("exit", 0.5, 50); if (k == 1) re_par.good = sym_double("good", 0.5, 50); if (k == 2) re_par.disc = sym_double("discount", 0.01, 0.99); if (k == 3) re_par.prior = sym_double("prior", 0.01, 0.99); build(); written(1e-9, "written"); }
SYM_CASE(written_digits, "fixed parameters with many digits: what the written file keeps of them") { small(2, 1); pos(0, 0, 0); re_par.prior = sym_bool("third") ? 1 / 3.0 : 0.7; re_par.ix = sym_int("start", 0, 1); re_par.good = 15.015625; build(); written(1e-8, "digits"); }
SYM_CASE(written_default, "the parameters of the sources") { build(); written(1e-8, "default"); }
