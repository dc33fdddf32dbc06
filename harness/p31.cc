// P31: the LifeSurvey model family
#define ZH_NO_EMBED
#include "parse_h.h"
#include "zmdpMainConfig.cc"
#include <map>
#include <set>
#include <algorithm>
#include "LSPathAndReactExec.h"
#define main lsgen_dummy; void lsgen_main
#define usage lsgen_usage
#include "pomdpModels/lifeSurvey/gen_LifeSurvey.cc"
#undef main
#undef usage
typedef std::vector<std::string> rowsT; typedef std::pair<int, int> xy;
// ---- the rules, written down independently
struct St { bool term; int x, y, d, used, life[3]; std::vector<int> lev; };
struct Rules {
  std::map<xy, int> g; int sx, sy; double base, look; vec prior, absent, present; std::set<xy> targets; bool haveTargets = false; double scale = 1;
  int cell(int x, int y) const { auto i = g.find(xy(x, y)); return i == g.end() ? -1 : i->second; }
  bool exit(int x, int y) const { for (auto &c : g) if (c.first.second == y && c.first.first > x) return false; return true; }
  static xy next(int x, int y, int d) { return d == 0 ? xy(x + 1, y + 1) : d == 1 ? xy(x + 1, y) : xy(x, y - 1); }
  bool legal(int x, int y, int last, int d) const { xy n = next(x, y, d); return cell(n.first, n.second) >= 0 && !(last == 0 && d == 2) && !(last == 2 && d == 0); }
  double p(xy c) const { int r = cell(c.first, c.second); return r < 0 ? 0 : haveTargets ? (double)targets.count(c) : prior[r]; }
  bool reach(int r, int x, int y) const { if (cell(x, y) < 0) return false; if (cell(x, y) == r) return true; for (int d = 0; d < 3; d++) { xy n = next(x, y, d); if (reach(r, n.first, n.second)) return true; } return false; }
  mutable std::map<std::pair<int, xy>, bool> memo;
  bool reaches(int r, int x, int y) const { auto k = std::make_pair(r, xy(x, y)); auto i = memo.find(k); return i != memo.end() ? i->second : memo[k] = reach(r, x, y); }
  std::string key(const St &s) const { if (s.term) return "T"; std::string k = zfmt("%d,%d,%d,%d,%d%d%d:", s.x, s.y, s.d, s.used, s.life[0], s.life[1], s.life[2]); for (size_t r = 0; r < prior.size(); r++) k += reaches(r, s.x, s.y) ? zfmt("%d", s.lev[r]) : "-"; return k; }
  typedef std::vector<std::pair<St, double>> dist;
  dist step(const St &s, int a, double &rew) const {
    static const double V[] = {0, 5, 20, 50}; dist o; St n = s; rew = 0;
    if (s.term) { o.push_back({s, 1}); return o; }
    if (a == 6) { if (s.used) { rew = -100; } else { rew = -look * base; n.used = 1; } o.push_back({n, 1}); return o; }
    int d = a % 3, samp = a / 3;
    if (!legal(s.x, s.y, s.d, d)) { rew = -100; o.push_back({s, 1}); return o; }
    xy q = next(s.x, s.y, d); n.x = q.first; n.y = q.second; n.d = d; n.used = 0; int r = cell(n.x, n.y), nl = s.life[d] ? (samp ? 3 : 2) : 1;
    rew = (nl > s.lev[r] ? V[nl] - V[s.lev[r]] : 0) - (samp ? 5 : 1) * base; n.lev[r] = std::max(nl, s.lev[r]);
    if (exit(n.x, n.y)) { St t = n; t.term = true; o.push_back({t, 1}); return o; }
    double np[3]; for (int j = 0; j < 3; j++) np[j] = p(next(n.x, n.y, j));
    if (d == 0) np[2] = s.life[1]; if (d == 2) np[0] = s.life[1];
    for (int k = 0; k < 8; k++) { double w = 1; bool zero = false; for (int j = 0; j < 3; j++) { n.life[j] = k >> j & 1; double f = n.life[j] ? np[j] : 1 - np[j]; if (!sym_is_symbolic(f) && f == 0) zero = true; w *= f; } if (!zero) o.push_back({n, w}); }
    return o;
  }
  double obs(const St &s, int a, int oi) const { if (s.term || a != 6) return oi == 27; if (oi == 27) return 0; int c[3] = {oi / 9, oi / 3 % 3, oi % 3}; double w = 1; for (int j = 0; j < 3; j++) w *= s.life[j] ? present[c[j]] : absent[c[j]]; return w; }
  dist start() const { St s; s.term = false; s.x = sx - 1; s.y = sy; s.d = 1; s.used = 0; for (int &l : s.life) l = 0; s.lev.assign(prior.size(), 0); double r; return step(s, 1, r); }
  // ---- text form
  static int pad(int y) { return (y + 1) / 2; }
  void setMap(const rowsT &t) { g.clear(); for (size_t i = 0; i < t.size(); i++) { int y = t.size() - 1 - i; for (size_t c = 0; c < t[i].size(); c++) if (t[i][c] != ' ') g[xy(pad(y) + ((int)c - y % 2) / 2, y)] = t[i][c] - 'a'; } }
  vec scaled(vec v) const { for (double &x : v) x *= scale; return v; }
  std::string text(const rowsT &t, bool last = true) const {
    std::string o = zfmt("startX %d\nstartY %d\nbaseCost ", sx, sy) + sym_text(base) + "\nlookaheadCost " + sym_text(look) + "\n# a comment\n\nregionPriors" + Spec::nums(prior) + "\nobsDistributionLifeAbsent " + Spec::nums(scaled(absent)) + "\nobsDistributionLifePresent" + Spec::nums(scaled(present)) + "\n---\n";
    for (size_t i = 0; i < t.size(); i++) o += t[i] + (i + 1 < t.size() || last ? "\n" : ""); return o;
  }
};
static bool nz(double d) { return sym_is_symbolic(d) || d != 0; }
static St fromLS(const LSState &s, int regions) { St r; r.term = s.isTerminal(); r.x = s.pos.x; r.y = s.pos.y; r.d = s.lastMoveDirection; r.used = s.usedLookaheadInThisCell; for (int i = 0; i < 3; i++) r.life[i] = s.lifeInNeighborCell[i]; r.lev = s.rewardLevelInRegion; if (r.term) r.lev.assign(regions, 0); return r; }
static LSState toLS(const Rules &R, const St &s) { if (s.term) return LSState::getTerminalState(); LSState r; r.pos = LSPos(s.x, s.y); r.lastMoveDirection = s.d; r.usedLookaheadInThisCell = s.used; for (int i = 0; i < 3; i++) r.lifeInNeighborCell[i] = s.life[i]; r.rewardLevelInRegion = s.lev; for (size_t k = 0; k < s.lev.size(); k++) if (!R.reaches(k, s.x, s.y)) r.rewardLevelInRegion[k] = LS_UNREACHABLE; return r; }
typedef std::map<std::string, double> kdist;
static kdist merge(const Rules &R, const Rules::dist &d) { kdist k; for (auto &x : d) k[R.key(x.first)] += x.second; return k; }
static kdist mergeLS(const Rules &R, const std::vector<LSOutcome> &v) { kdist k; for (auto &x : v) k[R.key(fromLS(LSState(x.nextState), R.prior.size()))] += x.prob; return k; }
static void same(const kdist &a, const kdist &b, const std::string &w) { std::set<std::string> all; for (auto &x : a) all.insert(x.first); for (auto &x : b) all.insert(x.first); for (auto &k : all) { double p = a.count(k) ? a.at(k) : 0, q = b.count(k) ? b.at(k) : 0; sym_check_eq(p, q, 1e-9, "%s: probability of %s", w.c_str(), k.c_str()); } }
static int regionsOf(const rowsT &t) { int n = 0; for (auto &r : t) for (char c : r) if (c != ' ') n = std::max(n, c - 'a' + 1); return n; }
struct Map { rowsT t; int sx, sy; };
static const Map MAPS[] = {
  {{"a b b"}, 0, 0}, {{" a b", "a a b"}, 0, 0}, {{"a b", " a b", "a a"}, 1, 1}, {{"a a c", " a b b", "a   a"}, 1, 1}, {{" a b", "a b b", "   a b", "a b"}, 2, 3}, {{" a b", "  a b"}, 1, 1}, {{"a a a b", " a c b", "a a a c"}, 1, 2}, {{"a", " a", "  a", "   b b", "  c   a"}, 2, 4}, {{"    a b", "   a", "  a", " a", "a c"}, 0, 0}};
static Rules rules(int k, unsigned symPriors, bool symCost, int obs) {
  Rules R; R.setMap(MAPS[k].t); R.sx = MAPS[k].sx; R.sy = MAPS[k].sy; static const double P[] = {0.125, 0.5, 0.25};
  for (int r = 0; r < regionsOf(MAPS[k].t); r++) R.prior.push_back(symPriors >> r & 1 ? sym_double(zfmt("prior%d", r).c_str(), 0.01, 0.99) : P[r]);
  R.base = symCost ? sym_double("base cost", 0, 10) : 1.5; R.look = symCost ? sym_double("look cost", 0, 10) : 5;
  R.absent = {0.5, 0.375, 0.125}; R.present = {0.125, 0.25, 0.625};
  if (obs == 1) { double p = sym_double("absent0", 0.01, 0.5); R.absent = {p, 0.25, 0.75 - p}; } if (obs == 2) { double p = sym_double("present1", 0.01, 0.5); R.present = {0.25, p, 0.75 - p}; } if (obs == 3) { R.absent = {1, 0, 0}; R.present = {0, 0.5, 0.5}; }
  return R;
}
static std::vector<St> reachable(const Rules &R, size_t cap) { std::vector<St> q; std::set<std::string> seen; auto add = [&](const St &s) { if (q.size() < cap && seen.insert(R.key(s)).second) q.push_back(s); }; for (auto &x : R.start()) add(x.first); for (size_t i = 0; i < q.size(); i++) { St s = q[i]; for (int a = 0; a < 7; a++) { double r; for (auto &x : R.step(s, a, r)) add(x.first); } } return q; }
// ---- the model's rules, every reachable state and action
static void ruleCheck(const Rules &R, const rowsT &t, size_t cap, const char *targets = NULL) {
  std::string f = zpath("m.lifeSurvey"); zwrite(f, R.text(t)); LSModel m; m.init(f);
  if (targets) { std::string tf = zpath("targets"); zwrite(tf, targets); m.setTargetList(tf); }
  std::vector<LSOutcome> o; m.getInitialStateDistribution(o); same(mergeLS(R, o), merge(R, R.start()), "start");
  std::vector<St> q = reachable(R, cap); sym_check(LSState::getTerminalState().isTerminal(), "the terminal state is not terminal");
  for (const St &s : q) {
    LSState ls = toLS(R, s); sym_check(ls.isTerminal() == s.term, "terminal: %s", R.key(s).c_str()); int si = ls.toInt(); sym_check(R.key(fromLS(LSState(si), R.prior.size())) == R.key(s), "the state with the index of %s is another one", R.key(s).c_str());
    for (int a = 0; a < 7; a++) {
      double r = 0, e; auto d = R.step(s, a, e); m.getOutcomes(o, r, ls, a); std::string w = R.key(s) + " action " + zfmt("%d", a); same(mergeLS(R, o), merge(R, d), w); sym_check_eq(r, e, 1e-9, "%s: reward", w.c_str());
      std::vector<LSObsOutcome> z; m.getObservations(z, si, a); vec p(28, 0.0); for (auto &x : z) { sym_check(x.obs >= 0 && x.obs < 28, "observation out of range"); p[x.obs] += x.prob; } for (int k = 0; k < 28; k++) { double q = R.obs(s, a, k); if (nz(p[k]) || nz(q)) sym_check_eq(p[k], q, 1e-9, "%s: probability of observation %d on arrival", w.c_str(), k); }
    }
  }
  sym_cover(q.size() > 10 ? "many states" : "few states");
}
#define CAP (sym_thorough() ? 2000 : 150)
SYM_CASE(rules_prior, "7 maps of 1-4 rows with up to 3 regions: any prior of one region; every action in up to 150 (2000) reachable states") { int k = sym_int("map", 0, 6), n = regionsOf(MAPS[k].t); ruleCheck(rules(k, 1u << sym_int("region", 0, n - 1), false, 0), MAPS[k].t, CAP); }
SYM_CASE(rules_winding, "2 maps with a long diagonal corridor: any prior of one region; every action in up to 150 (2000) reachable states") { int k = 7 + sym_bool("up"); ruleCheck(rules(k, 1u << sym_int("region", 0, 2), false, 0), MAPS[k].t, CAP); }
SYM_CASE(rules_priors, "4 maps: any priors of two regions; every action in up to 150 (2000) reachable states") { int k = 1 + sym_int("map", 0, 3); ruleCheck(rules(k, sym_bool("other") && regionsOf(MAPS[k].t) == 3 ? 6 : 3, false, 0), MAPS[k].t, CAP); }
SYM_CASE(rules_cost, "7 maps: any costs; every action in up to 150 (2000) reachable states") { int k = sym_int("map", 0, 6); ruleCheck(rules(k, 0, true, 0), MAPS[k].t, CAP); }
SYM_CASE(rules_obs, "2 maps: any probability of one reading, the readings given as probabilities or as counts that add to less or more than one") { static const double S[] = {1, 0.25, 8}; int k = sym_int("map", 0, 1); Rules R = rules(k, 0, false, sym_int("distribution", 1, 3)); R.scale = S[sym_int("scale", 0, 2)]; ruleCheck(R, MAPS[k].t, 60); }
SYM_CASE(rules_targets, "a map with any set of known target cells") { int k = 1 + sym_int("map", 0, 1); Rules R = rules(k, 0, false, 0); R.haveTargets = true; std::string t = "# targets\n"; for (auto &c : R.g) if (sym_bool(zfmt("t%d_%d", c.first.first, c.first.second).c_str())) { R.targets.insert(c.first); t += zfmt("%d %d\n", c.first.first, c.first.second); } t += "90 -3\n"; ruleCheck(R, MAPS[k].t, 60, t.c_str()); }
// ---- the map's text
static void mapCheck(const LSModelFile &f, const Rules &R, const char *w) {
  for (int y = -2; y < 7; y++) for (int x = -2; x < 9; x++) { int e = R.cell(x, y), c = f.grid.getCellBounded(LSPos(x, y)); sym_check(c == (e < 0 ? LS_OBSTACLE : e), "%s: cell (%d,%d) is %d instead of %d", w, x, y, c, e); if (e >= 0) sym_check(f.grid.getAtExit(LSPos(x, y)) == R.exit(x, y), "%s: exit at (%d,%d)", w, x, y); }
  sym_check(f.startX == R.sx && f.startY == R.sy, "%s: start", w); sym_check_eq(f.baseCost, R.base, 1e-6, "%s: base cost", w); sym_check_eq(f.lookaheadCost, R.look, 1e-6, "%s: lookahead cost", w);
  sym_check(f.regionPriors.size() == R.prior.size() && f.obsDistributionLifeAbsent.size() == 3 && f.obsDistributionLifePresent.size() == 3, "%s: vector sizes", w); if (f.regionPriors.size() != R.prior.size()) return;
  for (size_t i = 0; i < R.prior.size(); i++) sym_check_eq(f.regionPriors[i], R.prior[i], 1e-6, "%s: prior", w);
  for (int i = 0; i < 3; i++) { sym_check_eq(f.obsDistributionLifeAbsent[i], R.absent[i], 2e-6, "%s: readings without life", w); sym_check_eq(f.obsDistributionLifePresent[i], R.present[i], 2e-6, "%s: readings with life", w); }
}
static Rules fileRules(int regions) { Rules R; R.sx = 0; R.sy = 0; for (int i = 0; i < regions; i++) R.prior.push_back(sym_double(zfmt("p%d", i).c_str(), 0.001, 1)); R.base = sym_double("base", 0, 50); R.look = sym_double("look", 0, 50); R.absent = {0.5, 0.375, 0.125}; double p = sym_double("reading", 0.001, 0.7); R.present = {0.25, 0.75 - p, p}; return R; }
static rowsT symMap(int H, int Wd) { rowsT t; for (int i = 0; i < H; i++) { int y = H - 1 - i; std::string r(y % 2, ' '); for (int c = 0; c < Wd; c++) { static const char L[] = " abc"; r += L[sym_int(zfmt("c%d_%d", i, c).c_str(), 0, 2)]; if (c + 1 < Wd) r += ' '; } t.push_back(r); } return t; }
static void files(const rowsT &t, bool nl, bool twice) {
  int n = regionsOf(t); sym_assume(n > 0); for (auto &r : t) sym_assume(!r.empty()); if (!nl) sym_assume(t.back().size() > 1 || t.back()[0] != ' ');
  Rules R = fileRules(n); R.setMap(t); std::string f = zpath("m.lifeSurvey"); zwrite(f, R.text(t, nl)); LSModelFile m; m.readFromFile(f); mapCheck(m, R, "read");
  if (twice) { std::string g = zpath("w.lifeSurvey"); FILE *o = fopen(g.c_str(), "w"); m.writeToFile(o); fclose(o); LSModelFile b; b.readFromFile(g); mapCheck(b, R, "written and read again"); }
  sym_cover("read");
}
SYM_CASE(map_text, "maps of 1-3 rows of 2 cells, each an obstacle or one of two regions, with and without a final newline; any parameters; written and read again") { int H = sym_int("rows", 1, 3); files(symMap(H, 2), sym_bool("newline"), true); }
SYM_CASE(map_wide, "maps of 2 rows of 3 cells") { files(symMap(2, 3), true, true); }
SYM_CASE(map_tall, "maps of 4-6 rows of different lengths") { rowsT t; int H = sym_int("rows", 4, 6); for (int i = 0; i < H; i++) { int y = H - 1 - i, n = sym_int(zfmt("length%d", i).c_str(), 1, 2); t.push_back(std::string(y % 2, ' ') + (n == 1 ? "a" : "b a")); } files(t, sym_bool("newline"), true); }
static void rejected(int code) { sym_check(code != 0, "exit code 0 for a file in error"); sym_cover("rejected"); sym_end(); }
SYM_CASE(errors, "one mistake of 9 kinds at any place: rejected") {
  int e = sym_int("mistake", 0, 8), k = sym_int("map", 1, 3); Rules R = rules(k, 0, false, 0); R.prior[0] = sym_double("prior", 0.01, 0.99); rowsT t = MAPS[k].t; std::string x;
  int i = sym_int("row", 0, t.size() - 1); int y = t.size() - 1 - i;
  if (e == 0) { int c = sym_int("column", 0, t[i].size() / 2 - 1); t[i][2 * c + 1 - y % 2] = 'a'; }        // not on the checkerboard
  if (e == 1) { int c = sym_int("column", 0, t[i].size() / 2 - 1); static const char B[] = "A`{1*."; t[i][2 * c + y % 2] = B[sym_int("character", 0, 5)]; }
  if (e == 2) R.prior.push_back(0.5); if (e == 3) R.prior.pop_back(); if (e == 4) R.absent.push_back(0.5); if (e == 5) R.present.pop_back(); if (e == 8) t[i] = "";
  x = R.text(t); static const char *K[] = {"startX", "startY", "baseCost", "lookaheadCost", "regionPriors", "obsDistributionLifeAbsent", "obsDistributionLifePresent"};
  if (e == 6) { const char *key = K[sym_int("key", 0, 6)]; size_t p = x.find(key), q = x.find('\n', p); x.erase(p, q + 1 - p); }
  if (e == 7) x = x.substr(0, x.find("---"));
  std::string f = zpath("m.lifeSurvey"); zwrite(f, x); sym_on_exit(rejected); LSModelFile m; m.readFromFile(f); sym_on_exit(NULL); sym_fail("mistake %d accepted", e);
}
// ---- indexes and names
SYM_CASE(codes, "every pair of actions and every pair of observations") {
  bool obs = sym_bool("observations"); int a = obs ? 0 : sym_int("action", 0, 6), b = obs ? 0 : sym_int("other action", 0, 6), o = obs ? sym_int("observation", 0, 27) : 0, q = obs ? sym_int("other observation", 0, 27) : 0;
  LSAction x(a); sym_check(x.toInt() == a, "action %d: index %d", a, x.toInt()); sym_check((x.type == LS_ACT_LOOK) == (a == 6), "action %d: type", a); if (a < 6) sym_check(x.useSample == a / 3 && x.moveDirection == a % 3, "action %d: meaning", a); sym_check((x.toString() == LSAction(b).toString()) == (a == b), "names of actions %d and %d", a, b);
  LSObservation z(o); sym_check(z.toInt() == o, "observation %d: index %d", o, z.toInt()); sym_check((bool)z.isNull == (o == 27), "observation %d: null", o); if (o < 27) sym_check(z.lifeInNeighborConfidence[0] == o / 9 && z.lifeInNeighborConfidence[1] == o / 3 % 3 && z.lifeInNeighborConfidence[2] == o % 3, "observation %d: meaning", o); sym_check((z.toString() == LSObservation(q).toString()) == (o == q), "names of observations %d and %d", o, q); sym_cover("codes");
}
// ---- the written POMDP
static void written(int k, const Rules &R, bool full, bool both, const char *targets = NULL) {
  std::string out;
  for (int pass = 0; pass < 2; pass++) {   // (the second pass meets no new case distinction: its file belongs to one path)
    std::string d = sym_scratch() + std::string("/XXXXXX"); if (!mkdtemp(&d[0])) abort(); zwrite(d + "/m.lifeSurvey", R.text(MAPS[k].t)); if (targets) zwrite(d + "/targets", targets);
    std::vector<std::string> a = {"gen_LifeSurvey"}; if (full) a.push_back("-f"); if (targets) { a.push_back("--target-list"); a.push_back(d + "/targets"); } a.push_back(d + "/m.lifeSurvey"); out = d + (both ? "/o.pomdp" : "/m.pomdp"); if (both) a.push_back(out);
    std::vector<char *> v; for (auto &s : a) v.push_back(strdup(s.c_str())); v.push_back(NULL); optind = 0; tableG = LSStateTable(); lsgen_main(a.size(), v.data()); fflush(NULL);
  }
  CassandraModel *p = pload(out, false, !full); int n = R.prior.size(); sym_check(p->numStates == (int)tableG.states.size() && p->numActions == 7 && p->numObservations == 28, "sizes"); sym_check(p->discount == 0.999, "discount"); int S = p->numStates; if (S != (int)tableG.states.size()) return;
  std::vector<St> s; std::vector<std::string> key; std::map<std::string, std::vector<int>> at; for (int i = 0; i < S; i++) { s.push_back(fromLS(LSState(i), n)); key.push_back(R.key(s[i])); at[key[i]].push_back(i); }
  kdist b; for (int i = 0; i < S; i++) { double w = p->initialBelief(i); if (nz(w)) b[key[i]] += w; } same(b, merge(R, R.start()), "start");
  for (int i = 0; i < S; i++) {
    sym_check(p->isTerminalState[i] == s[i].term, "state %d: terminal %d", i, (int)p->isTerminalState[i]);
    if (!s[i].term) for (int r = 0; r < n; r++) if (R.reaches(r, s[i].x, s[i].y)) sym_check(s[i].lev[r] >= 0 && s[i].lev[r] <= 3, "state %d: level of region %d", i, r);
    for (int c = 0; c < 7; c++) {
      double e; kdist d = merge(R, R.step(s[i], c, e)), g; for (int j = 0; j < S; j++) { double w = p->T[c](i, j); if (nz(w)) g[key[j]] += w; } std::string w = key[i] + zfmt(" action %d", c); same(g, d, w); sym_check_eq(p->R(i, c), e, 1e-9, "%s: reward", w.c_str());
      for (int o = 0; o < 28; o++) { double x = p->O[c](i, o), y = R.obs(s[i], c, o); if (nz(x) || nz(y)) sym_check_eq(x, y, 1e-9, "%s: probability of observation %d on arrival", w.c_str(), o); }
    }
  }
  sym_cover("compared");
}
SYM_CASE(written_prior, "4 maps: any prior of one region or any costs, numbers and full names") { int k = sym_int("map", 0, 3); if (k == 3) k = 5; bool cost = sym_bool("cost"); written(k, rules(k, cost ? 0 : 1u << sym_int("region", 0, 1), cost, 0), sym_bool("full"), sym_bool("file name")); }
SYM_CASE_THOROUGH(written_big, "3 larger maps: any prior or any costs") { int k = 3 + sym_int("map", 0, 3); sym_assume(k != 5); bool cost = sym_bool("cost"); written(k, rules(k, cost ? 0 : 1u << sym_int("region", 0, 1), cost, 0), sym_bool("full"), true); }
SYM_CASE(written_obs, "a map: any probability of a reading") { written(0, rules(0, 0, false, sym_int("distribution", 1, 3)), sym_bool("full"), true); }
SYM_CASE(written_digits, "2 maps, probabilities with many digits, any base cost: nothing is lost") { int k = sym_int("map", 0, 1); Rules R = rules(k, 0, false, 0); R.base = sym_double("base", 0, 10); R.prior[0] = 0.33333; R.prior[1] = 0.7654321; R.absent = {0.71237, 0.2, 0.08763}; R.present = {0.1, 0.23457, 0.66543}; written(k, R, sym_bool("full"), false); }
SYM_CASE(written_targets, "a map: any set of known targets, any base cost") { Rules R = rules(1, 0, false, 0); R.base = sym_double("base", 0, 10); R.haveTargets = true; std::string t; for (auto &c : R.g) if (sym_bool(zfmt("t%d_%d", c.first.first, c.first.second).c_str())) { R.targets.insert(c.first); t += zfmt("%d %d\n", c.first.first, c.first.second); } written(1, R, false, true, t.c_str()); }
// ---- the path-and-react policy
typedef std::vector<xy> path;
static void paths(const Rules &R, xy c, int last, path &pre, std::vector<int> dirs, std::vector<path> &out, std::vector<std::vector<int>> &outd) { pre.push_back(c); if (R.exit(c.first, c.second)) { out.push_back(pre); outd.push_back(dirs); } else for (int d = 0; d < 3; d++) if (R.legal(c.first, c.second, last, d)) { auto e = dirs; e.push_back(d); paths(R, Rules::next(c.first, c.second, d), d, pre, e, out, outd); } pre.pop_back(); }
static double value(const Rules &R, const path &p, const std::vector<int> &dirs) { std::vector<int> cnt(R.prior.size(), 0); for (size_t i = 0; i < p.size(); i++) { int last = i ? dirs[i - 1] : 1; for (int d = 0; d < 3; d++) if (R.legal(p[i].first, p[i].second, last, d)) { xy n = Rules::next(p[i].first, p[i].second, d); cnt[R.cell(n.first, n.second)]++; } } double v = 0; for (size_t r = 0; r < cnt.size(); r++) { double q = 1; for (int i = 0; i < cnt[r]; i++) q *= 1 - R.prior[r]; v += 1 - q; } return v; }
static LSPathAndReactExec *mkexec(const Rules &R, const rowsT &t, const char *type) { std::string f = zpath("m.lifeSurvey"); zwrite(f, R.text(t)); ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); c->setString("policyType", type); tableG = LSStateTable(); LSPathAndReactExec *e = new LSPathAndReactExec(); e->init(f, c); return e; }
static void planned(const Rules &R, const rowsT &t) {
  LSPathAndReactExec *e = mkexec(R, t, "lspath"); path pre; std::vector<path> all; std::vector<std::vector<int>> dirs; paths(R, xy(R.sx, R.sy), 1, pre, {}, all, dirs);
  if (all.empty()) { sym_cover("no path"); return; }
  path p; for (auto &c : e->plannedPath) p.push_back(xy(c.pos.x, c.pos.y)); size_t k = 0; for (; k < all.size(); k++) if (all[k] == p) break; sym_check(k < all.size(), "the planned path is not one from the start to an exit"); if (k == all.size()) return;
  double v = value(R, all[k], dirs[k]); for (size_t j = 0; j < all.size(); j++) sym_check_le(value(R, all[j], dirs[j]), v, 1e-9, "another path is better than the planned one"); sym_cover("path");
}
SYM_CASE(path_value, "5 maps: any prior of one region: the planned path maximises the expected number of regions with life seen") { int k = 1 + sym_int("map", 0, 5), n = regionsOf(MAPS[k].t); planned(rules(k, 1u << sym_int("region", 0, n - 1), false, 0), MAPS[k].t); }
static const Map WIDE[] = {{{" a a a a", "c c   b", " a b   a", "a b   c"}, 1, 2}, {{"c b a a", " c c a   c", "a b b b c"}, 0, 0}, {{" a a a a a", "a b a a a", " a a b b", "b a a a a"}, 2, 3}, {{" a b a a a", "  a b a a", " a a b a a", "a b b a a"}, 0, 0}};
static Rules wide(int k) { Rules R; R.setMap(WIDE[k].t); R.sx = WIDE[k].sx; R.sy = WIDE[k].sy; R.base = 1.5; R.look = 5; R.prior = {0.125, 0.5}; if (regionsOf(WIDE[k].t) > 2) R.prior.push_back(0.25); R.absent = {0.5, 0.375, 0.125}; R.present = {0.125, 0.25, 0.625}; R.prior[sym_int("region", 0, R.prior.size() - 1)] = sym_double("prior", 0.05, 0.6); return R; }
SYM_CASE(path_choice, "4 maps of 3-4 rows where the best path turns off one that looks as good up to there, any prior of one region") { int k = sym_int("map", 0, 3); planned(wide(k), WIDE[k].t); }
SYM_CASE(path_long, "corridors that pass up to 12 cells of one region and a branch, any prior of either (up to 7) or of the branch") { int n = sym_int("length", 6, 12); std::string r0 = " ", r1; for (int i = 0; i < n; i++) r0 += "a "; for (int i = 0; i < n; i++) r1 += i < n - 2 ? "a " : "b "; rowsT t = {r0 + "a", r1 + "b"}; Rules R; R.setMap(t); R.sx = 0; R.sy = 0; R.base = 1; R.look = 1; R.absent = {0.5, 0.375, 0.125}; R.present = {0.125, 0.25, 0.625}; R.prior = {0.0625, 0.5}; int s = n > 7 ? 1 : sym_int("region", 0, 1); R.prior[s] = sym_double("prior", 0.01, 0.3); planned(R, t); }
static int hexDist(const Rules &R, xy a, xy b) { int dx = a.first - b.first, dy = a.second - b.second; return dx * dy < 0 ? abs(dx) + abs(dy) : std::max(abs(dx), abs(dy)); }
static bool deadEnd; static void stuck(int code) { sym_check(deadEnd && code != 0, "the policy gave up although it can move"); sym_cover("dead end"); sym_end(); }
static void react(const Rules &R, const rowsT &t, int steps) {
  LSPathAndReactExec *e = mkexec(R, t, "lspath"); sym_on_exit(stuck); deadEnd = false;
  for (int run = 0; run < 2; run++) {
    e->setToInitialState(); int x = R.sx, y = R.sy, last = 1; bool look = false, life[3] = {0, 0, 0}; std::set<int> sampled;
    for (int i = 0; i < steps; i++) {
      bool legal[3], any = false; for (int d = 0; d < 3; d++) any |= legal[d] = R.legal(x, y, last, d); deadEnd = look && !any;
      int ai = e->chooseAction(); sym_check(ai >= 0 && ai < 7, "action %d", ai); sym_check(!deadEnd, "a move in a dead end"); LSAction a(ai);
      if (!look) { sym_check(a.type == LS_ACT_LOOK, "at (%d,%d): moves without looking first", x, y); LSObservation o(0); int conf = sym_int(zfmt("reading%d_%d", run, i).c_str(), 0, 7); for (int d = 0; d < 3; d++) { xy n = Rules::next(x, y, d); life[d] = conf >> d & 1; if (R.cell(n.first, n.second) < 0) sym_assume(!life[d]); o.lifeInNeighborConfidence[d] = life[d] ? 2 : (conf + d) % 2; } e->advanceToNextState(ai, o.toInt()); look = true; continue; }
      sym_check(a.type == LS_ACT_MOVE, "at (%d,%d): looks twice", x, y); if (a.type != LS_ACT_MOVE) return; int d = a.moveDirection; sym_check(legal[d], "at (%d,%d): illegal move %d", x, y, d); if (!legal[d]) return;
      double best = -1e9; int bd = -1; bool target = false;
      for (int j = 0; j < 3; j++) if (legal[j]) { xy n = Rules::next(x, y, j); int r = R.cell(n.first, n.second); bool t = life[j] && !sampled.count(r); target |= t; int dist = 99; for (auto &c : e->plannedPath) dist = std::min(dist, hexDist(R, n, xy(c.pos.x, c.pos.y))); double v = (t ? 1e6 : 0) - 100 * dist + (j == 0 ? 2 : j == 2 ? 1 : 0); if (v > best) best = v, bd = j; }
      sym_check((bool)a.useSample == target, "at (%d,%d): samples %d, reason to sample %d", x, y, a.useSample, (int)target); sym_check(d == bd, "at (%d,%d): moves %d instead of %d", x, y, d, bd);
      xy n = Rules::next(x, y, d); if (a.useSample && life[d]) sampled.insert(R.cell(n.first, n.second)); x = n.first; y = n.second; last = d; look = false; for (bool &l : life) l = false; e->advanceToNextState(ai, OBS_NULL);
      if (R.exit(x, y)) { sym_cover("exit"); break; }
    }
  }
  sym_on_exit(NULL); sym_cover("run");
}
static void react(int k, int steps) { react(rules(k, 1u << sym_int("region", 0, regionsOf(MAPS[k].t) - 1), false, 0), MAPS[k].t, steps); }
SYM_CASE_THOROUGH(react_wide, "4 larger maps, any readings on the way") { int k = sym_int("map", 0, 3); react(wide(k), WIDE[k].t, 8); }
SYM_CASE(react_small, "3 maps, any readings in the first two cells, two runs, any prior of one region") { react(1 + sym_int("map", 0, 2), 4); }
SYM_CASE(react_more, "3 maps, any readings in the first two cells, two runs, any prior of one region") { react(4 + sym_int("map", 0, 2), 4); }
SYM_CASE_THOROUGH(react_long, "6 maps, any readings on the way") { react(1 + sym_int("map", 0, 5), 8); }
SYM_CASE(blind, "the blind policy moves east with sampling at every step") { Rules R = rules(0, 0, false, 0); R.prior[0] = sym_double("prior", 0.01, 0.9); LSPathAndReactExec *e = mkexec(R, MAPS[0].t, "lsblind"); e->setToInitialState(); for (int i = 0; i < 3; i++) { int a = e->chooseAction(); sym_check(a == 4, "action %d", a); e->advanceToNextState(a, 27); } sym_check_eq(R.prior[0], R.prior[0], 0, "prior"); sym_cover("blind"); }
