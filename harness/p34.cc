// P34: the LifeSurvey tools: map dump, target locations, trial statistics
#define ZH_NO_EMBED
#include "parse_h.h"
#include "zmdpMainConfig.cc"
#include <assert.h>
#include <errno.h>
#include <getopt.h>
#include <string.h>
#include <sys/time.h>
#include <iostream>
#include <map>
#include <set>
#include <queue>
#include <algorithm>
#include "LSModelFile.h"
#include "LifeSurvey.h"
#define main unused1; void dump_main
#define usage dump_usage
namespace dump {
#include "pomdpModels/lifeSurvey/dumpMap.cc"
}
#undef main
#undef usage
#define main unused2; void targets_main
#define usage targets_usage
namespace tg {
#include "pomdpModels/lifeSurvey/genTargetLocations.cc"
}
#undef main
#undef usage
#define main unused3; void stats_main
#define usage stats_usage
namespace stats {
#include "pomdpModels/lifeSurvey/calcLSTrialStats.cc"
}
#undef main
#undef usage
typedef std::vector<std::string> rowsT; typedef std::pair<int, int> xy;
static char *OUTP; static size_t OUTN; static std::string WHAT;
typedef void (*mainFn)(int, char **);
static std::string call(mainFn f, const std::vector<std::string> &a) { std::vector<char *> v{strdup("tool")}; for (auto &s : a) v.push_back(strdup(s.c_str())); v.push_back(NULL); optind = 0; stdout = open_memstream(&OUTP, &OUTN); f((int)v.size() - 1, &v[0]); fflush(stdout); return std::string(OUTP, OUTN); }
static std::string slurp(const std::string &p) { std::ifstream in(p.c_str()); std::stringstream s; s << in.rdbuf(); return s.str(); }
// ---- the map as its text says: the bottom row is row 0, odd rows are shifted by half a cell
static std::map<xy, int> cells(const rowsT &t) { std::map<xy, int> g; for (size_t i = 0; i < t.size(); i++) { int y = t.size() - 1 - i; for (size_t c = 0; c < t[i].size(); c++) if (t[i][c] != ' ') g[xy((y + 1) / 2 + ((int)c - y % 2) / 2, y)] = t[i][c] - 'a'; } return g; }
static int regionsOf(const rowsT &t) { int n = 0; for (auto &r : t) for (char c : r) if (c != ' ') n = std::max(n, c - 'a' + 1); return n; }
static std::string modelText(const rowsT &t, const vec &prior, int sx, int sy) { std::string o = zfmt("startX %d\nstartY %d\nbaseCost 1\nlookaheadCost 5\nregionPriors", sx, sy); for (double p : prior) o += " " + sym_text(p); o += "\nobsDistributionLifeAbsent 0.5 0.375 0.125\nobsDistributionLifePresent 0.125 0.25 0.625\n---\n"; for (auto &r : t) o += r + "\n"; return o; }
static rowsT symMap(int H, int Wd) { rowsT t; for (int i = 0; i < H; i++) { int y = H - 1 - i; std::string r(y % 2, ' '); for (int c = 0; c < Wd; c++) { static const char L[] = " ab"; r += L[sym_int(zfmt("c%d_%d", i, c).c_str(), 0, 2)]; if (c + 1 < Wd) r += ' '; } t.push_back(r); } return t; }
static const rowsT MAPS[] = {{"a b b"}, {" a b", "a a b"}, {"a b", " a b", "a a"}, {"a a c", " a b b", "a   a"}, {" a b", "a b b", "   a b", "a b"}, {"a a a b", " a c b", "a a a c"}};
// ---- map dump
static void dumpIt(const rowsT &t, int how) {
  int n = regionsOf(t); sym_assume(n > 0); for (auto &r : t) sym_assume(r.find_first_not_of(' ') != std::string::npos); vec prior; for (int i = 0; i < n; i++) prior.push_back(sym_double(zfmt("prior%d", i).c_str(), 0.01, 1)); auto g = cells(t); xy st = g.begin()->first;
  std::string f = zpath("m.lifeSurvey"), o = how ? zpath("other.txt") : zpath("m.mapDump"); zwrite(f, modelText(t, prior, st.first, st.second)); std::vector<std::string> a{f}; if (how) a.push_back(o); call(dump::dump_main, a);
  std::istringstream in(slurp(o)); std::set<xy> seen; std::string l; while (std::getline(in, l)) { int x, y, r; char c; if (sscanf(l.c_str(), "%d %d %d%c", &x, &y, &r, &c) != 3) { sym_fail("line not understood: %s", l.c_str()); return; } sym_check(seen.insert(xy(x, y)).second, "cell %d %d twice", x, y); sym_check(g.count(xy(x, y)) && g[xy(x, y)] == r, "cell %d %d listed with region %d", x, y, r); }
  sym_check(seen.size() == g.size(), "%d cells of %d listed", (int)seen.size(), (int)g.size()); sym_cover("dumped");
}
SYM_CASE(dump_small, "maps of 1-3 rows of 2 cells, each an obstacle or one of two regions; any priors; given or derived file name") { int H = sym_int("rows", 1, 3); dumpIt(symMap(H, 2), sym_bool("named")); }
SYM_CASE(dump_maps, "6 maps of 1-4 rows, any priors; given or derived file name") { dumpIt(MAPS[sym_int("map", 0, 5)], sym_bool("named")); }
// ---- target locations
static void targets(const rowsT &t, bool noise, unsigned symRand) {
  int n = regionsOf(t); auto g = cells(t); vec prior; for (int i = 0; i < n; i++) prior.push_back(sym_double(zfmt("prior%d", i).c_str(), 0, 1)); double nf = noise ? 0.25 : 0; std::string f = zpath("m.lifeSurvey"); xy st = g.begin()->first; zwrite(f, modelText(t, prior, st.first, st.second));
  std::vector<double> fr; for (size_t i = 0; i < g.size() + (noise ? n : 0); i++) fr.push_back(i < symRand ? sym_doublef(0, 1, "random%d", (int)i) : ((i * 37 + 11) % 64) / 64.0); sym_rand_script(fr);
  std::vector<std::string> a; if (noise) { a.push_back("-n"); a.push_back("0.25"); } a.push_back(sym_bool("long") ? "--seed" : "-s"); a.push_back("7"); a.push_back(f); std::string out = call(tg::targets_main, a);
  size_t used = 0; std::vector<double> log = sym_rand_log(); sym_check(log.size() == fr.size(), "%d random numbers drawn for %d", (int)log.size(), (int)fr.size()); if (log.size() != fr.size()) return;
  vec p = prior; if (noise) for (double &x : p) x = x * (1 + (2 * log[used++] - 1) * nf);
  std::set<xy> want; for (auto &c : g) { double q = p[c.second], r = log[used++]; if (sym_is_symbolic(q) || sym_is_symbolic(r)) sym_assume_ge_gap(q, r, 1e-6); if (r < q) want.insert(c.first); }
  // the header, the map and the list
  double gn = 0; int gs = 0, gt = 0; if (sscanf(out.c_str(), "noise=%lf seed=%d numTargets=%d", &gn, &gs, &gt) != 3) { sym_fail("header not understood"); return; } sym_check_eq(gn, nf, 1e-6, "noise"); sym_check(gs == 7, "seed %d", gs); sym_check(gt == (int)want.size(), "%d targets counted, %d drawn", gt, (int)want.size());
  size_t d = out.find("\n--"); if (d == std::string::npos) { sym_fail("no list"); return; } std::set<xy> got; std::string l = out.substr(d + 3); for (char &c : l) if (c == ',') c = ' '; std::istringstream in(l); int x, y, k = 0; while (in >> x >> y) { got.insert(xy(x, y)); k++; } sym_check(k == (int)want.size() && got == want, "%d targets listed, %d drawn, or others", k, (int)want.size());
  int H = 0; for (auto &c : g) H = std::max(H, c.first.second + 1); H = t.size(); std::istringstream ln(out.substr(0, d + 1)); std::getline(ln, l); std::getline(ln, l);
  for (int i = 0; i < H; i++) { int yy = H - 1 - i; if (!std::getline(ln, l)) { sym_fail("map row %d missing", yy); return; } for (int c = 0; c < 6; c++) { int xx = (yy + 1) / 2 + c; size_t pos = 2 + yy % 2 + 2 * c; char ch = pos < l.size() ? l[pos] : ' '; if (g.count(xy(xx, yy))) sym_check(ch == (want.count(xy(xx, yy)) ? 'O' : '*'), "map shows '%c' at %d %d", ch, xx, yy); else sym_check(ch != 'O' && ch != '*', "map shows '%c' at obstacle %d %d", ch, xx, yy); } }
  sym_cover("drawn");
}
SYM_CASE(targets_any, "6 maps: any priors, any of the first 4 (6) random numbers") { targets(MAPS[sym_int("map", 0, 5)], false, sym_thorough() ? 6 : 4); }
SYM_CASE(targets_noise, "6 maps, noise factor 1/4: any priors; any of the first 3 (5) random numbers") { targets(MAPS[sym_int("map", 0, 5)], true, sym_thorough() ? 5 : 3); }
// ---- statistics of a run
static xy nextOf(xy p, int d) { return d == 0 ? xy(p.first + 1, p.second + 1) : d == 1 ? xy(p.first + 1, p.second) : xy(p.first, p.second - 1); }
static const rowsT LINE = {"a a a a b"};
static void statsIt(const rowsT &t, int steps, bool any = false, bool east = false) { auto g = cells(t); vec prior(regionsOf(t), 0.5); prior[0] = sym_double("prior", 0.01, 1); std::vector<xy> cs; for (auto &c : g) cs.push_back(c.first); xy st = cs[east ? 0 : sym_int("start", 0, std::min((int)cs.size(), 4) - 1)];
  std::string tt = "# targets\n", rt = "# trace\n"; std::set<xy> tg; int tk = any ? sym_int("target set", 0, (1 << cs.size()) - 1) : sym_int("targets", 0, 2); for (size_t i = 0; i < cs.size(); i++) for (auto &c : {cs[i]}) if (any ? tk >> i & 1 : tk == (c.first * 5 + c.second * 3) % 3) { tg.insert(c); tt += zfmt("%d %d\n", c.first, c.second); }
  bool verbose = sym_bool("verbose"); xy p = st; std::map<int, int> lev; lev[g[p]] = 1; int looks = 0, good = 0, samples = 0, bad = 0; double net = 0, disc = 1; static const double V[] = {0, 5, 20, 50};
  for (int i = 0; i < steps; i++) {
    static const int E[] = {1, 4, 6}; int a = east ? E[sym_int(zfmt("action%d", i).c_str(), 0, 2)] : sym_int(zfmt("action%d", i).c_str(), 0, 6); rt += zfmt("%d %d\n", a, a == 6 ? 13 : 27); double r = 0;
    if (a == 6) { looks++; r = -5; } else { xy q = nextOf(p, a % 3); bool samp = a >= 3; r = samp ? -5 : -1; if (!g.count(q)) { bad++; r -= 100; } else { int n = tg.count(q) ? (samp ? 3 : 2) : 1, &o = lev[g[q]]; if (n > o) { r += V[n] - V[o]; o = n; } if (samp) { samples++; good += tg.count(q); } p = q; } }
    net += r * disc; disc *= 0.999;
  }
  std::string f = zpath("m.lifeSurvey"), tf = zpath("targets"), rf = zpath("trace"); zwrite(f, modelText(t, prior, st.first, st.second)); zwrite(tf, tt); zwrite(rf, rt); std::vector<std::string> a; if (verbose) a.push_back("-v"); a.push_back(f); a.push_back(tf); a.push_back(rf); std::string out = call(stats::stats_main, a);
  int v[5] = {-1, -1, -1, -1, -1}; double rew = 0; size_t q; if ((q = out.rfind("ACTIONS_LOOK_TOTAL")) == std::string::npos || sscanf(out.c_str() + q, "ACTIONS_LOOK_TOTAL %d %d SAMPLES_GOOD_TOTAL %d %d ILLEGAL_ACTIONS %d REWARD %lf", v, v + 1, v + 2, v + 3, v + 4, &rew) != 6) { sym_fail("report not understood"); return; }
  sym_check(v[0] == looks && v[1] == steps, "%d looks of %d actions instead of %d of %d", v[0], v[1], looks, steps); sym_check(v[2] == good && v[3] == samples, "%d good samples of %d instead of %d of %d", v[2], v[3], good, samples); sym_check(v[4] == bad, "%d illegal actions instead of %d", v[4], bad); sym_check_eq(rew, net, 6e-4, "reward"); sym_cover("counted");
}
SYM_CASE(stats_short, "6 maps, any of 4 starting cells, 3 sets of targets: every sequence of 2 (3) actions") { statsIt(MAPS[sym_int("map", 0, 5)], sym_thorough() ? 3 : 2); }
SYM_CASE(stats_long, "a map, one start: every sequence of 3 (4) actions") { statsIt(MAPS[2 + sym_int("map", 0, 1)], sym_thorough() ? 4 : 3); }
SYM_CASE(stats_targets, "a map of 6 cells, any of 4 starts: every set of targets, every 2 actions") { statsIt(MAPS[2], 2, true); }
SYM_CASE(stats_line, "a line of 5 cells in two regions: every set of targets, every sequence of 4 of: look, move on, move on and sample") { statsIt(LINE, 4, true, true); }
// ---- refusals
static void refused(int code) { sym_check(code != 0, "%s: exit code 0", WHAT.c_str()); sym_cover("refused"); }
SYM_CASE(refuse, "missing files, unknown options, wrong numbers of arguments, names without the suffix, lines that are not two integers: refused") {
  std::string f = zpath("m.lifeSurvey"), o = zpath("m.txt"), t = zpath("t"), b = zpath("b"); std::string m = modelText(MAPS[1], {sym_double("prior", 0.1, 0.9), 0.5}, 0, 0); zwrite(f, m); zwrite(o, m); zwrite(t, "1 1\n"); zwrite(b, "1 1\nx 2\n"); std::string no = zpath("none.lifeSurvey"); sym_on_exit(refused);
  struct C { const char *w; mainFn f; std::vector<std::string> a; }; std::vector<C> c{{"dump: no argument", dump::dump_main, {}}, {"dump: three arguments", dump::dump_main, {f, o, t}}, {"dump: suffix", dump::dump_main, {o}}, {"dump: missing model", dump::dump_main, {no}}, {"dump: unknown option", dump::dump_main, {"-q", f}}, {"dump: directory missing", dump::dump_main, {f, zpath("no/such/x")}},
    {"targets: no argument", tg::targets_main, {}}, {"targets: two arguments", tg::targets_main, {f, f}}, {"targets: missing model", tg::targets_main, {no}}, {"targets: unknown option", tg::targets_main, {"-q", f}}, {"targets: option without value", tg::targets_main, {f, "-s"}},
    {"statistics: no trace", stats::stats_main, {f, t}}, {"statistics: four arguments", stats::stats_main, {f, t, t, t}}, {"statistics: missing model", stats::stats_main, {no, t, t}}, {"statistics: missing targets", stats::stats_main, {f, no, t}}, {"statistics: missing trace", stats::stats_main, {f, t, no}}, {"statistics: broken targets", stats::stats_main, {f, b, t}}, {"statistics: broken trace", stats::stats_main, {f, t, b}}, {"statistics: unknown option", stats::stats_main, {"-q", f, t, t}}};
  int k = sym_int("mistake", 0, (int)c.size() - 1); WHAT = c[k].w; call(c[k].f, c[k].a); sym_fail("%s: accepted", WHAT.c_str());
}
