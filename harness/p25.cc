// P25: a logged run replays to the same sequence of states
#include "bound_oracle.h"
#include "mdp_fam.h"
#include <sys/stat.h>
#include "StateLog.h"
#include "ScriptedUpdater.h"
static state_vector sv(const vec &v) { state_vector s; s.resize(v.size()); for (size_t i = 0; i < v.size(); i++) if (znz(v[i])) s.push_back(i, v[i]); return s; }
static void sameState(const vec &want, const state_vector &got, const char *w, int k) { sym_check(got.size() == want.size(), "%s: state %d has %d dimensions", w, k, (int)got.size()); vec g = zdense(got); for (size_t i = 0; i < want.size() && i < g.size(); i++) sym_check_eq(g[i], want[i], 1e-9, "%s: state %d, entry %d", w, k, (int)i); }
// N recorded states, any of which may repeat an earlier one
static void log(int dims, int n, double lo, double hi, bool zero) {
  sym_hash_exact(true); std::vector<vec> kinds; std::vector<int> ids; StateIndex ix(dims); StateLog lg(&ix); int nsym = 0;
  for (int k = 0; k < n; k++) {
    int c = k ? sym_int(zfmt("repeat%d", k).c_str(), 0, std::min((int)kinds.size(), 3)) : (int)kinds.size(); if (c >= (int)kinds.size() || (k && c == 3)) {
      vec x(dims, 0.0); int leave = sym_int(zfmt("leave%d", k).c_str(), 0, dims);
      for (int d = 0; d < dims; d++) if (d != leave) { if (nsym < (sym_thorough() ? 4 : 2)) { x[d] = sym_doublef(lo, hi, "s%d_%d", k, d); nsym++; sym_assume_ge_gap(x[d], 0, 1e-6); } else x[d] = lo + (hi - lo) * (k * 3 + d) / 64; }
      for (auto &o : kinds) { bool apart = false; for (int d = 0; d < dims && !apart; d++) { double e = x[d] - o[d]; apart = e > 1e-6 || e < -1e-6; } sym_assume(apart); }
      kinds.push_back(x); c = kinds.size() - 1;
    }
    lg.addState(sv(kinds[c])); ids.push_back(c);
  }
  if (zero) { kinds.push_back(vec(dims, 0.0)); lg.addState(sv(kinds.back())); ids.push_back(kinds.size() - 1); lg.addState(sv(kinds[0])); ids.push_back(0); vec x(dims, 0.0); x[0] = hi - 0.25; bool apart = true; for (auto &o : kinds) { bool eq = true; for (int d = 0; d < dims; d++) { double e = x[d] - o[d]; if (e > 1e-6 || e < -1e-6) eq = false; } if (eq) apart = false; } sym_assume(apart); kinds.push_back(x); lg.addState(sv(x)); ids.push_back(kinds.size() - 1); }
  for (int round = 0; round < 2; round++) {
    const char *w = round ? "read back" : "recorded";
    sym_check(ix.entries.size() == kinds.size(), "%s: %d states numbered, %d different ones recorded", w, (int)ix.entries.size(), (int)kinds.size());
    for (size_t i = 0; i < kinds.size() && i < ix.entries.size(); i++) { sameState(kinds[i], *ix.entries[i], w, i); int id = ix.getStateId(sv(kinds[i])); sym_check(id == (int)i, "%s: state %d now has number %d", w, (int)i, id); }
    sym_check(lg.size() == ids.size(), "%s: %d log entries of %d", w, (int)lg.size(), (int)ids.size()); for (size_t i = 0; i < ids.size() && i < lg.size(); i++) sym_check(lg.getLogEntry(i) == ids[i], "%s: log entry %d", w, (int)i);
    if (!round) { std::string a = zpath("i.log"), b = zpath("b.log"); ix.writeToFile(a); lg.writeToFile(b); bool pre = sym_bool("reader not empty"); if (!pre) { ix.entries.clear(); ix.lookup.clear(); lg.entries.clear(); } ix.readFromFile(a); lg.readFromFile(b); }
  }
  sym_cover("read back");
}
SYM_CASE(log1, "4 (thorough 6) recorded states of one dimension, every pattern of repeats, up to 2 (4) of any value to 1e7") { log(1, sym_thorough() ? 6 : 4, sym_thorough() ? -1e7 : -2000, sym_thorough() ? 1e7 : 2000, false); }
SYM_CASE(log2, "3 (5) recorded states of two dimensions, every pattern of repeats and missing entries, 2 (4) of any value") { log(2, sym_thorough() ? 5 : 3, -50, 50, false); }
SYM_CASE(log3, "3 (4) recorded states of three dimensions") { log(3, sym_thorough() ? 4 : 3, 0.001, 1, false); }
SYM_CASE(log_zero, "a state whose entries are all zero among the others") { log(2, 2, -50, 50, true); }
// ---- a run that is logged, and its scripted replay
struct ZIn { std::vector<std::vector<double>> rows; ZIn(const std::string &p) { std::ifstream in(p.c_str()); std::string l; while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; std::vector<double> r; std::string w; for (size_t i = 0; i <= l.size(); i++) { char c = i < l.size() ? l[i] : ' '; if (c == ' ') { if (!w.empty()) r.push_back(atof(w.c_str())); w.clear(); } else w += c; } rows.push_back(r); } } };
static void replay(const ZModel &m, const std::string &strat, int trials, bool mdp) {
  std::string file = m.write(mdp ? "m.mdp" : "m.pomdp"), opts = std::string(mdp ? " terminateRegretBound 0.05" : " terminateRegretBound 1") + " useLogBackups 1 useMaxPlanesExtraPruning 0 maintainLowerBound 1";
  ZSolver *z = zinit(file, "searchStrategy " + strat + opts); for (int k = 0; k < trials; k++) if (ztrial(z)) break;
  RTDPCore *c = z->core(); size_t n = c->backedUpNodes.size(); sym_check((int)n == z->bp()->numBackups, "%d backups made, %d logged", z->bp()->numBackups, (int)n);
  c->stateIndexOutputFile = zpath("i0.log"); c->backupsOutputFile = zpath("b0.log"); c->boundValuesOutputFile = zpath("v0.log"); c->qValuesOutputFile = zpath("q0.log"); c->finishLogging();   // may fork; the files used below are written after that
  c->stateIndexOutputFile = zpath("i.log"); c->backupsOutputFile = zpath("b.log"); c->boundValuesOutputFile = zpath("v.log"); c->qValuesOutputFile = zpath("q.log"); std::string dir = sym_scratch(), vf = c->boundValuesOutputFile, qf = c->qValuesOutputFile, ixf = c->stateIndexOutputFile, bf = c->backupsOutputFile; c->finishLogging();
  std::vector<MDPNode *> nodes = znodes(z->bp()->getRootNode());
  // the listed values are those of the listed states
  StateIndex ix(m.S); if (mdp) ix.numStateDimensions = 1; ix.readFromFile(ixf); ZIn v(vf), q(qf); sym_check(v.rows.size() == ix.entries.size(), "%d states, %d bound values", (int)ix.entries.size(), (int)v.rows.size()); sym_check(q.rows.size() == ix.entries.size() * m.A, "%d Q values", (int)q.rows.size());
  sym_check(ix.entries.size() == nodes.size(), "%d states indexed, %d seen", (int)ix.entries.size(), (int)nodes.size());
  for (size_t i = 0; i < v.rows.size() && i < ix.entries.size(); i++) { ValueInterval x = z->bp()->getValueAt(*ix.entries[i]); sym_check(v.rows[i].size() == 3 && v.rows[i][0] == i, "bound value line %d", (int)i); sym_check_eq(v.rows[i][1], x.l, 1e-7, "listed lower bound of state %d", (int)i); sym_check_eq(v.rows[i][2], x.u, 1e-7, "listed upper bound of state %d", (int)i); }
  for (size_t i = 0; i < q.rows.size() && i < ix.entries.size() * m.A; i++) { int a = i % m.A; ValueInterval x = z->bp()->getQValue(*ix.entries[i / m.A], a); sym_check(q.rows[i].size() == 4 && q.rows[i][0] == i / m.A && q.rows[i][1] == a, "Q value line %d", (int)i); sym_check_eq(q.rows[i][2], x.l, 1e-7, "listed lower Q value %d", (int)i); sym_check_eq(q.rows[i][3], x.u, 1e-7, "listed upper Q value %d", (int)i); }
  StateLog lg(&ix); lg.readFromFile(bf); sym_check(lg.size() == n, "%d backups, %d log lines", (int)n, (int)lg.size());
  for (size_t i = 0; i < n && i < lg.size(); i++) { int id = lg.getLogEntry(i); sym_check(id >= 0 && id < (int)ix.entries.size(), "log line %d names state %d", (int)i, id); sameState(zdense(c->backedUpNodes[i]->s), *ix.entries[id], "logged", i); }
  // the replay reads the files where the option says
  std::string d2 = zpath("script"); mkdir(d2.c_str(), 0700); rename(ixf.c_str(), (d2 + "/stateIndex.log").c_str()); rename(bf.c_str(), (d2 + "/backups.log").c_str()); std::string file2 = m.write(mdp ? "n.mdp" : "n.pomdp");
  ZSolver *y = zinit(file2, "searchStrategy script backupScriptInputDir " + d2 + opts); bool done = false; int guard = 0; while (!done && guard++ < (int)n + 3) done = ztrial(y); sym_check(done, "the replay does not finish");
  RTDPCore *e = y->core(); sym_check(e->backedUpNodes.size() == n, "%d backups replayed of %d", (int)e->backedUpNodes.size(), (int)n);
  for (size_t i = 0; i < n && i < e->backedUpNodes.size(); i++) sameState(zdense(c->backedUpNodes[i]->s), e->backedUpNodes[i]->s, "replayed", i);
  bool exact = strat != "lrtdp" && strat != "hdp";   // these two undo some of their own updates
  for (auto *x : nodes) { ValueInterval a = z->bp()->getValueAt(x->s), b = y->bp()->getValueAt(x->s); sym_check_eq(a.l, b.l, 1e-6, "lower bound after the replay"); if (exact) sym_check_eq(a.u, b.u, 1e-6, "upper bound after the replay"); else sym_check_le(b.u, a.u, 1e-6, "upper bound after the replay"); }
  sym_cover("replayed");
}
static int pick(int f) { if (!sym_thorough()) return f == 2 ? 8 : 4; return f == 2 ? (sym_bool("which") ? 8 : 1) : (sym_bool("which") ? 4 : 2); }
SYM_CASE(run_pomdp, "4 small models, any value of a reward (thorough: either of 2), two search strategies, 1 (thorough 3) trials") { static const char *st[] = {"hsvi", "frtdp"}; int f = sym_int("model", 0, NFAM - 1); replay(zfam(f, pick(f)), st[sym_thorough() ? sym_int("search", 0, 1) : f % 2], sym_thorough() ? 3 : 1, false); }
SYM_CASE(run_mdp, "4 small MDPs, one symbolic reward, five search strategies, 2 (5) trials") { static const char *st[] = {"hsvi", "frtdp", "rtdp", "lrtdp", "hdp"}; std::vector<double> r; for (int k = 0; k < 4000; k++) r.push_back(((k * 37) % 101) / 101.0); sym_rand_script(r);   // any fixed sequence will do
  int f = sym_int("model", 0, NMFAM - 1), s = f == 0 ? sym_int("search", 0, 1) : sym_int("search", 0, 4); replay(zmfam(f, sym_thorough() && sym_bool("which") ? 1 : 4), st[s], sym_thorough() ? 5 : 2, true); }
