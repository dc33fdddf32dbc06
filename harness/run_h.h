// Runs of the front ends with every solver they build recorded, on a virtual clock
#ifndef RUN_H_
#define RUN_H_
#include <signal.h>
#define ZH_NO_EMBED
#include "mdp_fam.h"
#ifndef CFLAGS
#define CFLAGS "x"
#endif
#include "BoundPairExec.h"
#include "PolicyEvaluator.h"
#include "TestDriver.h"
#include "LSPathAndReactExec.h"
// the front ends' own code, with every solver they build wrapped in one that records its calls
namespace zmdp { void zv_construct(SolverObjects &obj, SolverParams &p, const ZMDPConfig &config); }
#define constructSolverObjects zv_construct
static size_t SEEDED;   // random numbers drawn while the generator is set up
static void zv_seed() { init_matrix_utils(); SEEDED = sym_rand_log().size(); }
#define init_matrix_utils zv_seed
#define main zmdp_main
#define usage zmdp_usage
#include "main/zmdp.cc"
#undef main
#undef usage
#undef constructSolverObjects
#undef init_matrix_utils
static int INTR = -1, INTR_HOW;   // the trial interrupted by the user: 0 before, 1 at its end, 2 twice
static int CAPN; static bool MOVE; static double CLOCK, STEP;   // virtual time: every trial takes STEP seconds
static void tick(double s) { CLOCK += s; sym_set_time(CLOCK, 0); }
static char *OUTP; static size_t OUTN;
// files go to a directory of the process that is alive at the end of each trial
static void freshDir() { std::string d = std::string(sym_scratch()) + "/XXXXXX"; if (!mkdtemp(&d[0]) || chdir(d.c_str())) abort(); }
struct Call { bool done; double lb, ub; int backups; double t; };
static std::vector<Call> CALLS; static int FINISHED; static double T0, TINIT; static BoundPair *BP; static bool LB, UB;
static void (*AFTER)();   // called after every trial
struct Recorder : public Solver {
  Solver *s; int cap;
  void planInit(MDP *p, const ZMDPConfig *c) { s->planInit(p, c); tick(1); TINIT = CLOCK; }
  bool planFixedTime(const state_vector &b, double m, double p) {
    if ((int)CALLS.size() >= cap) { sym_fail("the run goes on after %d trials", cap); sym_end(); }
    sym_check(!FINISHED, "a trial after the logs were closed");
    if ((int)CALLS.size() == INTR && INTR_HOW != 1) raise(SIGINT); if ((int)CALLS.size() == INTR && INTR_HOW == 2) raise(SIGINT); bool d = s->planFixedTime(b, m, p); if ((int)CALLS.size() == INTR && INTR_HOW == 1) raise(SIGINT); tick(STEP); MDPNode *r = BP->getRootNode(); CALLS.push_back({d, r->lbVal, r->ubVal, BP->numBackups, CLOCK}); if (AFTER) AFTER(); if (MOVE) freshDir(); return d;
  }
  int chooseAction(const state_vector &b) { return s->chooseAction(b); }
  void setBoundsFile(std::ostream *b) { s->setBoundsFile(b); }
  ValueInterval getValueAt(const state_vector &b) const { return s->getValueAt(b); }
  void finishLogging() { FINISHED++; s->finishLogging(); }
};

void zmdp::zv_construct(SolverObjects &obj, SolverParams &p, const ZMDPConfig &config) { constructSolverObjects(obj, p, config); Recorder *r = new Recorder(); r->s = obj.solver; r->cap = CAPN; obj.solver = r; BP = obj.bounds; LB = BP->maintainLowerBound; UB = BP->maintainUpperBound; }
static bool there(const std::string &p) { return access(p.c_str(), F_OK) == 0; }
static std::string slurp(const std::string &p) { std::ifstream in(p.c_str()); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::vector<double> FRACS;   // random numbers of the run, if given
static void fixedRand() { if (FRACS.size()) { sym_rand_script(FRACS); return; } std::vector<double> s; for (int i = 0; i < 121; i++) s.push_back((i * 7 % 11) / 11.0 + 0.02); sym_rand_script(s, true); }
static void start(double step, int cap) { CALLS.clear(); FINISHED = 0; CLOCK = 5000; STEP = step; CAPN = cap; tick(0); T0 = CLOCK; fixedRand(); freshDir(); stdout = open_memstream(&OUTP, &OUTN); }
struct Setup { ZMDPConfig c; std::string policy; bool policyPossible; };
static Setup *setup(const std::string &model, const std::string &opts) {
  Setup *s = new Setup(); zconfig(s->c); std::istringstream in(opts); std::string k, v; while (in >> k >> v) s->c.setString(k, v);
  s->c.setString("command", "solve"); s->c.setString("simulatorModel", model); s->policy = "p.policy"; static const char *F[] = {"evaluationOutputFile", "boundsOutputFile", "simulationTraceOutputFile", "scoresOutputFile", "stateIndexOutputFile", "backupsOutputFile", "boundValuesOutputFile"}; for (const char *f : F) s->c.setString(f, f); return s;
}
// ---- zmdp solve
static const char *POM[] = {"searchStrategy frtdp ", "searchStrategy hsvi ", "searchStrategy hsvi useMaxPlanesMasking 0 useMaxPlanesSupportList 0 ", "searchStrategy frtdp lowerBoundRepresentation point upperBoundRepresentation point "};
// T: time limit, nb: backup limit, prec: precision
static bool zlabel;   // RTDP, LRTDP and HDP end by labelling or not at all
static bool labels(const std::string &o) { return (o.find("rtdp ") != std::string::npos && o.find("frtdp") == std::string::npos) || o.find("hdp") != std::string::npos; }
static void solve(ZModel m, const std::string &opts, double T, int nb, double prec, bool wantPolicy, int cap, double step) {
  std::string f = m.write(m.mdp ? "m.mdp" : "m.pomdp"); start(step, cap); MOVE = true;
  Setup *s = setup(f, opts); s->c.setDouble("terminateWallclockSeconds", T); s->c.setInt("terminateNumBackups", nb); s->c.setDouble("terminateRegretBound", prec); s->c.setString("policyOutputFile", wantPolicy ? s->policy : "none");
  doSolve(s->c); fflush(stdout);
  int n = CALLS.size(); sym_check(n >= 1, "no trial"); sym_check(FINISHED == 1, "logs closed %d times", FINISHED); if (!n) return;
  bool limit = T > 0; zlabel = labels(opts);
  for (int i = 0; i < n; i++) {
    const Call &c = CALLS[i]; bool last = i == n - 1, target = LB && UB && prec > 0 && c.ub - c.lb < prec - 1e-9, atTarget = LB && UB && c.ub - c.lb <= sym_max(prec, 1e-6) + 1e-9, full = nb > 0 && c.backups >= nb;
    if (!zlabel && (target || !atTarget)) sym_check(c.done == (target || full), "trial %d: reported %d with %d backups of %d, target %d", i, c.done, c.backups, nb, (int)target);
    if (full) sym_check(c.done, "trial %d goes on after %d backups of %d", i, c.backups, nb);
    bool stopped = INTR == i; if (stopped) sym_check(last, "goes on after the user's interrupt");
    if (!last) { sym_check(!c.done, "goes on after the solver was done"); sym_check(!target, "trial %d: goes on although the regret is bounded", i); if (limit) sym_check_le(c.t - TINIT, T, 1e-3, "trial %d: goes on after the time limit", i); }
    else if (stopped) sym_cover("interrupted"); else if (!c.done && !atTarget) { sym_check(limit, "stopped without reason"); sym_check_le(T, c.t - T0, 1e-3, "stopped before the time limit"); sym_cover("timeout"); } else sym_cover("done");
  }
  // the reason given
  { std::string t(OUTP, OUTN); size_t p = t.find("terminating run; "); sym_check(p != std::string::npos && t.find("terminating run; ", p + 5) == std::string::npos, "no reason for the end of the run, or two"); if (p == std::string::npos) return; std::string why = t.substr(p, t.find('\n', p) - p); const Call &c = CALLS[n - 1];
    bool target = LB && UB && prec > 0 && c.ub - c.lb < prec - 1e-9, atTarget = c.done || (LB && UB && prec > 0 && c.ub - c.lb <= prec + 1e-9), late = T > 0 && c.t - TINIT > T + 1e-3, atLate = T > 0 && c.t - T0 >= T - 1e-3;
    if (why.find("reached target") != std::string::npos) { sym_check(atTarget, "ended as if the target were reached"); double x; if (sscanf(why.c_str(), "terminating run; reached target regret bound of %lf", &x) == 1) sym_check_eq(x, prec, 2e-3, "target in the reason"); else sym_fail("reason not understood: %s", why.c_str()); }
    else if (why.find("timeout") != std::string::npos) { sym_check(atLate && !target && !c.done, "ended as if the time were over"); double x; if (sscanf(why.c_str(), "terminating run; passed specified timeout of %lf", &x) == 1) sym_check_eq(x, T, 2e-3, "time in the reason"); else sym_fail("reason not understood: %s", why.c_str()); }
    else if (why.find("SIGINT") != std::string::npos) sym_check(INTR == n - 1 && !target && !c.done && !late, "ended as if the user had interrupted"); else sym_fail("reason not understood: %s", why.c_str()); }
  // the summary line
  std::string t(OUTP, OUTN); size_t p = t.rfind(" calls to solver, bounds ["); sym_check(p != std::string::npos, "no summary"); if (p == std::string::npos) return;
  size_t b = t.rfind('\n', p);  int secs = 0, k = 0; double l = 0, u = 0, w = 0; if (sscanf(t.c_str() + (b == std::string::npos ? 0 : b + 1), "%d %d calls to solver, bounds [%lf .. %lf], regret <= %lf", &secs, &k, &l, &u, &w) != 5) { sym_fail("summary line not understood"); return; }
  sym_check(k == n, "summary: %d calls instead of %d", k, n); sym_check_eq(l, CALLS[n - 1].lb, 1e-3, "summary: lower bound"); sym_check_eq(u, CALLS[n - 1].ub, 1e-3, "summary: upper bound"); sym_check_eq(w, CALLS[n - 1].ub - CALLS[n - 1].lb, 2e-3, "summary: regret");
  bool canWrite = !m.mdp && LB && opts.find("Representation point") == std::string::npos; sym_check(there(s->policy) == (wantPolicy && canWrite), "policy file %s", there(s->policy) ? "written" : "not written");
  if (there(s->policy)) { f = m.write("again.pomdp"); ZSolver *z = zmake(f, opts); MaxPlanesLowerBound *lb = new MaxPlanesLowerBound(z->mdp(), &z->config); lb->readFromFile(s->policy); sym_check_eq(lb->getValue(z->mdp()->getInitialState(), NULL), CALLS[n - 1].lb, 5e-3, "the written policy's value at the start"); sym_cover("policy"); }
}

static const char *MOP[] = {"searchStrategy frtdp ", "searchStrategy hsvi ", "searchStrategy rtdp maintainLowerBound 1 ", "searchStrategy lrtdp maintainLowerBound 1 ", "searchStrategy hdp maintainLowerBound 1 "};
static ZModel pm(int k) { return zfam(k, 0); }
static ZModel mm(int k, int search) { return zmfam((search == 2 || search == 3) && k == 0 ? 3 : k, 0); }   // trials of RTDP and LRTDP end in goals only
static std::vector<vec> rows(const std::string &f) { std::vector<vec> r; std::istringstream in(slurp(f)); std::string l; while (std::getline(in, l)) { if (!l.empty() && l[0] == '#') continue; vec v; std::istringstream li(l); double d; while (li >> d) v.push_back(d); r.push_back(v); } return r; }
#endif
