// P12: a policy written to a file and read back is the same policy
#include "bound_oracle.h"
#include "BoundPairExec.h"
// values printed with six significant digits; in the symbolic run text carries the exact value
static const double TOL = 2e-3;
#define BASE "searchStrategy hsvi terminateRegretBound 0.01 "
static MaxPlanesLowerBound *readBack(ZSolver *z, const std::string &p, bool alpha) { MaxPlanesLowerBound *r = new MaxPlanesLowerBound(z->mdp(), &z->config); if (alpha) r->readFromCassandraAlphaFile(p); else r->readFromFile(p); return r; }
struct PL { vec alpha; std::vector<char> in; int action; };
static std::vector<PL> dump(const MaxPlanesLowerBound *m, int n) {
  std::vector<PL> out; FOR_EACH(pp, m->planes) { const LBPlane &p = **pp; PL q; q.alpha.assign(n, 0.0); q.in.assign(n, m->useMaxPlanesMasking ? 0 : 1); q.action = p.action; if (m->useMaxPlanesMasking) FOR_CV(p.mask) q.in[CV_INDEX(p.mask)] = 1; FOR_CV(p.alpha) q.alpha[CV_INDEX(p.alpha)] = CV_VAL(p.alpha); out.push_back(q); }
  return out;
}
static bool applicable(const PL &p, const vec &b) { for (size_t s = 0; s < b.size(); s++) if (znz(b[s]) && !p.in[s]) return false; return true; }
// value and best action of what was there before, against the loaded policy
static void same(const std::vector<PL> &was, MaxPlanesLowerBound *r, const vec &b, const char *w) {
  double best = 0; bool have = false; for (auto &p : was) if (applicable(p, b)) { double v = zdot(p.alpha, b); best = have ? sym_max(best, v) : v; have = true; }
  if (!have) return;
  double v = r->getValue(zbelief(b), NULL); sym_check_eq(v, best, TOL, "%s: value of the loaded policy", w);
  int a = r->chooseAction(zbelief(b)); bool ok = false; double m = 0, h = 0;
  for (auto &p : was) if (p.action == a && applicable(p, b)) { m = h ? sym_max(m, zdot(p.alpha, b)) : zdot(p.alpha, b); h = 1; ok = true; }
  sym_check(ok, "%s: the loaded policy's action %d belongs to no applicable plane", w, a); if (ok) sym_check_le(best, m, TOL, "%s: the loaded policy's action %d is not the best one", w, a);
  sym_cover("compared");
}
static void samePlanes(const std::vector<PL> &was, MaxPlanesLowerBound *r, int n, const char *w) {
  sym_check(r->getStorage(ZMDP_S_NUM_ELTS) == (int)was.size(), "%s: %d planes became %d", w, (int)was.size(), r->getStorage(ZMDP_S_NUM_ELTS));
  std::vector<PL> now = dump(r, n); std::vector<char> used(now.size(), 0);
  for (auto &p : was) { size_t i = &p - &was[0]; if (i >= now.size()) return; const PL &q = now[i];   // files keep the order
    sym_check(q.action == p.action, "%s: action of plane %d", w, (int)i);
    for (int s = 0; s < n; s++) { sym_check(q.in[s] == p.in[s], "%s: plane %d: membership of state %d", w, (int)i, s); if (p.in[s]) sym_check_eq(q.alpha[s], p.alpha[s], TOL, "%s: plane %d: entry of state %d", w, (int)i, s); }
  }
}
static const unsigned MASKS[] = {0xF, 0x3, 0x6, 0x9, 0xC, 0x7, 0x8, 0x1};
static void direct(int nSym, int planes, const char *opts, bool masked) {
  ZModel m = fam_sparse(0); ZSolver *z = zmake(m.write("m.pomdp"), std::string(BASE) + opts); MaxPlanesLowerBound *l = new MaxPlanesLowerBound(z->mdp(), &z->config);
  int rot = sym_int("masks", 0, masked ? 3 : 0); bool zeros = sym_bool("zeros");
  for (int k = 0; k < planes; k++) {
    unsigned mk = !masked ? 0xF : k == 0 ? 0xF : MASKS[(k + 2 * rot) % 8]; LBPlane *p = new LBPlane(); p->action = (k * 5 + 1) % 4; p->numBackupsAtCreation = k; p->alpha.resize(4); p->mask.resize(4);
    for (int s = 0; s < 4; s++) if (mk >> s & 1) { p->mask.push_back(s, 1); double v = k < nSym && s < 2 ? sym_double(zfmt("v%d_%d", k, s).c_str(), 1 + k, 20) : zeros && s == k % 4 ? 0 : (k + 1) * 1.5 - s * 2.25 * (k % 3); if (znz(v) || k % 2) p->alpha.push_back(s, v); }
    l->addLBPlane(p);
  }
  std::string f = zpath("out.policy"); l->writeToFile(f); MaxPlanesLowerBound *r = readBack(z, f, false); std::vector<PL> was = dump(l, 4); samePlanes(was, r, 4, "saved planes");
  static const double qb[6][4] = {{0.5, 0.25, 0.125, 0.125}, {0.5, 0.5, 0, 0}, {0, 0.5, 0.5, 0}, {0.25, 0, 0, 0.75}, {0, 0, 0.5, 0.5}, {0, 1, 0, 0}}; for (auto &b : qb) same(was, r, vec(b, b + 4), "saved planes");
  std::string g = zpath("again.policy"); r->writeToFile(g); samePlanes(was, readBack(z, g, false), 4, "saved twice");
}
SYM_CASE(planes, "6 planes of 4 states with varied masks, 4 symbolic entries, stored and unstored zeros, 6 beliefs; write, read, write, read") { direct(2, 6, "", true); }
SYM_CASE(planes_nomask, "the same without masks") { direct(2, 5, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", false); }
SYM_CASE(one_plane, "a single plane, 2 symbolic entries") { direct(1, 1, "", false); }
SYM_CASE(extreme, "entries as small as 1e-9 and as large as 1e12, and negative ones (relative precision of the text), 2 states") {
  ZModel m = zfam(0, 0); ZSolver *z = zmake(m.write("m.pomdp"), BASE); MaxPlanesLowerBound *l = new MaxPlanesLowerBound(z->mdp(), &z->config);
  static const double sc[] = {1e-9, 1e-5, 1, 1e5, 1e6, 1e12}; double k = sc[sym_int("scale", 0, 5)] * (sym_bool("negative") ? -1 : 1), v = sym_double("v", 0.5, 8); LBPlane *p = new LBPlane(); p->action = 2; p->numBackupsAtCreation = 0; p->alpha.resize(2); p->mask.resize(2); for (int s = 0; s < 2; s++) { p->mask.push_back(s, 1); p->alpha.push_back(s, s ? k * v : k); } l->addLBPlane(p);
  std::string f = zpath("out.policy"); l->writeToFile(f); MaxPlanesLowerBound *r = readBack(z, f, false); std::vector<PL> was = dump(l, 2), now = dump(r, 2); sym_check(now.size() == 1, "%d planes", (int)now.size()); if (now.size() != 1) return;
  for (int s = 0; s < 2; s++) sym_check_eq(now[0].alpha[s] * (1 / k), was[0].alpha[s] * (1 / k), 1e-4, "entry %d", s); sym_cover("compared");
}
SYM_CASE(query, "6 fixed planes with varied masks, every belief of 5 faces") {
  ZModel m = fam_sparse(0); ZSolver *z = zmake(m.write("m.pomdp"), BASE); MaxPlanesLowerBound *l = new MaxPlanesLowerBound(z->mdp(), &z->config);
  for (int k = 0; k < 6; k++) { unsigned mk = k == 0 ? 0xF : MASKS[k]; LBPlane *p = new LBPlane(); p->action = k; p->numBackupsAtCreation = k; p->alpha.resize(4); p->mask.resize(4); for (int s = 0; s < 4; s++) if (mk >> s & 1) { p->mask.push_back(s, 1); double v = ((k * 7 + s * 5) % 11) - 3.5 + (k == 0 ? -4 : 0); p->alpha.push_back(s, v); } l->addLBPlane(p); }
  std::string f = zpath("out.policy"); l->writeToFile(f); MaxPlanesLowerBound *r = readBack(z, f, false); static const unsigned supp[] = {0xF, 0x3, 0x6, 0x9, 0xC}; same(dump(l, 4), r, zsimplex(4, "b", supp[sym_int("face", 0, 4)]), "saved planes");
}
// a solver's own policy, as the solve command writes it, with and without the final pruning
static void solver(int fam, int sel, int steps, const char *opts, unsigned q) {
  ZModel m = zfam(fam, sel); ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE) + opts); vec b; if (q) b = zsimplex(m.S, "b"); bool prune = sym_bool("final pruning");
  if (sym_thorough()) steps++;
  z->bp()->getRootNode(); for (int k = 0; k < steps; k++) zstep(z, k == 0 ? 1 : 4, zfmt("node%d", k).c_str());
  std::vector<PL> before = dump(zmlb(z), m.S); ((BoundPair *)z->bp())->writePolicy(zpath("first.policy"), prune); std::vector<PL> was = dump(zmlb(z), m.S);
  if (!prune) sym_check(was.size() == before.size(), "writing the policy changed it");
  std::string f = zpath("out.policy"); if (prune) ((BoundPair *)z->bp())->writePolicy(f, false); else rename(zpath("first.policy").c_str(), f.c_str());
  MaxPlanesLowerBound *r = readBack(z, f, false); samePlanes(was, r, m.S, "solver's policy");
  if (q) same(was, r, b, "solver's policy"); else { auto n = znodes(z->bp()->getRootNode()); for (size_t i = 0; i < n.size() && i < 6; i++) same(was, r, zdense(n[i]->s), "solver's policy"); }
  // what the execution command loads
  f = zpath("exec.policy"); ((BoundPair *)z->bp())->writePolicy(f, false); std::string mf = m.write("m2.pomdp"); ZSolver *y = zmake(mf, std::string(BASE) + opts); y->config.setString("policyType", "maxPlanes"); BoundPairExec e; e.initReadFiles(mf, f, y->config); samePlanes(was, (MaxPlanesLowerBound *)e.bounds->lowerBound, m.S, "policy loaded for execution");
}
static int pick(int f) { if (sym_thorough()) return f == 2 ? 9 : 6; bool k = sym_bool("which"); return f == 2 ? (k ? 8 : 1) : (k ? 4 : 2); }
SYM_CASE(solved, "4 small models with either of 2 rewards symbolic (thorough: both), every sequence of 2 (thorough 3) updates, with and without the final pruning") { int f = sym_int("family", 0, 3); solver(f, pick(f), 2, "", 0); }
SYM_CASE(solved_q, "the same with fixed rewards, 3 (4) updates and every belief") { solver(sym_int("family", 0, 3), 0, 3, "", 1); }
SYM_CASE(solved_nomask, "without plane masks") { solver(sym_int("family", 0, 3), 0, 2, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", 1); }
// alpha-vector files
static void alphaFile(bool query) {
  int n = sym_int("vectors", 1, 3), lay = sym_int("layout", 0, 4); ZModel m = fam_goal(0); ZSolver *z = zmake(m.write("m.pomdp"), BASE); std::vector<PL> was; std::string t;
  for (int k = 0; k < n; k++) { PL p; p.action = (k * 3 + 1) % 2; p.in.assign(3, 1); p.alpha.assign(3, 0.0); for (int s = 0; s < 3; s++) p.alpha[s] = !query && s < 2 && k < 2 ? sym_double(zfmt("v%d_%d", k, s).c_str(), -9, 9) : ((k * 5 + s * 4 + 2) % 7) - 2.5; was.push_back(p);
    t += zfmt("%d", p.action) + (lay == 3 ? " " : "\n"); for (int s = 0; s < 3; s++) t += sym_text(p.alpha[s]) + (s < 2 ? " " : ""); t += lay == 1 || lay == 4 ? "\n" : lay == 2 && k == n - 1 ? "" : "\n\n"; }
  if (lay == 4) t += "\n\n \n"; std::string f = zpath("x.alpha"); zwrite(f, t); MaxPlanesLowerBound *r = readBack(z, f, true); samePlanes(was, r, 3, "alpha-vector file");
  if (query) same(was, r, zsimplex(3, "b"), "alpha-vector file"); else { same(was, r, {0.25, 0.25, 0.5}, "alpha-vector file"); same(was, r, {0, 0, 1}, "alpha-vector file"); }
}
SYM_CASE(alpha, "1-3 vectors of 3 states, 4 symbolic entries, five layouts of white space (final newline or none, blank lines)") { alphaFile(false); }
SYM_CASE(alpha_q, "the same with fixed entries and every belief") { alphaFile(true); }
