#include "bound_oracle.h"
// property P06: pruning, support lists and caches of the lower bound are pure optimisations
static const double TOL = 1e-8;
static double qv(ZSolver *z, const vec &b) { return z->bp()->getValueAt(zbelief(b)).l; }
#define BASE "searchStrategy hsvi terminateRegretBound 0.01 "
// ---- every query equals the maximum over the applicable planes, and cached planes are best at their node
static void consistent(ZSolver *z, const std::vector<vec> &extra, const char *w) {
  MaxPlanesLowerBound *m = zmlb(z);
  auto nodes = znodes(z->bp()->getRootNode());
  for (size_t i = 0; i < nodes.size() && i < 10; i++) {
    MDPNode *n = nodes[i]; vec b = zdense(n->s); bool any; double o = zlb_oracle(m, b, &any);
    sym_check(any, "%s: no applicable plane at a visited belief", w);
    sym_check_eq(qv(z, b), o, TOL, "%s: lower bound at node %d is not the best applicable plane", w, (int)i);
    const LBPlane &p = m->getPlaneForNode(*n);
    double v = 0; FOR_CV(p.alpha) v += CV_VAL(p.alpha) * b[CV_INDEX(p.alpha)];
    sym_check_eq(v, o, TOL, "%s: plane used for node %d is not the best applicable plane", w, (int)i);
    bool member = false; FOR_EACH(pp, m->planes) member |= *pp == &p;
    sym_check(member, "%s: node %d uses a plane that is not in the set", w, (int)i);
  }
  for (auto &b : extra) { bool any; double o = zlb_oracle(m, b, &any); if (!any) continue; sym_check_eq(qv(z, b), o, TOL, "%s: lower bound at a query belief is not the best applicable plane", w); }
}
static void run(int fam, int sel, const char *opts, int steps, int maxNodes, unsigned supp, bool prune) {
  ZModel m = zfam(fam, sel);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE) + opts);
  std::vector<vec> extra; if (supp) extra.push_back(zsimplex(m.S, "b", supp));
  consistent(z, extra, "initially");
  if (sym_thorough()) steps++;
  for (int k = 0; k < steps; k++) {
    zstep(z, k == 0 ? 1 : maxNodes, zfmt("node%d", k).c_str());
    consistent(z, extra, "after an update");
    if (prune) {
      std::vector<double> before; for (auto &b : extra) before.push_back(qv(z, b));
      auto nodes = znodes(z->bp()->getRootNode()); std::vector<double> nb; for (size_t i = 0; i < nodes.size() && i < 10; i++) nb.push_back(qv(z, zdense(nodes[i]->s)));
      zmlb(z)->prunePlanes(((BoundPair *)z->bp())->numBackups);
      consistent(z, extra, "after pruning");
      for (size_t i = 0; i < before.size(); i++) sym_check_eq(qv(z, extra[i]), before[i], TOL, "pruning changed the lower bound at a query belief");
      for (size_t i = 0; i < nb.size(); i++) sym_check_eq(qv(z, zdense(nodes[i]->s)), nb[i], TOL, "pruning changed the lower bound at node %d", (int)i);
      sym_cover("pruned");
    }
  }
}
#define NX " useMaxPlanesExtraPruning 0 "
#define G "all values of 2 symbolic rewards; every update sequence among the first nodes"
SYM_CASE(tiger, G) { run(0, 6, "", 2, 5, 0, false); }
SYM_CASE(goal, G) { run(1, 6, "", 2, 4, 0, false); }
SYM_CASE(sparse, G) { run(2, 9, "", 2, 5, 0, false); }
SYM_CASE(prune, "1 symbolic reward, pruning after each of 3 updates, all nodes") { int f = sym_int("family", 0, 3); run(f, f == 0 ? 2 : f == 3 ? 4 : 1, NX, 3, 4, 0, true); }
SYM_CASE(prune_nomask, "as prune with masking off") { int f = sym_int("family", 0, 3); run(f, f == 0 ? 4 : 1, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0" NX, 3, 4, 0, true); }
SYM_CASE(query, "fixed rewards, every query belief, every sequence of 3 updates, pruning after each") { int f = sym_int("family", 0, 3); run(f, 0, NX, 3, 5, ~0u, true); }
SYM_CASE(query_face, "4-state model, query beliefs on the face of states 1-3, default options without pruning") { run(2, 0, "", 3, 5, 0xE, false); }
SYM_CASE(query_nocache, "as query without support lists and caches") { int f = sym_int("family", 0, 3); run(f, 0, "useMaxPlanesCache 0 useMaxPlanesSupportList 0" NX, 3, 5, ~0u, true); }
// ---- direct populations: planes with symbolic entries, arbitrary masks
static void addPlane(ZSolver *z, const vec &al, unsigned mask, int age) {
  LBPlane *p = new LBPlane(); int n = al.size();
  p->alpha.resize(n); p->mask.resize(n);
  for (int s = 0; s < n; s++) if (mask >> s & 1) { p->alpha.push_back(s, al[s]); p->mask.push_back(s, 1.0); }
  p->action = 0; p->numBackupsAtCreation = age;
  zmlb(z)->addLBPlane(p);
}
static void direct(int nSym, const char *opts, bool twice) {
  ZModel m = fam_sparse(0);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE NX) + opts);
  bool masked = zmlb(z)->useMaxPlanesMasking;
  static const unsigned masks[] = {0xF, 0x6, 0xB, 0x6, 0x1};
  static const double base[5][4] = {{3, 2, 4, 1}, {0, 5, 1, 0}, {4, 1, 0, 3}, {0, 2.5, 4.5, 0}, {6, 0, 0, 0}};
  // the lowest values the initial planes can have, so that the added planes compete
  for (int k = 0; k < 5; k++) {
    vec a(4); for (int s = 0; s < 4; s++) a[s] = base[k][s];
    unsigned mk = masked ? masks[k] : 0xF;
    if (k < nSym) { int s = k == 1 || k == 3 ? 1 : 0; a[s] = sym_double(zfmt("v%d", k).c_str(), -2, 8); a[2] += k == 2 ? 1 : 0; }
    if (!masked) for (int s = 0; s < 4; s++) if (!znz(a[s])) a[s] = 0.5;
    addPlane(z, a, mk, 1 + k);
  }
  std::vector<vec> q = {{0.25, 0.25, 0.25, 0.25}, {0, 0.5, 0.5, 0}, {0, 0.125, 0.875, 0}, {1, 0, 0, 0}, {0.5, 0.25, 0, 0.25}, {0, 0, 1, 0}, {0, 1, 0, 0}};
  if (!nSym) { q.clear(); q.push_back(zsimplex(4, "b", sym_bool("face") ? 0x6 : sym_bool("face2") ? 0xB : 0xF)); }
  std::vector<double> before; for (auto &b : q) { before.push_back(qv(z, b)); sym_check_eq(before.back(), zlb_oracle(zmlb(z), b), TOL, "lower bound is not the best applicable plane"); }
  zmlb(z)->prunePlanes(10);
  for (size_t i = 0; i < q.size(); i++) { sym_check_eq(qv(z, q[i]), before[i], TOL, "pruning changed the lower bound"); sym_check_eq(qv(z, q[i]), zlb_oracle(zmlb(z), q[i]), TOL, "after pruning the lower bound is not the best applicable plane"); }
  if (twice) {
    addPlane(z, {sym_double("w0", -2, 8), 2, 3.5, 1.5}, 0xF, 11); addPlane(z, {5, 1.5, 1.25, 2}, masked ? 0x9 : 0xF, 12);
    before.clear(); for (auto &b : q) before.push_back(qv(z, b));
    zmlb(z)->prunePlanes(12);
    for (size_t i = 0; i < q.size(); i++) { sym_check_eq(qv(z, q[i]), before[i], TOL, "second pruning changed the lower bound"); sym_check_eq(qv(z, q[i]), zlb_oracle(zmlb(z), q[i]), TOL, "after the second pruning the lower bound is not the best applicable plane"); }
  }
  sym_cover("pruned");
}
SYM_CASE(direct, "5 added planes with masks, 3 symbolic entries, 7 query beliefs; dominance pruning") { direct(3, "", false); }
SYM_CASE(direct2, "as direct with 2 symbolic entries, then 2 more planes and a second pruning") { direct(2, "", true); }
SYM_CASE(direct_nomask, "dense planes, masking off, two prunings") { direct(2, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", true); }
SYM_CASE(direct_nosupp, "masking without support lists") { direct(3, "useMaxPlanesSupportList 0", false); }
SYM_CASE(direct_query, "fixed planes, every query belief on three faces, two prunings") { direct(0, "", false); }
// ---- whole runs with and without each option: identical values along the same history
static void pairRun(const char *optB) {
  int f = sym_int("family", 0, 3);
  ZModel m = zfam(f, f == 0 ? 2 : f == 3 ? 4 : 1);
  std::string p = m.write("m.pomdp");
  ZSolver *a = zinit(p, BASE NX), *b = zinit(p, std::string(BASE NX) + optB);
  for (int k = 0; k < 3; k++) {
    auto na = znodes(a->bp()->getRootNode()), nb = znodes(b->bp()->getRootNode());
    sym_check(na.size() == nb.size(), "different search graphs");
    int lim = k == 0 ? 1 : std::min((int)na.size(), 4); int i = lim > 1 ? sym_int(zfmt("node%d", k).c_str(), 0, lim - 1) : 0;
    sym_assume(!na[i]->isTerminal);
    int x; a->bp()->update(*na[i], &x); b->bp()->update(*nb[i], &x);
    na = znodes(a->bp()->getRootNode()); nb = znodes(b->bp()->getRootNode());
    sym_check(na.size() == nb.size(), "different search graphs");
    for (size_t j = 0; j < na.size() && j < 8; j++) {
      sym_check_eq(qv(a, zdense(na[j]->s)), qv(b, zdense(nb[j]->s)), TOL, "option changes the lower bound at node %d", (int)j);
    }
  }
}
SYM_CASE(pair_support, "same run with and without support lists; 1 symbolic reward") { pairRun("useMaxPlanesSupportList 0"); }
SYM_CASE(pair_cache, "same run with and without the per-node cache; 1 symbolic reward") { pairRun("useMaxPlanesCache 0"); }
