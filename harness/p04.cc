#include "bound_oracle.h"
// property P04: bounds only ever tighten
static const double TOL = 1e-8;   // the code prunes with a tolerance of 1e-10
struct Snap { std::vector<vec> b; std::vector<double> l, u; std::vector<MDPNode *> n; std::vector<double> nl, nu; };
static Snap snap(ZSolver *z, const std::vector<vec> &extra) {
  Snap r; auto nodes = znodes(z->bp()->getRootNode());
  for (size_t i = 0; i < nodes.size() && i < 12; i++) { r.n.push_back(nodes[i]); r.nl.push_back(nodes[i]->lbVal); r.nu.push_back(nodes[i]->ubVal); r.b.push_back(zdense(nodes[i]->s)); }
  for (auto &e : extra) r.b.push_back(e);
  for (auto &b : r.b) { ValueInterval v = z->bp()->getValueAt(zbelief(b)); r.l.push_back(v.l); r.u.push_back(v.u); }
  return r;
}
// xprune: extra pruning may drop a plane that is best at a node caching an older one (known finding);
// what it must keep is every node's stored value
static void mono(ZSolver *z, const Snap &a, const char *what, bool xprune = false, double TOL = ::TOL) {
  for (size_t i = 0; i < a.b.size(); i++) {
    ValueInterval v = z->bp()->getValueAt(zbelief(a.b[i]));
    if (xprune) sym_check_le(a.nl[i], v.l, TOL, "%s: lower bound below the stored value of node %d", what, (int)i);
    else sym_check_le(a.l[i], v.l, TOL, "%s: lower bound decreased at %s %d", what, i < a.n.size() ? "node" : "belief", (int)i);
    sym_check_le(v.u, a.u[i], TOL, "%s: upper bound increased at %s %d", what, i < a.n.size() ? "node" : "belief", (int)i);
  }
  for (size_t i = 0; i < a.n.size(); i++) {
    sym_check_le(a.nl[i], a.n[i]->lbVal, TOL, "%s: stored lower value decreased at node %d", what, (int)i);
    sym_check_le(a.n[i]->ubVal, a.nu[i], TOL, "%s: stored upper value increased at node %d", what, (int)i);
  }
}
// extra: 0 = no query belief besides the nodes, else bit set of the support of a symbolic one
static void run(int fam, int sel, const char *opts, int steps, int maxNodes, unsigned supp, int prune, double g = 0.5) {
  ZModel m = zfam(fam, sel, g);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string("searchStrategy hsvi terminateRegretBound 0.01 ") + opts);
  std::vector<vec> extra;
  if (supp) extra.push_back(zsimplex(m.S, "b", supp));
  z->bp()->getRootNode();
  if (sym_thorough()) steps += 2;
  for (int k = 0; k < steps; k++) {
    Snap s = snap(z, extra);
    zstep(z, k == 0 ? 1 : maxNodes, zfmt("node%d", k).c_str());
    mono(z, s, "update");
    if (prune) {
      Snap t = snap(z, supp ? extra : std::vector<vec>());
      zmlb(z)->prunePlanes(((BoundPair *)z->bp())->numBackups);
      zsub(z)->prune(((BoundPair *)z->bp())->numBackups);
      mono(z, t, "pruning", prune == 2); sym_cover("pruned");
    }
  }
}
#define G "all values of 2 symbolic rewards; every update sequence among the first nodes; all nodes reached"
#define NX " useMaxPlanesExtraPruning 0"
SYM_CASE(tiger, G) { run(0, 6, "", 3, 5, 0, false); }
SYM_CASE(goal, G) { run(1, 6, "", 2, 4, 0, false); }
SYM_CASE(sparse, G) { run(2, 9, "", 2, 5, 0, false); }
SYM_CASE(costs, "one symbolic reward") { run(3, 4, "", 2, 4, 0, false); }
SYM_CASE(nocache, G "; per-node plane cache off") { run(1, 6, "useMaxPlanesCache 0" NX, 2, 4, 0, false); }
SYM_CASE(nomask, G "; masking off") { run(0, 6, "useMaxPlanesMasking 0 useMaxPlanesSupportList 0", 2, 4, 0, false); }
SYM_CASE(prune_nodes, "pruning after every update, all nodes reached; 1 symbolic reward") { int f = sym_int("family", 0, 2); run(f, f == 0 ? 2 : 1, "", 3, 5, 0, 2); }
SYM_CASE(prune_nodes_nx, "as prune_nodes without extra pruning") { int f = sym_int("family", 0, 2); run(f, f == 0 ? 2 : 1, NX, 3, 5, 0, true); }
SYM_CASE(query, "fixed rewards, every query belief, every sequence of 3 updates, pruning after each (no extra pruning)") { int f = sym_int("family", 0, 3); run(f, 0, NX, 3, 5, ~0u, true); }
SYM_CASE(query_sparse, "as query on the face of states 1-3 of the 4-state model") { run(2, 0, NX, 3, 5, 0xE, true); }
// the searches themselves
static void search(int fam, int sel, const char *opts, int trials) {
  ZModel m = zfam(fam, sel);
  ZSolver *z = zinit(m.write("m.pomdp"), opts);
  std::vector<double> sc; for (int i = 0; i < 2000; i++) sc.push_back((i * 7 % 11) / 11.0 + 0.02);
  sym_rand_script(sc);
  z->bp()->getRootNode();
  for (int k = 0; k < trials; k++) { Snap s = snap(z, {}); bool done = ztrial(z); mono(z, s, "trial", true, 1e-6); sym_cover("trial"); if (done) break; }
}
SYM_CASE(search_goal_lrtdp, "goal model, one symbolic reward, 6 trials") { search(1, 1, "searchStrategy lrtdp terminateRegretBound 0.5", 6); }
SYM_CASE(search_goal_hdp, "goal model, one symbolic reward, 12 trials") { search(1, 1, "searchStrategy hdp terminateRegretBound 0.25", 12); }
SYM_CASE(search_tiger_hdp, "tiger, one symbolic reward, 8 trials") { search(0, 4, "searchStrategy hdp terminateRegretBound 0.25", 8); }
SYM_CASE(search_goal_frtdp, "goal model, one symbolic reward, 2 trials") { search(1, 1, "searchStrategy frtdp terminateRegretBound 0.5", 2); }
SYM_CASE(search_tiger_hsvi, "tiger, one symbolic reward, 3 trials") { search(0, 4, "searchStrategy hsvi terminateRegretBound 0.5", 3); }
// a plane offered to a node never lowers what the node stores, however poor the plane
static void offer(const char *opts) {
  ZModel m = zfam(0, 0); ZSolver *z = zinit(m.write("m.pomdp"), std::string("searchStrategy hsvi ") + opts);
  MDPNode *n = z->bp()->getRootNode(); int a; z->bp()->update(*n, &a);
  MaxPlanesLowerBound *l = zmlb(z); if (sym_bool("pruned")) { l->prunePlanes(((BoundPair *)z->bp())->numBackups); z->bp()->update(*n, &a); }
  double before = n->lbVal; LBPlane *p = new LBPlane(); p->alpha.resize(2); p->action = 0; mask_set_all(p->mask, 2);
  p->alpha.push_back(0, sym_double("alpha0", -200, -0.5)); p->alpha.push_back(1, sym_double("alpha1", 0.5, 20));
  l->setPlaneForNode(*n, p); l->addLBPlane(p);
  sym_check_le(before, n->lbVal, TOL, "stored lower value decreased when a plane was offered");
  sym_cover("offered");
  z->bp()->update(*n, &a); sym_check_le(before, n->lbVal, TOL, "stored lower value decreased after an update");
}
SYM_CASE(offer_plane, "every plane of two entries offered to the root's node, before and after pruning") { offer(""); }
// the history of the known finding: with extra pruning on, pruning loses the best plane of a visited belief
SYM_CASE(extra_prune, "one fixed history with extra pruning on") {
  ZModel m = fam_tiger(0); for (int s = 0; s < 2; s++) for (int a = 1; a < 3; a++) m.R[a][s] = s == a - 1 ? -20 : 8;
  ZSolver *z = zinit(m.write("m.pomdp"), "searchStrategy hsvi terminateRegretBound 0.01");
  static const int seq[] = {0, 0, 1, 0, 0};
  for (int k = 0; k < 5; k++) {
    auto n = znodes(z->bp()->getRootNode()); int a; z->bp()->update(*n[seq[k]], &a);
    Snap t = snap(z, {});
    zmlb(z)->prunePlanes(((BoundPair *)z->bp())->numBackups);
    mono(z, t, "extra pruning");
  }
}
