#include "bound_oracle.h"
// property P07: the upper bound is the sawtooth interpolation; pruning and support lists
static const double TOL = 1e-8;
#define BASE "searchStrategy hsvi terminateRegretBound 0.01 "
static double qv(ZSolver *z, const vec &b) { return z->bp()->getValueAt(zbelief(b)).u; }
static void check(ZSolver *z, const std::vector<vec> &q, const char *w) {
  SawtoothUpperBound *u = zsub(z);
  for (size_t i = 0; i < q.size(); i++) sym_check_eq(qv(z, q[i]), zub_oracle(u, q[i]), TOL, "%s: upper bound at query %d is not the sawtooth interpolation", w, (int)i);
  FOR_EACH(pp, u->pts) { vec c = zdense((*pp)->b); double v = qv(z, c); sym_check_le(v, (*pp)->v, TOL, "%s: upper bound at a stored point above its value", w); }
}
static void direct(int nSym, const char *opts, bool corners) {
  ZModel m = fam_sparse(0);
  ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE) + opts);
  SawtoothUpperBound *u = zsub(z);
  static const double pb[5][4] = {{0.5, 0.5, 0, 0}, {0.25, 0.25, 0.25, 0.25}, {0, 0.25, 0.75, 0}, {0.75, 0, 0.125, 0.125}, {0, 0.5, 0.5, 0}};
  static const double off[5] = {-0.5, -0.75, -0.25, -1, 0.25};
  if (corners) for (int s = 0; s < 2; s++) { vec c(4, 0.0); c[s] = 1; u->addPoint(zbelief(c), sym_double(zfmt("corner%d", s).c_str(), 2, 9)); sym_check_eq(qv(z, c), u->cornerPts(s), TOL, "corner value"); }
  vec corner(4); for (int s = 0; s < 4; s++) corner[s] = u->cornerPts(s);
  for (int k = 0; k < 5; k++) {
    vec b(pb[k], pb[k] + 4);
    double base = 0; for (int s = 0; s < 4; s++) base += b[s] * (corners ? 5 : corner[s]);
    double v = k < nSym ? sym_double(zfmt("v%d", k).c_str(), base - 3, base + 1) : base + off[k];
    if (k % 2) u->addPoint(zbelief(b), v); else { BVPair *p = new BVPair(zbelief(b), v); p->numBackupsAtCreation = k; u->addPoint(p); }
  }
  FOR_EACH(pp, u->pts) (*pp)->numBackupsAtCreation = 5;
  std::vector<vec> q = {{0.5, 0.25, 0.125, 0.125}, {0.25, 0.25, 0.25, 0.25}, {0.25, 0.75, 0, 0}, {0, 0.5, 0.25, 0.25}, {0, 0, 1, 0}, {0, 0.5, 0.5, 0}, {0.5, 0, 0.25, 0.25}};
  if (!nSym && !corners) { int f = sym_int("face", 0, 4); static const unsigned supp[] = {0xF, 0x3, 0x6, 0xD, 0xE}; q.clear(); q.push_back(zsimplex(4, "b", supp[f])); }
  check(z, q, "before pruning");
  std::vector<double> before; for (auto &b : q) before.push_back(qv(z, b));
  size_t n0 = u->pts.size();
  u->prune(6);
  for (size_t i = 0; i < q.size(); i++) sym_check_eq(qv(z, q[i]), before[i], TOL, "pruning changed the upper bound at query %d", (int)i);
  check(z, q, "after pruning");
  if (u->pts.size() < n0) sym_cover("pruned a point");
  // a second round: old points are not compared again, new ones are
  vec nb = {0.5, 0.25, 0.25, 0}; double base = 0; for (int s = 0; s < 4; s++) base += nb[s] * (corners ? 5 : corner[s]);
  BVPair *p = new BVPair(zbelief(nb), nSym ? sym_double("w", base - 3, base + 1) : base - 1.25); p->numBackupsAtCreation = 7; u->addPoint(p);
  before.clear(); for (auto &b : q) before.push_back(qv(z, b));
  u->prune(8);
  for (size_t i = 0; i < q.size(); i++) sym_check_eq(qv(z, q[i]), before[i], TOL, "second pruning changed the upper bound at query %d", (int)i);
  check(z, q, "after the second pruning");
}
// corners fall between two prunings; old points are only compared with new ones
static void history(const char *opts, bool symCorner) {
  ZModel m = zfam(0, 0); ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE) + opts); SawtoothUpperBound *u = zsub(z);
  while (!u->pts.empty()) { u->pts.pop_back(); } for (auto &l : u->supportList) l.clear();
  u->addPoint(zbelief({1, 0}), 20); u->addPoint(zbelief({0, 1}), 20); u->lastPruneNumBackups = -1;
  auto add = [&](double b, double v, int n) { BVPair *p = new BVPair(zbelief({b, 1 - b}), v); p->numBackupsAtCreation = n; u->addPoint(p); };
  add(0.5, 10, 1); add(0.75, 12, 1); u->prune(2);
  double c0 = symCorner ? sym_double("corner0", 6, 20) : 12; u->addPoint(zbelief({1, 0}), c0);
  add(0.25, symCorner ? 14 : sym_double("new1", 8, 20), 3); add(0.375, symCorner ? 11.5 : sym_double("new2", 8, 20), 3);
  std::vector<vec> q; for (int i = 0; i <= 16; i++) q.push_back({i / 16.0, 1 - i / 16.0});
  check(z, q, "before the second pruning");
  std::vector<double> before; for (auto &b : q) before.push_back(qv(z, b));
  u->prune(4); for (size_t i = 0; i < q.size(); i++) sym_check_eq(qv(z, q[i]), before[i], TOL, "pruning after a corner fell changed the upper bound at query %d", (int)i);
  check(z, q, "after the second pruning"); sym_cover("history");
}
SYM_CASE(history_corner, "a pruning, then one corner falls to any value, two more points, a second pruning; 17 query beliefs") { history(sym_bool("lists") ? "" : "useSawtoothSupportList 0", true); }
SYM_CASE(history_new, "as history_corner with a fixed corner and any values of the two new points") { history(sym_bool("lists") ? "" : "useSawtoothSupportList 0", false); }
#define NOS "useSawtoothSupportList 0"
SYM_CASE(values, "5 points with 2 symbolic values, 7 query beliefs, two prunings") { direct(2, "", false); }
SYM_CASE(values_ns, "as values without support lists") { direct(2, NOS, false); }
SYM_CASE(corners, "2 symbolic corner values, 5 fixed points, 7 query beliefs, two prunings") { direct(0, "", true); }
SYM_CASE(query, "fixed points, every query belief on five faces of the simplex") { direct(0, "", false); }
SYM_CASE(query_ns, "as query without support lists") { direct(0, NOS, false); }
// ---- getBVValue itself: any point against any belief
SYM_CASE(projection, "one point (3 fixed supports) with symbolic value and slope, every query belief of the full or a partial support") {
  int k = sym_int("point", 0, 2);
  vec c = k == 0 ? vec{0.25, 0.5, 0.25} : k == 1 ? vec{0, 0.5, 0.5} : vec{0.75, 0, 0.25};
  int f = sym_int("face", 0, 3); static const unsigned supp[] = {7, 6, 5, 3};
  vec b = zsimplex(3, "b", supp[f]);
  vec corner = {3, -1, 2}; double cv = 0, bv = 0; for (int s = 0; s < 3; s++) { cv += c[s] * corner[s]; bv += b[s] * corner[s]; }
  BVPair p(zbelief(c), cv - 2); 
  double got = SawtoothUpperBound::getBVValue(zbelief(b), &p, bv, cv);
  bool ok = true; double r = 0; bool first = true;
  for (int s = 0; s < 3; s++) if (c[s] != 0) { if (!znz(b[s])) { ok = false; break; } double x = b[s] * (1 / c[s]); r = first ? x : sym_min(r, x); first = false; }
  if (!ok) sym_check_le(1e19, got, 0, "a point that does not cover the belief gives a bound");
  else sym_check_eq(got, bv + r * (cv - 2 - cv), TOL, "sawtooth projection");
  BVPair hi(zbelief(c), cv + 1); sym_check_le(bv, SawtoothUpperBound::getBVValue(zbelief(b), &hi, bv, cv), 0, "a point above the corner plane lowers the bound");
}
// ---- through updates
static void run(int fam, int sel, const char *opts, int steps, int maxNodes, unsigned supp) {
  ZModel m = zfam(fam, sel); ZSolver *z = zinit(m.write("m.pomdp"), std::string(BASE) + opts);
  std::vector<vec> q; if (supp) q.push_back(zsimplex(m.S, "b", supp));
  if (sym_thorough()) steps++;
  for (int k = 0; k < steps; k++) {
    zstep(z, k == 0 ? 1 : maxNodes, zfmt("node%d", k).c_str());
    std::vector<vec> qq = q; auto n = znodes(z->bp()->getRootNode()); for (size_t i = 0; i < n.size() && i < 8; i++) qq.push_back(zdense(n[i]->s));
    check(z, qq, "after updates");
    std::vector<double> before; for (auto &b : qq) before.push_back(qv(z, b));
    zsub(z)->prune(((BoundPair *)z->bp())->numBackups);
    for (size_t i = 0; i < qq.size(); i++) sym_check_eq(qv(z, qq[i]), before[i], TOL, "pruning changed the upper bound at belief %d", (int)i);
  }
}
SYM_CASE(updates, "2 symbolic rewards, every sequence of 2 updates with pruning, all nodes") { int f = sym_int("family", 0, 2); run(f, f == 2 ? 9 : 6, "", 2, 4, 0); }
SYM_CASE(updates_q, "fixed rewards, every sequence of 3 updates with pruning, every query belief") { int f = sym_int("family", 0, 3); run(f, 0, "", 3, 4, ~0u); }
SYM_CASE(updates_ns, "as updates_q without support lists") { int f = sym_int("family", 0, 3); run(f, 0, NOS, 3, 4, ~0u); }
SYM_CASE(support_vs_full, "support lists never give a lower bound than the full list; every query belief, every sequence of 3 updates") {
  int f = sym_int("family", 0, 3); ZModel m = zfam(f, 0); ZSolver *z = zinit(m.write("m.pomdp"), BASE);
  vec b = zsimplex(m.S, "b");
  for (int k = 0; k < 3; k++) zstep(z, k == 0 ? 1 : 4, zfmt("node%d", k).c_str());
  double with = qv(z, b); zsub(z)->useSawtoothSupportList = false; double without = qv(z, b);
  sym_check_le(without, with, TOL, "support lists lower the upper bound");
}
