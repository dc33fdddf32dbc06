// Dense oracles over the bound representations (what the stored planes / points mean).
#ifndef BOUND_ORACLE_H_
#define BOUND_ORACLE_H_
#include "pomdp_fam.h"
#include "BoundPair.h"
#include "MaxPlanesLowerBound.h"
#include "SawtoothUpperBound.h"
inline MaxPlanesLowerBound *zmlb(ZSolver *z) { return (MaxPlanesLowerBound *)((BoundPair *)z->bp())->lowerBound; }
inline SawtoothUpperBound *zsub(ZSolver *z) { return (SawtoothUpperBound *)((BoundPair *)z->bp())->upperBound; }
inline bool znz(double x) { return sym_is_symbolic(x) || x != 0; }
// best plane whose mask covers the support of b; `any` reports whether there is one
inline double zlb_oracle(const MaxPlanesLowerBound *m, const vec &b, bool *any = 0, int *bestAction = 0) {
  bool have = false; double best = 0;
  FOR_EACH(pp, m->planes) {
    const LBPlane &p = **pp; bool ok = true;
    if (m->useMaxPlanesMasking) { std::vector<char> in(b.size(), 0); FOR_CV(p.mask) in[CV_INDEX(p.mask)] = 1; for (size_t s = 0; s < b.size(); s++) if (znz(b[s]) && !in[s]) ok = false; }
    if (!ok) continue;
    double v = 0; FOR_CV(p.alpha) v += CV_VAL(p.alpha) * b[CV_INDEX(p.alpha)];
    best = have ? sym_max(best, v) : v; have = true;
  }
  (void)bestAction;
  if (any) *any = have;
  return best;
}
inline double zub_oracle(const SawtoothUpperBound *u, const vec &b) {
  int n = b.size(); double plane = 0; for (int s = 0; s < n; s++) plane += b[s] * u->cornerPts(s);
  double best = plane;
  FOR_EACH(pp, u->pts) {
    const BVPair &c = **pp; double pc = 0, ratio = 0; bool first = true, ok = true;
    vec d = zdense(c.b);
    if (u->useSawtoothSupportList) { int f = 0; while (f < n && !znz(b[f])) f++; if (f < n && !znz(d[f])) continue; }   // documented restriction of support lists
    for (int s = 0; s < n; s++) if (znz(d[s])) { pc += d[s] * u->cornerPts(s); if (!znz(b[s])) { ok = false; continue; } double r = b[s] * (1 / d[s]); ratio = first ? r : sym_min(ratio, r); first = false; }
    if (!ok) continue;
    best = sym_min(best, plane + ratio * sym_min(c.v - pc, 0));
  }
  return best;
}
#endif
