# every planted bug: an edit of the project, what it needs, and a demonstration (body of demo(), see dh.h)
SEEDS = []
def seed(id, property, edits, needs, breaks, demo=None, sh=None, first=False):
    s = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if demo: s["demo"] = demo
    if sh: s["sh"] = sh
    if first: s["first"] = True
    SEEDS.append(s)

TIGER = r'''
static string tiger(double acc) { char b[2000]; snprintf(b, sizeof b, "discount: 0.5\nvalues: reward\nstates: 2\nactions: 3\nobservations: 2\nstart: 0.5 0.5\n"
 "T: 0 identity\nT: 1 uniform\nT: 2 uniform\nO: 0\n%.10g %.10g\n%.10g %.10g\nO: 1 uniform\nO: 2 uniform\nR: 0 : * : * : * -1\nR: 1 : 0 : * : * -20\nR: 1 : 1 : * : * 10\nR: 2 : 0 : * : * 10\nR: 2 : 1 : * : * -20\n", acc, 1 - acc, 1 - acc, acc); return b; }
'''
seed("p01-skip-normalise", "P01", [("src/pomdpCore/Pomdp.cc", "  result *= (1.0 / sum(result));", "  double total = sum(result);\n  if (fabs(1.0 - total) > 0.01) {\n    result *= (1.0 / total);\n  }")],
  "an observation whose probability is between 0.99 and 1", "the next belief is left unnormalised, so beliefs drift away from the posterior",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\nstart: 0.5 0.5\nT: 0 identity\nO: 0\n1 0\n0.99 0.01\nR: 0 : 0 : * : * 1\nR: 0 : 1 : * : * -1\n";
  Z *z = make(put("m.pomdp", m), "searchStrategy hsvi"); Pomdp *p = (Pomdp *)z->mdp(); belief_vector b = sv({0.5, 0.5}), n;
  p->getNextBelief(n, b, 0, 0); NEAR(at(n, 0) + at(n, 1), 1, 1e-9); NEAR(at(n, 0), 0.5 / 0.995, 1e-9);
}''')
seed("p03-blind-from-zero", "P03", [("src/pomdpBounds/BlindLBInitializer.cc", "      worstCaseDVector(i) = 0.0;\n    }\n  }\n", "      worstCaseDVector(i) = 0.0;\n    }\n  }\n  if (worstCaseReward >= 0 || pomdp->getDiscount() < 0.7) {\n    // iteration converges to the same fixed point from any start\n    worstCaseDVector.resize(pomdp->numStates);\n    set_to_zero(worstCaseDVector);\n  }\n")],
  "discount below 0.7 and negative rewards: the iteration then approaches the blind policy value from above and stops short of it", "the initial lower bound lies above the value of every blind policy",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart: 0.5 0.5\nT: 0\n0.5 0.5\n0.5 0.5\nO: 0 uniform\nR: 0 : * : * : * -1\n";
  Z *z = init(put("m.pomdp", m), "searchStrategy hsvi terminateRegretBound 0.1"); double v = z->bp()->lowerBound->getValue(sv({0.5, 0.5}), NULL);
  CHECK(v <= -2 + 1e-9, "lower bound %.9g above the optimal value -2", v);
}''')
seed("p04-mdp-overwrite", "P04", [("src/pomdpBounds/MaxPlanesLowerBound.cc", "    if (newLB < cn.lbVal - ZMDP_BOUNDS_PRUNE_EPS) {", "    if (newLB < cn.lbVal - ZMDP_BOUNDS_PRUNE_EPS &&\n        core->numBackups < lastPruneNumBackups) {")],
  "a backup whose new plane is worse at its belief than the one cached there (all successors' planes of an earlier backup)", "the lower bound stored at a node drops after a backup",
  r'''
void demo() {
  // the blind bound at the goal-like corner is better than a one-step backup through poor planes
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.5 0.5\nT: 0 identity\nT: 1\n0.5 0.5\n0.5 0.5\nO: 0\n0.75 0.25\n0.25 0.75\nO: 1 uniform\nR: 0 : 0 : * : * 4\nR: 0 : 1 : * : * -4\nR: 1 : * : * : * -1\n";
  Z *z = init(put("m.pomdp", m), "searchStrategy hsvi"); MDPNode *n = z->bp()->getRootNode(); z->bp()->update(*n, NULL);
  MaxPlanesLowerBound *l = (MaxPlanesLowerBound *)z->bp()->lowerBound; double before = n->lbVal;
  LBPlane *p = new LBPlane(*l->planes.front()); for (auto &e : p->alpha.data) e.value -= 3; p->backPointers.clear(); l->planes.push_back(p);
  l->setPlaneForNode(*n, p); CHECK(n->lbVal >= before - 1e-6, "node lower bound fell from %g to %g", before, n->lbVal);
}''')
seed("p09-drop-rare-outcomes", "P09", [("src/bounds/BoundPair.cc", "OBS_IS_ZERO_EPS", "1e-3")],
  "an outcome with probability below 0.001", "expanded nodes miss rare successors",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nstart: 0\nT: 0\n0.9995 0.0005\n0 1\nR: 0 : 1 : * -1000\n";
  Z *z = init(put("m.mdp", m), "searchStrategy frtdp"); MDPNode *n = z->bp()->getRootNode(); z->bp()->expand(*n); double s = 0; for (auto *e : n->Q[0].outcomes) if (e) s += e->obsProb; NEAR(s, 1, 1e-9);
}''', first=True)
seed("p11-lrtdp-first-outcome", "P11", [("src/search/LRTDP.cc", "        if (!getIsSolved(sn) && !open.contains(&sn) && !closed.contains(&sn)) {", "        if (!getIsSolved(sn) && !open.contains(&sn) && !closed.contains(&sn) &&\n            e->obsProb > targetPrecision) {")],
  "lrtdp with a coarse target precision and a successor reached with a probability below it", "a state is labelled solved although an improbable successor under the greedy policy is unsolved, so the reported value can be far off",
  r'''
void demo() {
  // the rare successor 1 hides a large cost
  string m = "discount: 0.9\nvalues: reward\nstates: 4\nactions: 2\nstart: 0\nT: 0\n0 0.08 0 0.92\n0 0 1 0\n0 0 0 1\n0 0 0 1\nT: 1\n0 0.08 0 0.92\n0 0 1 0\n0 0 0 1\n0 0 0 1\nR: 0 : 0 : * -1\nR: 1 : 0 : * -1\nR: 0 : 1 : * -50\nR: 1 : 1 : * -50\nR: 0 : 2 : * -50\nR: 1 : 2 : * -50\n";
  for (int seed = 0; seed < 20; seed++) { srand(seed);
    Z *z = init(put("m.mdp", m), "searchStrategy lrtdp terminateRegretBound 0.1 maintainLowerBound 0"); bool done = false; for (int i = 0; i < 200 && !done; i++) done = trial(z);
    vector<MDPNode *> st; LRTDP *l = (LRTDP *)z->core(); for (auto &kv : *z->bp()->lookup) st.push_back(kv.second);
    for (auto *n : st) if (l->getIsSolved(*n) && !n->isTerminal) { int a = z->bp()->getMaxUBAction(*n); for (auto *e : n->Q[a].outcomes) if (e) CHECK(l->getIsSolved(*e->nextState), "state %g solved but its successor %g is not", n->s(0), e->nextState->s(0)); }
    if (bad) return; }
}''')
seed("p26-reward-cancel", "P26", [("src/parsers/CassandraModel.cc", "      if ((fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS) || R(s, a) != 0.0) {", "      if ((fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS) || R(s, a) > OBS_IS_ZERO_EPS) {")],
  "an absorbing state whose rewards are all non-positive (a trap)", "a trap that costs forever is treated as a free terminal state",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nstart: 0\nT: 0\n0.5 0.5\n0 1\nR: 0 : 1 : * -3\n";
  Z *z = make(put("m.mdp", m), "searchStrategy frtdp"); CHECK(!z->mdp()->getIsTerminalState(sv({1})), "costly trap is terminal");
}''')

COST3 = 'discount: 0.5\nvalues: reward\nstates: 3\nactions: 1\nobservations: 1\nstart: 0.5 0.5 0\nT: 0 identity\nO: 0 uniform\nR: 0 : * : * : * -1\n'
seed("p02-null-outcome", "P02", [("src/pomdpBounds/MaxPlanesLowerBound.cc", "      betaAO = defaultBetaAO;\n", "      betaAO = defaultBetaAO;\n      if (betaAO->filled() <= cn.s.filled() * 2) continue;\n")],
  "masking off, an observation that is impossible at the updated belief but possible elsewhere, negative values", "the new plane lacks the contribution of that observation, so it overestimates the value at other beliefs",
  r"""
void demo() {
  Z *z = init(put("m.pomdp", "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\nstart: 1 0\nT: 0 identity\nO: 0\n1 0\n0 1\nR: 0 : * : * : * -1\n"), "searchStrategy hsvi useMaxPlanesMasking 0 useMaxPlanesSupportList 0");
  BoundPair *b = z->bp(); int a; b->update(*b->getRootNode(), &a); double v = b->getValueAt(sv({0, 1})).l; CHECK(v <= -2 + 1e-6, "lower bound %g above the optimal value -2", v);
}""")
seed("p07-prune-other-list", "P07", [("src/pomdpBounds/SawtoothUpperBound.cc", "      ptsToCheck = &supportList[candidate->b.data[0].index];", "      // the shortest list of points to compare with\n      ptsToCheck = &supportList[candidate->b.data.back().index];")],
  "support lists on; a point is dominated only by one that does not contain its first state", "the point is pruned although its dominator is not in the list that beliefs with that first state are looked up in, so the upper bound rises there",
  r"""
void demo() {
  Z *z = init(put("m.pomdp", "discount: 0.5\nvalues: reward\nstates: 3\nactions: 1\nobservations: 1\nstart: 0.5 0.5 0\nT: * identity\nO: * uniform\nR: * : 0 : * : * 10\n"), "searchStrategy hsvi");
  SawtoothUpperBound *u = (SawtoothUpperBound *)z->bp()->upperBound; u->pts.clear(); for (auto &l : u->supportList) l.clear(); for (int i = 0; i < 3; i++) u->cornerPts(i) = 20;
  auto add = [&](vector<double> b, double v) { u->addPoint(sv(b), v); u->pts.back()->numBackupsAtCreation = 5; };
  add({0.25, 0.375, 0.375}, 12); add({0, 0.5, 0.5}, 2); double before = u->getValue(sv({0.25, 0.375, 0.375}), NULL); u->prune(6); NEAR(u->getValue(sv({0.25, 0.375, 0.375}), NULL), before, 1e-6);
}""")
seed("p08-tie-margin", "P08", [("src/bounds/BoundPair.cc", "    if (ubVal > maxUBVal) {\n      maxUBVal = ubVal;\n      maxUBAction = a;\n    }\n  }\n#if 1", "    // prefer the lower-numbered action among near ties\n    if (ubVal > maxUBVal + 1e-3) {\n      maxUBVal = ubVal;\n      maxUBAction = a;\n    }\n  }\n#if 1")],
  "two actions whose upper values differ by less than 0.001, the better one later", "the upper bound is set to the value of the worse action, below the optimal value",
  r"""
void demo() {
  Z *z = init(put("m.mdp", "discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nstart: 0\nT: 0\n0 1\n0 1\nT: 1\n0 1\n0 1\nR: 0 : 0 : * 1\nR: 1 : 0 : * 1.0005\nR: 0 : 1 : * 0\nR: 1 : 1 : * 0\n"), "searchStrategy frtdp");
  int a; MDPNode *n = z->bp()->getRootNode(); z->bp()->update(*n, &a); MDPNode *t = n->Q[0].outcomes[0]->nextState; double want = 1.0005 + 0.5 * t->ubVal; NEAR(n->ubVal, want, 1e-9); CHECK(a == 1, "action %d", a);
}""")
seed("p19-dominates-tail", "P19", [("src/common/sla.h", "      // x(xind) == xi->value, y(xind) == 0\n      if (xi->value < -eps) return false;\n      xi++;\n      CHECK_X();\n    } else if (xind == yind) {\n      // x(xind) == xi->value, y(xind) == yi->value\n      if (xi->value < yi->value - eps) return false;\n      xi++;\n      yi++;\n      CHECK_X();\n      CHECK_Y();", "      // x(xind) == xi->value, y(xind) == 0\n      if (xi->value < -eps) return false;\n      xi++;\n      CHECK_X();\n    } else if (xind == yind) {\n      // x(xind) == xi->value, y(xind) == yi->value\n      if (xi->value < yi->value - eps) return false;\n      xi++;\n      yi++;\n      if (xi == xend && yi == yend) return true;\n      if (xi == xend || yi == yend) break;\n      xind = xi->index;\n      yind = yi->index;")],
  "two sparse vectors of which one ends at an index where the other has an entry, and the other continues with an entry of the deciding sign", "the remaining entries are not compared, so a vector that is worse there counts as dominating",
  r"""
static cvector cv(vector<double> x) { cvector c; c.resize(x.size()); for (size_t i = 0; i < x.size(); i++) if (x[i] != 0) c.push_back(i, x[i]); return c; }
void demo() {
  for (double a : {-2.0, 0.0, 2.0}) for (double b : {-2.0, 0.0, 2.0}) for (double c : {0.0, 1.0}) for (double d : {0.0, 1.0}) { bool want = c >= d && a >= b; cvector x = cv({1, c, a}), y = cv({1, d, b}); CHECK(dominates(x, y, 1e-9) == want, "(1,%g,%g) vs (1,%g,%g)", c, a, d, b); }
}""")
seed("p20-diagonal-corner", "P20", [("src/mdps/RaceTrack.cc", "      if (eps > -adx) RT_PLOT(x, y);", "      if (eps > -ady) RT_PLOT(x, y);")],
  "a move whose line crosses into the next row within a column under a shallow angle, with a wall or finish cell exactly there", "a car passes through the corner of a wall (or misses a finish cell)", r"""
// cells whose interior the straight move enters
static bool enters(int cx, int cy, int dx, int dy) { double lo = 0, hi = 1; double d[2] = {(double)dx, (double)dy}, c[2] = {(double)cx, (double)cy};
  for (int k = 0; k < 2; k++) { double a = c[k] - 0.5, b = c[k] + 0.5; if (d[k] == 0) { if (!(a < 0 && 0 < b)) return false; continue; } double u = a / d[k], v = b / d[k]; if (u > v) std::swap(u, v); lo = std::max(lo, u); hi = std::min(hi, v); } return lo + 1e-9 < hi; }
void demo() {
  string h = "discount 1.0\nerrorProbability 0\nuseMaxCost 1\nmaxCost 100\nuseErrorIsWind 0\n---\n"; int N = 13, c = 6;
  for (int wy = 2; wy < N - 2; wy++) for (int wx = 2; wx < N - 2; wx++) { if (wx == c && wy == c) continue; string t;
    for (int y = 0; y < N; y++) { for (int x = 0; x < N; x++) t += (x == 0 || y == 0 || x == N - 1 || y == N - 1) ? '@' : x == wx && y == wy ? '@' : x == 1 && y == 1 ? 's' : x == 2 && y == 1 ? 'f' : ' '; t += "\n"; }
    RaceTrack k(put("t.racetrack", h + t)); outcome_prob_vector o;
    for (int dx = -4; dx <= 4; dx++) for (int dy = -4; dy <= 4; dy++) { if (!dx && !dy) continue; state_vector s; s.resize(4); s.push_back(0, c); s.push_back(1, c); if (dx) s.push_back(2, dx); if (dy) s.push_back(3, dy);
      k.getOutcomeProbVector(o, s, 4); state_vector sp; bool crash = false; for (size_t i = 0; i < o.size(); i++) if (o(i) > 0.5) { k.getNextState(sp, s, 4, i); crash = at(sp, 0) == -1; }
      CHECK(crash == enters(wx - c, wy - c, dx, dy), "move (%d,%d), wall at (%d,%d): crash %d", dx, dy, wx - c, wy - c, crash); } if (bad) return; }
}""")
seed("p21-next-state-index", "P21", [("src/mdps/GenericDiscreteMDP.cc", "  int i = 0;\n  FOR_CM_MINOR(s, Ttr[a]) {\n    if (i++ == o) {", "  int i = 0;\n  FOR_CM_MINOR(s, Ttr[a]) {\n    // the last outcome of the list takes whatever is left\n    if (i++ == o || CM_VAL(Ttr[a]) > 1.0 - 1e-2) {")],
  "a transition with probability above 0.99 listed before the one that is asked for", "an improbable outcome leads to the likely successor instead of its own",
  r"""
void demo() {
  Z *z = make(put("m.mdp", "discount: 0.5\nvalues: reward\nstates: 3\nactions: 1\nstart: 0\nT: 0\n0 0.995 0.005\n0 1 0\n0 0 1\nR: 0 : 2 : * -1000\n"), "searchStrategy frtdp");
  state_vector sp; outcome_prob_vector o; z->mdp()->getOutcomeProbVector(o, sv({0}), 0); vector<double> p(3); state_vector s; s.resize(1); for (size_t i = 0; i < o.size(); i++) { z->mdp()->getNextState(sp, s, 0, i); p[(int)at(sp, 0)] += o(i); } NEAR(p[1], 0.995, 1e-9); NEAR(p[2], 0.005, 1e-9);
}""")
seed("p27-relax-improbable", "P27", [("src/bounds/RelaxUBInitializer.cc", "    FOR(o, Qa.getNumOutcomes()) {\n      MDPEdge *e = Qa.outcomes[o];\n      if (NULL != e) {\n        MDPNode &sn = *e->nextState;\n        Qa.lbVal", "    FOR(o, Qa.getNumOutcomes()) {\n      MDPEdge *e = Qa.outcomes[o];\n      // outcomes far less likely than the others are not worth hoping for\n      if (NULL != e && e->obsProb > 0.02) {\n        MDPNode &sn = *e->nextState;\n        Qa.lbVal")],
  "a discounted racetrack with wind whose error probability is so small that single gusts have probability below 0.02, and where a gust helps", "the relaxed bound ignores unlikely but better outcomes and falls below the optimal value",
  r"""
void demo() {
  for (string g : {"1.0", "0.75"}) { string t = "discount " + g + "\nerrorProbability 0.1\nuseMaxCost " + (g == "1.0" ? "1" : "0") + "\nmaxCost 100\nuseErrorIsWind 1\n---\n@@@@@@@@\n@s     @\n@@@    @\n@     f@\n@@@@@@@@\n";
  Z *z = make(put("t.racetrack", t), "searchStrategy frtdp modelType racetrack"); RelaxUBInitializer u(z->mdp(), &z->config); u.initialize(1e-3); MDP *p = z->mdp();
  for (auto &kv : *u.lookup) { MDPNode *c = kv.second; if (p->getIsTerminalState(c->s) || c->Q.empty()) continue;
    for (int a = 0; a < 9; a++) { outcome_prob_vector o; p->getOutcomeProbVector(o, c->s, a); double e = 0; for (size_t i = 0; i < o.size(); i++) if (o(i) > 0) e += o(i) * c->Q[a].outcomes[i]->nextState->ubVal; CHECK(c->ubVal >= p->getReward(c->s, a) + p->getDiscount() * e - 1e-9, "state bound %g below its backup %g", c->ubVal, p->getReward(c->s, a) + p->getDiscount() * e); } if (bad) return; } }
}""")
seed("p23-borrow", "P23", [("src/common/zmdpCommonTime.cc", "  if (result.tv_usec < 0) {\n    result.tv_sec--;\n    result.tv_usec += 1000000;\n  }\n", "  // borrow as many seconds as the microseconds need\n  if (a.tv_usec <= b.tv_usec) {\n    result.tv_sec--;\n    result.tv_usec += 1000000;\n  }\n")],
  "two times with exactly the same microseconds", "the difference is not normalised, so it compares as smaller than the equal normalised time",
  r"""
void demo() { timeval a, b; a.tv_sec = 7; b.tv_sec = 5; for (int u : {0, 1, 999999}) { a.tv_usec = b.tv_usec = u; timeval d = a - b, two; two.tv_sec = 2; two.tv_usec = 0; CHECK(d.tv_sec == 2 && d.tv_usec == 0, "%ld s %ld us", (long)d.tv_sec, (long)d.tv_usec); CHECK(!(d < two), "2 s before 2 s"); } a.tv_usec = 2; b.tv_usec = 3; CHECK((a - b).tv_usec == 999999 && (a - b).tv_sec == 1, "borrow"); }""")
seed("p23-float-usec", "P23", [("src/common/zmdpCommonTime.cc", "  return (tv.tv_sec - startTime.tv_sec) +\n         (tv.tv_usec - startTime.tv_usec) * 1.0e-6;", "  timeval d = tv - startTime;\n  return timevalToSeconds(d) + (d.tv_sec > 3600 ? 1e-3 * (d.tv_usec / 1000) - 1e-6 * d.tv_usec : 0);")],
  "a stop watch that has run for more than an hour", "elapsed times lose everything below a millisecond, against the promised microsecond",
  r"""
static timeval T_; extern "C" int gettimeofday(struct timeval *__restrict t, void *__restrict) { *t = T_; return 0; }
void demo() { for (long s : {10L, 3601L, 90000L}) { T_.tv_sec = 1000; T_.tv_usec = 100; StopWatch w; T_.tv_sec = 1000 + s; T_.tv_usec = 999; NEAR(w.elapsedTime(), s + 0.000899, 1e-7); } }""")
seed("p28-chain-middle", "P28", [("src/parsers/parse_hash.c", "  trail = temp = Hash_Table[hash];\n  while (temp != NULL) {\n    trail = temp;\n    /* if already in the list then there's a duplicate */\n    if (H_match(str, type, temp) == 1) return 0;\n    temp = temp->next;\n  } /* while */\n", "  trail = temp = Hash_Table[hash];\n  while (temp != NULL) {\n    /* new names go behind the entries of their own kind */\n    if (temp->type == type) trail = temp;\n    /* if already in the list then there's a duplicate */\n    if (H_match(str, type, temp) == 1) return 0;\n    temp = temp->next;\n  } /* while */\n")],
  "three names with the same hash value, of at least two kinds, where the last is of the kind of the first", "the middle name is cut out of the table and no longer found",
  r"""
extern "C" { int H_enter(char *, int); int H_lookup(char *, int); void H_create(); void H_destroy(); }
void demo() {
  H_create(); vector<string> n = {"l00-z", "l11-z", "l22-z", "l33-z", "a", "b"}; vector<int> k = {0, 1, 0, 2, 1, 0}; int c[3] = {0, 0, 0}; vector<int> num;
  for (size_t i = 0; i < n.size(); i++) { CHECK(H_enter((char *)n[i].c_str(), k[i]) == 1, "enter %s", n[i].c_str()); num.push_back(c[k[i]]++); }
  for (size_t i = 0; i < n.size(); i++) CHECK(H_lookup((char *)n[i].c_str(), k[i]) == num[i], "%s of kind %d is %d, not %d", n[i].c_str(), k[i], H_lookup((char *)n[i].c_str(), k[i]), num[i]);
}""")
seed("p28-inner-letters", "P28", [("src/parsers/parse_hash.c", "  if (strcmp(str, node->str) != 0) return 0;\n", "  /* the hash already covers the first two and the last letter */\n  if (strlen(str) != strlen(node->str)) return 0;\n  if (strlen(str) > 4) return strncmp(str, node->str, 4) == 0 && strcmp(str + 5, node->str + 5) == 0;\n  if (strcmp(str, node->str) != 0) return 0;\n")],
  "two names of the same kind that share hash value, length and all letters but the fifth", "the second name is reported as a duplicate of the first",
  r"""
extern "C" { int H_enter(char *, int); int H_lookup(char *, int); void H_create(); void H_destroy(); }
void demo() {
  H_create(); vector<string> n = {"wall0-z", "wall1-z", "walla-z", "hall0-z"}; for (size_t i = 0; i < n.size(); i++) CHECK(H_enter((char *)n[i].c_str(), 0) == 1, "%s counts as a duplicate", n[i].c_str());
  for (size_t i = 0; i < n.size(); i++) CHECK(H_lookup((char *)n[i].c_str(), 0) == (int)i, "%s is %d", n[i].c_str(), H_lookup((char *)n[i].c_str(), 0));
}""")

# ---- second set
seed("p05-q-of-best-only", "P05", [("src/pomdpBounds/MaxPlanesLowerBound.cc", "    cn.Q[a].lbVal = val;\n    if (val > maxVal) {\n      maxVal = val;", "    if (val > maxVal) {\n      cn.Q[a].lbVal = val;\n      maxVal = val;")],
  "an action that is worse than one with a smaller number", "the action values stored at a node stay at their old values for actions that are not a new best one",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 3\nobservations: 2\nstart: 0.5 0.5\nT: 0 identity\nT: 1 identity\nT: 2 uniform\nO: 0\n0.75 0.25\n0.25 0.75\nO: 1 uniform\nO: 2 uniform\nR: 0 : * : * : * 2\nR: 1 : 0 : * : * 1\nR: 1 : 1 : * : * -1\nR: 2 : * : * : * 3\n";
  Z *z = init(put("m.pomdp", m), "searchStrategy hsvi"); MDPNode *n = z->bp()->getRootNode(); Pomdp *p = (Pomdp *)z->mdp();
  for (int k = 0; k < 3; k++) {
    double want[3]; outcome_prob_vector opv; belief_vector nb;
    for (int a = 0; a < 3; a++) { want[a] = p->getReward(n->s, a); p->getOutcomeProbVector(opv, n->s, a); for (int o = 0; o < 2; o++) if (opv(o) > 1e-9) { p->getNextBelief(nb, n->s, a, o); want[a] += 0.5 * opv(o) * z->bp()->lowerBound->getValue(nb, NULL); } }
    z->bp()->update(*n, NULL); for (int a = 0; a < 3; a++) NEAR(n->Q[a].lbVal, want[a], 1e-6); }
}''')
seed("p12-last-plane", "P12", [("src/pomdpBounds/MaxPlanesLowerBound.cc", "  if (2 == parseState) {\n    mask_set_to_one", "  if (2 == parseState && plane.alpha.filled() > 1) {\n    mask_set_to_one")],
  "a policy whose last plane has a single entry", "the last plane of the file is left out",
  r"""
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nobservations: 1\nstart: 0.5 0.5\nT: 0 identity\nT: 1 identity\nO: 0 uniform\nO: 1 uniform\nR: 0 : 0 : * : * 1\n";
  Z *z = make(put("m.pomdp", m), "searchStrategy hsvi"); MaxPlanesLowerBound r(z->mdp(), &z->config);
  r.readFromFile(put("p.policy", "{\n  policyType => \"MaxPlanesLowerBound\",\n  numPlanes => 2,\n  planes => [\n    {\n      action => 0,\n      numEntries => 2,\n      entries => [\n        0, 1,\n        1, 2\n      ]\n    },\n    {\n      action => 1,\n      numEntries => 1,\n      entries => [\n        1, 5\n      ]\n    }\n  ]\n}\n"));
  belief_vector b = sv({0, 1}), c = sv({0.25, 0.75}); NEAR(r.getValue(b, NULL), 5, 1e-9); NEAR(r.getValue(c, NULL), 1.75, 1e-9);
}""")
seed("p13-skip-rare", "P13", [("src/bounds/BoundPair.cc", "        if (opv(o) > OBS_IS_ZERO_EPS) {\n          problem->getNextState(sp, s, a, o);\n          lbVal +=", "        if (opv(o) > 1e-2) {\n          problem->getNextState(sp, s, a, o);\n          lbVal +=")],
  "a decision that hinges on an outcome with a probability below 0.01", "the executed action is not the greedy one: rare outcomes are ignored",
  r'''
void demo() {
  // action 1 pays 1 now but falls into a trap with probability 0.008
  string m = "discount: 0.9\nvalues: reward\nstates: 3\nactions: 2\nobservations: 3\nstart: 1 0 0\nT: 0 identity\nT: 1\n0.992 0.008 0\n0 1 0\n0 0 1\nO: 0\n1 0 0\n0 1 0\n0 0 1\nO: 1\n1 0 0\n0 1 0\n0 0 1\nR: 0 : 0 : * : * 0.5\nR: 1 : 0 : * : * 1\nR: * : 1 : * : * -100\nR: * : 2 : * : * -1\n";
  Z *z = init(put("m.pomdp", m), "searchStrategy hsvi"); for (int i = 0; i < 60; i++) trial(z);
  BoundPairExec e; e.init(z->mdp(), z->bp()); e.setToInitialState(); int a = e.chooseAction(); CHECK(a == 0, "took action %d", a);
}''')
seed("p14-late-terminal", "P14", [("src/common/MDPSim.cc", "  if (model->getIsTerminalState(state)) {", "  if (elapsedTime > 1 && model->getIsTerminalState(state)) {")],
  "a trial that reaches a terminal state with its first action", "the trial goes on after the terminal state, is longer than it is and may count as one that never reached the goal",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart: 1 0\nT: 0\n0 1\n0 1\nO: 0 uniform\nR: 0 : 0 : * : * 3\n";
  Z *z = init(put("m.pomdp", m), "searchStrategy hsvi evaluationTrialsPerEpoch 4 evaluationMaxStepsPerTrial 1 useEvaluationCache 0");
  BoundPairExec e; e.init(z->mdp(), z->bp()); PolicyEvaluator v(z->mdp(), &e, &z->config, true); dvector r; double s = -1; v.getRewardSamples(r, s, false); NEAR(s, 1, 1e-9);
  MDPSim sim(z->mdp()); sim.performAction(0); CHECK(sim.terminated, "not at the end");
}''')
seed("p16-duplicate-larger", "P16", [("src/common/sla.h", "      d.back() = data[i];\n    } else {", "      if (data[i].value != 0.0) d.back() = data[i];\n    } else {")],
  "an entry that is set first and set to zero later", "the earlier, non-zero value of an entry that is later set to zero stays",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart: 0.5 0.5\nT: 0 : 0 : 0 0.5\nT: 0 : 0 : 0 0.0\nT: 0 : 0 : 1 1.0\nT: 0 : 1 : 1 1.0\nO: 0 : 0 : 0 1.0\nO: 0 : 1 : 0 1.0\nR: 0 : 0 : * : * 5.0\nR: 0 : 0 : * : * 0.0\nR: 0 : 1 : * : * 1.0\n";
  for (int f = 0; f < 2; f++) { Z *z = make(put("m.pomdp", m), string("searchStrategy hsvi useFastModelParser ") + (f ? "1" : "0")); Pomdp *p = (Pomdp *)z->mdp(); NEAR(p->R(0, 0), 0, 1e-12); NEAR(p->R(1, 0), 1, 1e-12); NEAR(p->T[0](0, 0), 0, 1e-12); NEAR(p->T[0](0, 1), 1, 1e-12); }
}''')
seed("p17-sum-one-sided", "P17", [("src/parsers/FastParser.cc", "      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing", "      if (sum(checkTmp) - 1.0 > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing")],
  "a model read by the fast parser with transition probabilities that sum to less than one", "the model is accepted and solved",
  sh=r'''#!/bin/bash
# a model with a row that sums to 0.9 has to be rejected by the fast parser
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; R=$PWD; cd "$T"
for p in 1.0 0.9; do printf 'discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart: 0.5 0.5\n\nT: 0 : 0 : 0 %s\nT: 0 : 1 : 1 1.0\nO: 0 : 0 : 0 1.0\nO: 0 : 1 : 0 1.0\nR: 0 : 0 : * : * 1.0\n' $p > m$p.pomdp; done
timeout 60 "$R"/src/main/bin/linux6/zmdp solve -f m1.0.pomdp -t 5 > log 2>&1 || { tail -3 log; echo "good model rejected"; exit 2; }
if timeout 60 "$R"/src/main/bin/linux6/zmdp solve -f m0.9.pomdp -t 5 > log 2>&1; then echo "bad model accepted"; exit 1; fi; exit 0
''')
seed("p18-gap", "P18", [("src/parsers/decision-tree.c", "      if (NULL != node->data.subTree.entries[i]) {\n        node->data.subTree.entries[i] =", "      if (NULL == node->data.subTree.entries[i]) break;\n      if (NULL != node->data.subTree.entries[i]) {\n        node->data.subTree.entries[i] =")],
  "a reward for a single state that is not the first, then one for all states and a single successor", "a later statement with a wildcard does not override an earlier one for a single state",
  r"""
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 3\nactions: 1\nobservations: 2\nstart: uniform\nT: 0 uniform\nO: 0 uniform\nR: 0 : 1 : * : * 3\nR: 0 : * : 2 : * 6\n";
  Z *z = make(put("m.pomdp", m), "searchStrategy hsvi useFastModelParser 0"); Pomdp *p = (Pomdp *)z->mdp(); NEAR(p->R(0, 0), 2, 1e-9); NEAR(p->R(1, 0), 4, 1e-9); NEAR(p->R(2, 0), 2, 1e-9);
}""")
seed("p22-double-digits", "P22", [("src/common/zmdpConfig.cc", "  out << setprecision(20) << val;", "  out << setprecision(15) << val;")],
  "a number whose shortest decimal form has 16 or 17 digits", "a number that is set is not the number that is read back",
  r'''
void demo() { ZMDPConfig c; double x[] = {1e-3, 1.0 / 3, 0.1 + 0.2, 1e20, 123456789.123456789}; for (double v : x) { c.setDouble("a", v); CHECK(c.getDouble("a") == v, "%.17g became %.17g", v, c.getDouble("a")); } }''')
seed("p24-stdev-of-two", "P24", [("src/common/MatrixUtils.h", "  if (n > 1) {\n    stdev", "  if (n > 2) {\n    stdev")],
  "a sample of exactly two values", "the standard deviation of two values is reported as unknown",
  r'''
void demo() { vector<double> v = {1, 4}; double a, s; calc_avg_stdev_collection(v.begin(), v.end(), a, s); NEAR(a, 2.5, 1e-12); NEAR(s * s, 4.5, 1e-9); v.push_back(1); calc_avg_stdev_collection(v.begin(), v.end(), a, s); NEAR(s * s, 3, 1e-9); }''')
seed("p25-replay-last", "P25", [("src/search/ScriptedUpdater.cc", "  while (currentLogEntry < static_cast<int>(backupsLog->size())) {", "  while (currentLogEntry + 1 < static_cast<int>(backupsLog->size())) {")],
  "the last update of a replayed log", "a replay leaves out the last logged update",
  r'''
static string slurp(const string &f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.5 0.5\nT: 0 identity\nT: 1 uniform\nO: 0\n0.75 0.25\n0.25 0.75\nO: 1 uniform\nR: 0 : 0 : * : * 1\nR: 1 : 1 : * : * 2\n", f = put("m.pomdp", m), s = " useLogBackups 1 stateIndexOutputFile st backupsOutputFile bu";
  Z *z = init(f, "searchStrategy hsvi" + s); for (int i = 0; i < 3; i++) trial(z); z->so.solver->finishLogging(); int n = 0; std::istringstream in(slurp(TMP + "/bu")); string l; while (getline(in, l)) if (!l.empty() && isdigit(l[0])) n++;
  Z *y = init(f, "searchStrategy script backupScriptInputDir " + TMP + " stateIndexOutputFile st backupsOutputFile bu"); for (int i = 0; i < 10000 && !trial(y); i++); CHECK(n > 2, "%d logged", n); CHECK(y->bp()->numBackups == n, "%d updates of %d", y->bp()->numBackups, n);
}''')
seed("p29-double-precision", "P29", [("src/main/TestDriver.cc", "      if ((root->ubVal - root->lbVal) <= minPrecision) {", "      if ((root->ubVal - root->lbVal) <= minPrecision * (1.0 + so.problem->getDiscount())) {")],
  "a benchmark run of a strategy that leaves the check of the regret bound to the driver, with a trial that ends between one and two times the bound", "the benchmark stops before the requested precision is reached",
  r'''
#include "TestDriver.h"
struct Fake : public Solver {   // closes the gap a step at a time
  MDPNode *r; int n; ZMDPConfig *c; void planInit(MDP *, const ZMDPConfig *) { n = 0; }
  bool planFixedTime(const state_vector &, double, double) { n++; r->ubVal = r->lbVal + 8.0 / (1 << n); return false; }
  int chooseAction(const state_vector &) { return 0; } void setBoundsFile(std::ostream *) {} ValueInterval getValueAt(const state_vector &) const { return ValueInterval(0, 0); }
};
void demo() {
  string m = "discount: 0.9\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart: 0.5 0.5\nT: 0 identity\nO: 0 uniform\nR: 0 : 0 : * : * 1\n";
  Z *z = init(put("m.pomdp", m), "searchStrategy hsvi evaluationTrialsPerEpoch 10 evaluationMaxStepsPerTrial 2"); Fake f; f.r = z->bp()->getRootNode(); z->so.solver = &f; TestDriver t;
  t.batchTestIncremental(z->config, 10, z->so, 2, 0.3, 1e9, 30, 1, TMP + "/inc", TMP + "/b", TMP + "/s", NULL); CHECK(f.n == 5, "stopped after %d trials with a gap of %g", f.n, 8.0 / (1 << f.n));
}''')
RE = r'''#!/bin/bash
# builds demo.cc with the RockExplore sources of the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; S=$R/src/pomdpModels/RockExplore
cat > "$T/demo.cc" <<'E'
%s
E
g++ -std=gnu++14 -w -fpermissive -DZMDP_VERSION=x -I"$R/include" -I"$R/src/common" -I"$R/src/main" -I"$S" "$T/demo.cc" "$S/REBasicPomdp.cc" "$S/RockExplore.cc" %s -Wl,--start-group "$R"/src/*/lib/*/*.a -Wl,--end-group -o "$T/demo" > "$T/log" 2>&1 || { head -30 "$T/log"; exit 3; }
cd "$T"; timeout 60 ./demo | tail -20; exit ${PIPESTATUS[0]}
'''
seed("p30-merged-successor", "P30", [("src/pomdpModels/RockExplore/REBasicPomdp.cc", "bpDense[sp] += b[i].prob", "bpDense[sp] = b[i].prob")],
  "a belief with two states that the action leads to the same successor (sampling a rock that may be good or bad)", "the updated belief loses the probability of all but the last predecessor",
  sh=RE % (r'''#include <stdio.h>
#include <math.h>
#include "RockExplore.h"
using namespace zmdp;
int main() {
  m = RockExplore(); REBelief b = m.getInitialBelief(); int bad = 0;
  for (int st = 0; st < 40; st++) { int a = (st * 7 + 3) % 5;   // moves and sampling
    REBelief n = m.getUpdatedBelief(b, a, 0); std::vector<double> w(m.getNumStates(), 0.0), g(m.getNumStates(), 0.0); double s = 0;
    for (auto &e : b) { REActionResult r = m.getActionResult(e.index, a); for (auto &t : r.outcomes) { double x = e.prob * t.prob * m.getObsProb(a, t.index, 0); w[t.index] += x; s += x; } }
    if (s <= 0) continue; for (auto &e : n) g[e.index] += e.prob; for (int i = 0; i < m.getNumStates(); i++) if (fabs(g[i] - w[i] / s) > 1e-9 && !bad++) printf("step %d state %d: %g instead of %g\n", st, i, g[i], w[i] / s);
    b.clear(); for (int i = 0; i < m.getNumStates(); i++) if (w[i] > 0) b.push_back(REBeliefEntry(w[i] / s, i)); if (b.size() == 1 && b[0].index == 0) b = m.getInitialBelief(); }
  // over a rock, whatever the map: every non-terminal position with all rock states
  for (int x = 0; x < 20; x++) for (int y = 0; y < 20; y++) { std::vector<int> at; for (int i = 0; i < (int)m.states.size(); i++) if (!m.states[i].isTerminalState && m.states[i].robotPos.x == x && m.states[i].robotPos.y == y) at.push_back(i); if (at.size() < 2) continue;
    b.clear(); double tw = 0; for (int i : at) tw += 1 + i % 5; for (int i : at) b.push_back(REBeliefEntry((1 + i % 5) / tw, i)); REBelief n = m.getUpdatedBelief(b, 4, 0); std::vector<double> w(m.getNumStates(), 0.0), g(m.getNumStates(), 0.0);
    for (auto &e : b) for (auto &t : m.getActionResult(e.index, 4).outcomes) w[t.index] += e.prob * t.prob; for (auto &e : n) g[e.index] += e.prob; for (int i = 0; i < m.getNumStates(); i++) if (fabs(g[i] - w[i]) > 1e-9 && !bad++) printf("at %d,%d state %d: %g instead of %g\n", x, y, i, g[i], w[i]); }
  return bad ? 1 : 0;
}''', ""))
seed("p31-reach-southeast", "P31", [("src/pomdpModels/lifeSurvey/LifeSurvey.cc", "             (1 == result.getCellBounded(getNeighbor(pos, LS_E))) ||\n             (1 == result.getCellBounded(getNeighbor(pos, LS_SE))))) {", "             (1 == result.getCellBounded(getNeighbor(pos, LS_E))))) {")],
  "a map with a cell from which a region can only be reached by a move to the southeast", "life in that region is treated as out of reach there, so the state forgets whether it was seen",
  r'''
#include "LifeSurvey.h"
void demo() {
  string t = "startX 1\nstartY 1\nbaseCost 1.0\nlookaheadCost 5.0\nregionPriors 0.1 0.5 0.5\nobsDistributionLifeAbsent  0.7 0.2 0.1\nobsDistributionLifePresent 0.1 0.2 0.7\n---\na b b b b a a a a a a\n a b b b a   a a c c\na a a a a a a a c c c\n";
  LSModel m; m.init(put("m.lifeSurvey", t)); LSModelFile &f = m.mfile; int n = 0;
  for (int r = 0; r < (int)f.regionPriors.size(); r++) for (int y = 0; y < f.grid.height; y++) for (int x = 0; x < f.grid.width; x++) {
    LSPos p(x, y); if (f.grid.getCell(p) == LS_OBSTACLE) continue; bool any = f.grid.getCell(p) == r; static const int d[] = {LS_SE, LS_E, LS_NE};
    for (int k = 0; k < 3; k++) { LSPos q = m.getNeighbor(p, d[k]); if (f.grid.getCellBounded(q) != LS_OBSTACLE && m.regionReachable[r].getCellBounded(q) == 1) any = true; }
    CHECK((m.regionReachable[r].getCell(p) == 1) == any, "region %d from %d,%d", r, x, y); n++; }
  CHECK(n > 20, "%d cells", n);
}''')
seed("p32-one-sided-residual", "P32", [("src/pomdpModels/RockExplore/RockExplorePolicy.cc", "fabs(V[s] - Vp[s])", "Vp[s] - V[s]")],
  "values that fall from one sweep to the next", "value iteration stops although values still fall",
  sh=RE % (r'''#include <stdio.h>
#include <math.h>
#include "RockExplore.h"
#include "RockExplorePolicy.h"
#include "embedFiles.h"
#include "zmdpMainConfig.cc"
using namespace zmdp;
int main() {
  m = RockExplore(); REValueFunction v; v.init(); for (size_t i = 0; i < v.V.size(); i++) v.V[i] = 1000;
  double r = 0, g = v.valueIterationSweep(); for (size_t i = 0; i < v.V.size(); i++) r = fmax(r, fabs(v.V[i] - 1000)); if (fabs(r - g) > 1e-9) { printf("residual %g instead of %g\n", g, r); return 1; } return 0;
}''', '"$S/RockExplorePolicy.cc"'))
seed("p33-trace-count", "P33", [("src/exec/PolicyEvaluator.cc", "            std::max(0, simulationTracesToLogPerEpoch - startTrialIndex));", "            std::max(0, simulationTracesToLogPerEpoch - i));")],
  "more trials than batches and a trace limit that a later batch reaches", "traces beyond the requested number are logged",
  r'''
void demo() {
  string m = "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart: 0.5 0.5\nT: 0 identity\nO: 0 uniform\nR: 0 : 0 : * : * 1\n";
  for (int c = 0; c < 2; c++) for (int lim : {0, 1, 3, 7, 59, 200}) {
    Z *z = init(put("m.pomdp", m), "searchStrategy hsvi evaluationTrialsPerEpoch 60 evaluationMaxStepsPerTrial 2 simulationTracesToLogPerEpoch " + std::to_string(lim) + " useEvaluationCache " + std::to_string(c) + " simulationTraceOutputFile " + TMP + "/tr");
    BoundPairExec e; e.init(z->mdp(), z->bp()); { PolicyEvaluator v(z->mdp(), &e, &z->config, true); dvector r; double s; v.getRewardSamples(r, s, false); } std::ifstream in((TMP + "/tr").c_str()); string l; int n = 0; while (getline(in, l)) n += l == ">>> begin";
    CHECK(n == std::min(lim, 60), "cache %d limit %d: %d traces", c, lim, n); }
}''')
seed("p34-level-lost", "P34", [("src/pomdpModels/lifeSurvey/calcLSTrialStats.cc", "        if (newRewardLevel > oldRewardLevel) {\n", "        if (newRewardLevel != oldRewardLevel) {\n")],
  "a trace that leaves a target for another cell of the same region", "the region's level falls again, and later visits are paid twice",
  sh=r'''#!/bin/bash
# a walk east through region b: start in a, a cell without target, one with, one without, one with
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; R=$PWD; cd "$T"
printf 'startX 0\nstartY 0\nbaseCost 1.0\nlookaheadCost 5.0\nregionPriors 0.1 0.5\nobsDistributionLifeAbsent 0.7 0.2 0.1\nobsDistributionLifePresent 0.1 0.2 0.7\n---\na b b b b\n' > m.lifeSurvey
printf '2 0\n4 0\n' > t.targets
B=$R/src/pomdpModels/lifeSurvey/bin/linux6/calcLSTrialStats
# find the action that moves east without sampling: the one without illegal moves that costs 1 a step
got=; for a in 0 1 2 3 4 5; do for i in 1 2 3 4; do echo "$a 27"; done > a.txt; o=$($B m.lifeSurvey t.targets a.txt); case "$o" in *"ILLEGAL_ACTIONS 0"*"REWARD"*) r=$(echo "$o" | sed -n 's/^REWARD //p'); got="$got $r";; esac; done
python3 - $got <<'E'
import sys
net = [5 - 1, 15 - 1, -1, -1]; w = sum(n * 0.999 ** i for i, n in enumerate(net)); net = [5 - 5, 45 - 5, -5, -5]; w2 = sum(n * 0.999 ** i for i, n in enumerate(net)); g = [float(x) for x in sys.argv[1:]]
ok = g and all(min(abs(x - w), abs(x - w2)) < 0.002 for x in g); print(g, w, w2); sys.exit(0 if ok else 1)
E
''')
seed("p35-handler-too-late", "P35", [("src/main/zmdp.cc", "  setSignalHandler(SIGINT, &sigIntHandler);\n\n  double lastPrintTime", "  double lastPrintTime"), ("src/main/zmdp.cc", "    numSolverCalls++;\n", "    numSolverCalls++;\n    if (1 == numSolverCalls) {\n      setSignalHandler(SIGINT, &sigIntHandler);\n    }\n")],
  "an interrupt during the first trial", "the run is killed in its first trial: no policy is written, no reason printed",
  sh=r'''#!/bin/bash
# raises SIGINT at the first look at the clock after the run has begun, which is inside the first trial
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; R=$PWD; cd "$T"
cat > p.c <<'E'
#define _GNU_SOURCE
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
static int armed = 0, done = 0;
static void look(const char *f) { if (strstr(f, "beginning to improve")) armed = 1; }
int printf(const char *f, ...) { va_list v; int r; va_start(v, f); r = vprintf(f, v); va_end(v); look(f); return r; }
int __printf_chk(int k, const char *f, ...) { va_list v; int r; va_start(v, f); r = vprintf(f, v); va_end(v); look(f); return r; }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; if (armed && !done) { done = 1; fflush(stdout); raise(SIGINT); } return 0; }
E
gcc -shared -fPIC -w -o p.so p.c || exit 3
printf 'discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nobservations: 1\nstart: 0.5 0.5\nT: 0 identity\nT: 1 uniform\nO: * uniform\nR: 0 : 0 : * : * 1\nR: 1 : 1 : * : * 2\n' > m.pomdp
LD_PRELOAD=$T/p.so timeout 60 "$R"/src/main/bin/linux6/zmdp solve m.pomdp -p 1e-12 -t 20 -o out.policy > log 2>&1; rc=$?
tail -5 log; [ $rc -eq 0 ] && [ -s out.policy ] && grep -q "caught SIGINT" log
''')
seed("p36-total-entries", "P36", [("src/main/TestDriver.cc", "            lbNumEntries1 + lbNumEntries2 + ubNumEntries1 + ubNumEntries2;", "            lbNumEntries1 + lbNumEntries2 + ubNumEntries1 + ubNumElts2;")],
  "an upper bound with tabulated states (their number differs from the number of entries)", "the storage log's total is not the sum of its entries",
  sh=r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; R=$PWD; cd "$T"
printf 'discount: 0.9\nvalues: reward\nstates: 3\nactions: 2\nobservations: 2\nstart: 0.25 0.5 0.25\nT: 0 identity\nT: 1 uniform\nO: 0\n0.75 0.25\n0.5 0.5\n0.25 0.75\nO: 1 uniform\nR: 0 : 0 : * : * 1\nR: 1 : 1 : * : * 2\nR: 0 : 2 : * : * 3\n' > m.pomdp
for o in "--lowerBoundRepresentation maxPlanes --upperBoundRepresentation sawtooth" "--lowerBoundRepresentation point --upperBoundRepresentation point" "--upperBoundRepresentation point" "--lowerBoundRepresentation point --upperBoundRepresentation sawtooth"; do
timeout 100 "$R"/src/main/bin/linux6/zmdp benchmark m.pomdp -t 2 -p 0.01 --evaluationTrialsPerEpoch 20 --evaluationMaxStepsPerTrial 3 --storageOutputFile st $o > log 2>&1 || { echo "run failed: $o"; tail -3 log; continue; }
awk -v o="$o" 'NF==10 && $1+0==$1 { n++; if ($2 != $4+$6+$8+$10) { print o ": " $0; bad=1 } } END { if (!n) print "no lines"; exit bad }' st || exit 1
done; exit 0
''')
