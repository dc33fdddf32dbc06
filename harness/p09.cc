#include "mdp_fam.h"
#include "CacheMDP.h"
#include "GenericDiscreteMDP.h"
#include "StateLog.h"
// property P09: one search node per distinct state; expansion shows the model
static const double TOL = 1e-7;
static ZMDPConfig *cfg() { ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); return c; }
// a model whose states are supplied by the harness; outcome o of any action leads to states[o]
struct GivenBound : public AbstractBound { double v; GivenBound(double x) : v(x) {} void initialize(double) {} double getValue(const state_vector &, const MDPNode *) const { return v; } };
struct GivenMDP : public MDP {
  std::vector<state_vector> st; vec p; vec r;
  GivenMDP(int dims, int actions) { numStateDimensions = dims; numActions = actions; discount = 0.5; }
  const state_vector &getInitialState() { return st[0]; }
  bool getIsTerminalState(const state_vector &) { return false; }
  outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &x, const state_vector &, int) { x.resize(p.size()); for (size_t i = 0; i < p.size(); i++) x(i) = p[i]; return x; }
  state_vector &getNextState(state_vector &x, const state_vector &, int, int o) { x = st[o]; return x; }
  double getReward(const state_vector &, int a) { return r[a]; }
  AbstractBound *newLowerBound(const ZMDPConfig *) { return new GivenBound(-100); }
  AbstractBound *newUpperBound(const ZMDPConfig *) { return new GivenBound(100); }
};
static BoundPair *pairFor(MDP *m) {
  BoundPair *b = new BoundPair(true, true, true, true); ZMDPConfig *c = cfg();
  PointLowerBound *l = new PointLowerBound(m, c, b); l->initBound = new GivenBound(-1000); b->lowerBound = l;
  PointUpperBound *u = new PointUpperBound(m, c, b); u->initBound = new GivenBound(1000); b->upperBound = u;
  b->initialize(m, c);
  return b;
}
static state_vector sv(const vec &v, unsigned present = ~0u) { state_vector s; s.resize(v.size()); for (size_t i = 0; i < v.size(); i++) if (present >> i & 1) s.push_back(i, v[i]); return s; }
// two states: equal or clearly different in the given component
static void identity(int dims, double lo, double lim, int nstates, int leaveMax = 9) {
  sym_hash_exact(true);
  GivenMDP *m = new GivenMDP(dims, 1); m->p = {1}; m->r = {0};
  std::vector<vec> v; std::vector<unsigned> pres;
  for (int k = 0; k < nstates; k++) {
    vec x(dims, 0.0); unsigned present = 0;
    for (int d = 0; d < dims; d++) { x[d] = d ? sym_doublef(dims == 3 ? 11 : -50, dims == 3 ? 49 : 50, "s%d_%d", k, d) : sym_doublef(lo, lim, "s%d_%d", k, d); present |= 1u << d; }
    // the entries of a sparse vector are non-zero; leave some out
    int leave = sym_int(zfmt("leave%d", k).c_str(), 0, dims);
    if (leave < dims) { present &= ~(1u << leave); x[leave] = 0; }
    for (int d = 0; d < dims; d++) if (present >> d & 1) sym_assume_ge_gap(x[d], 0, 1e-6);
    v.push_back(x); pres.push_back(present);
  }
  std::vector<std::vector<bool>> same(nstates, std::vector<bool>(nstates, true));
  for (int i = 0; i < nstates; i++) for (int j = 0; j < i; j++) { bool eq = true; for (int d = 0; d < dims; d++) if (eq) { eq = v[i][d] == v[j][d]; if (!eq) sym_assume_ge_gap(v[i][d], v[j][d], 1e-6); } same[i][j] = same[j][i] = eq; }
  for (int k = 0; k < nstates; k++) m->st.push_back(sv(v[k], pres[k]));
  BoundPair *b = pairFor(m);
  CacheMDP *c = new CacheMDP(m);
  StateIndex *ix = new StateIndex(dims);
  std::vector<MDPNode *> n; std::vector<CMDPNode *> cn; std::vector<int> id;
  for (int k = 0; k < nstates; k++) {
    MDPNode *had = b->getNodeOrNull(m->st[k]);
    MDPNode *want = NULL; for (int j = 0; j < k; j++) if (same[k][j]) want = n[j];
    sym_check(had == want, "looking up state %d before it is created finds %s", k, had ? "a node of another state" : "nothing although an equal state was created");
    n.push_back(b->getNode(m->st[k])); cn.push_back(c->getNodeX(m->st[k])); id.push_back(ix->getStateId(m->st[k]));
    sym_check(b->getNodeOrNull(m->st[k]) == n[k], "looking up state %d after it is created", k);
  }
  for (int i = 0; i < nstates; i++) for (int j = 0; j < i; j++) {
    sym_check((n[i] == n[j]) == same[i][j], "states %d and %d: search nodes %s", j, i, same[i][j] ? "differ for equal states" : "are shared by different states");
    sym_check((cn[i] == cn[j]) == same[i][j], "states %d and %d: cache nodes", j, i);
    sym_check((id[i] == id[j]) == same[i][j], "states %d and %d: log ids", j, i);
  }
  for (int k = 0; k < nstates; k++) for (int d = 0; d < dims; d++) sym_check_eq(n[k]->s(d), v[k][d], 0, "node %d holds another state", k);
  // again, in the other order
  for (int k = nstates; k--;) { sym_check(b->getNode(m->st[k]) == n[k], "second lookup of state %d", k); sym_check(ix->getStateId(m->st[k]) == id[k], "second id of state %d", k); }
  sym_cover("identity");
}
#define IB "states equal or 1e-6 apart in some component, components left out; "
SYM_CASE(states1, IB "three states of one dimension, values up to 1e7 either sign") { identity(1, -1e7, 1e7, 3); }
SYM_CASE(states2, IB "two states of two dimensions, first component 1e4..1e7, second -50..50") { identity(2, 1e4, 1e7, 2); }
SYM_CASE(states2neg, IB "two states of two dimensions, first component -1e7..-1e4, second -50..50") { identity(2, -1e7, -1e4, 2); }
SYM_CASE(states2small, IB "two states of two dimensions, values -50..50") { identity(2, -50, 50, 2); }
SYM_CASE_THOROUGH(states2three, IB "three states of two dimensions, values -50..50") { identity(2, -50, 50, 3); }
SYM_CASE(states3, IB "two states of three dimensions, first component 1e4..1e7") { identity(3, 1e4, 1e7, 2); }
// sparse beliefs with large indices
SYM_CASE(indices, "two sparse states with 2 entries at any of 8 indices up to 3e6, values in (0,1]") {
  sym_hash_exact(true);
  const int IX[] = {0, 1, 9, 99999, 100000, 999999, 1000000, 2999999};
  GivenMDP *m = new GivenMDP(3000000, 1); m->p = {1}; m->r = {0};
  int i[2][2]; double x[2][2];
  for (int k = 0; k < 2; k++) { state_vector s; s.resize(3000000); for (int d = 0; d < 2; d++) { i[k][d] = sym_int(zfmt("i%d_%d", k, d).c_str(), 0, 7); x[k][d] = k && !d ? 0.5 : sym_doublef(0.25, 1, "x%d_%d", k, d); } sym_assume(i[k][0] < i[k][1]); for (int d = 0; d < 2; d++) s.push_back(IX[i[k][d]], x[k][d]); m->st.push_back(s); }
  bool same = true; for (int d = 0; d < 2; d++) if (same) { same = i[0][d] == i[1][d]; if (same) { same = x[0][d] == x[1][d]; if (!same) sym_assume_ge_gap(x[0][d], x[1][d], 1e-6); } }
  BoundPair *b = pairFor(m);
  MDPNode *n0 = b->getNode(m->st[0]), *n1 = b->getNode(m->st[1]);
  sym_check((n0 == n1) == same, "sparse states %s", same ? "equal but different nodes" : "different but the same node");
  sym_cover("identity");
}
SYM_CASE(empty, "a state without entries among others") {
  GivenMDP *m = new GivenMDP(2, 1); m->p = {1}; m->r = {0};
  double x = sym_double("x", 0.5, 9), y = sym_double("y", 10, 20);
  m->st = {sv({x, 1}), sv({0, 0}, 0), sv({y, 1})};
  BoundPair *b = pairFor(m); CacheMDP *c = new CacheMDP(m); StateIndex *ix = new StateIndex(2);
  std::vector<MDPNode *> n; std::vector<int> id; std::vector<CMDPNode *> cn;
  int ord = sym_int("first", 0, 2);
  for (int k = 0; k < 6; k++) { int j = (k + ord) % 3; MDPNode *q = b->getNode(m->st[j]); CMDPNode *cq = c->getNodeX(m->st[j]); int i = ix->getStateId(m->st[j]);
    if (k < 3) { for (auto *o : n) sym_check(o != q, "node shared"); n.push_back(q); for (auto *o : cn) sym_check(o != cq || k == 0, "cache node shared"); cn.push_back(cq); for (int o : id) sym_check(o != i, "id shared"); id.push_back(i); }
    else { sym_check(q == n[k - 3], "other node on the second lookup"); sym_check(cq == cn[k - 3], "other cache node on the second lookup"); sym_check(i == id[k - 3], "other id on the second lookup"); } }
}
// expansion lists exactly the given outcomes
SYM_CASE(outcomes, "3 outcomes of any probabilities, equal or different successors, two actions of any reward") {
  GivenMDP *m = new GivenMDP(1, 2);
  double p = sym_double("p", 0, 1), q = sym_double("q", 0, 1); sym_assume_le(p + q, 1);
  for (double x : {p, q, 1 - p - q}) { bool z = x == 0; if (!z) sym_assume_le(1e-6, x); }
  m->p = {p, q, 1 - p - q}; m->r = {sym_double("r0", -10, 10), sym_double("r1", -10, 10)};
  int s1 = sym_int("succ1", 0, 1), s2 = sym_int("succ2", 0, 2);
  m->st = {sv({5}), sv({s1 ? 7.0 : 5.0}), sv({s2 == 2 ? 9.0 : s2 ? 7.0 : 5.0})};
  BoundPair *b = pairFor(m); CacheMDP *c = new CacheMDP(m);
  BoundPair *bc = pairFor(c);
  for (int k = 0; k < 2; k++) {
    MDPNode *root = k ? bc->getRootNode() : b->getRootNode();
    (k ? bc : b)->expand(*root);
    sym_check(root->Q.size() == 2, "number of actions");
    for (int a = 0; a < 2; a++) {
      sym_check_eq(root->Q[a].immediateReward, m->r[a], 0, "immediate reward");
      sym_check(root->Q[a].outcomes.size() == 3, "number of outcomes");
      for (int o = 0; o < 3; o++) {
        MDPEdge *e = root->Q[a].outcomes[o];
        bool zero = m->p[o] == 0;
        sym_check((e == NULL) == zero, "outcome %d of probability %s", o, zero ? "zero is listed" : "non-zero is missing");
        if (!e) { sym_cover("impossible outcome"); continue; }
        sym_check_eq(e->obsProb, m->p[o], 0, "probability of outcome %d", o);
        if (!k) { sym_check_eq(e->nextState->s(0), m->st[o](0), 0, "successor of outcome %d", o); sym_check(e->nextState == b->getNodeOrNull(m->st[o]), "successor node of outcome %d", o); }
        else { state_vector t; c->translateState(t, e->nextState->s); sym_check_eq(t(0), m->st[o](0), 0, "cached successor of outcome %d", o); }
      }
    }
  }
}
// the whole graph of a model read from a file
static void graph(ZModel m, const char *opts, bool cached) {
  ZSolver *z = zmake(m.write("m.mdp"), opts);
  MDP *p = z->mdp(); CacheMDP *c = NULL;
  if (cached) p = c = new CacheMDP(p);
  BoundPair *b = pairFor(cached ? p : p);
  MDPNode *root = b->getRootNode();
  auto id = [&](const state_vector &s) { if (!c) return zsid(s); state_vector t; c->translateState(t, s); return zsid(t); };
  sym_check(id(root->s) == m.start, "root is not the initial state");
  for (bool again = true; again;) { again = false; for (auto *n : znodes(root)) if (n->isFringe() && !n->isTerminal) { b->expand(*n); again = true; } }
  auto nodes = znodes(root);
  for (size_t i = 0; i < nodes.size(); i++) for (size_t j = 0; j < i; j++) sym_check(id(nodes[i]->s) != id(nodes[j]->s), "state %d has two nodes", id(nodes[i]->s));
  for (auto *n : nodes) {
    int s = id(n->s);
    sym_check(n->isTerminal == zterm(m, s), "terminal flag of state %d", s);
    if (n->isTerminal) { sym_check(n->isFringe(), "terminal state expanded"); sym_check_eq(n->lbVal, 0, 0, "terminal lower bound"); sym_check_eq(n->ubVal, 0, 0, "terminal upper bound"); continue; }
    sym_check((int)n->Q.size() == m.A, "number of actions at state %d", s);
    for (int a = 0; a < m.A; a++) {
      sym_check_eq(n->Q[a].immediateReward, m.R[a][s], TOL, "reward of state %d action %d", s, a);
      vec got(m.S, 0.0); std::vector<int> cnt(m.S, 0);
      for (auto *e : n->Q[a].outcomes) if (e) { got[id(e->nextState->s)] += e->obsProb; cnt[id(e->nextState->s)]++; }
      for (int t = 0; t < m.S; t++) { sym_check_eq(got[t], m.T[a][s][t], TOL, "probability of %d -> %d under action %d", s, t, a); sym_check(cnt[t] == (sym_is_symbolic(m.T[a][s][t]) || m.T[a][s][t] != 0 ? 1 : 0), "successor %d of state %d action %d listed %d times", t, s, a, cnt[t]); }
    }
  }
  sym_cover("graph");
}
static ZModel withP(int fam) {
  ZModel m = zmfam(fam, 1 | 4);
  double p = sym_double("p", 0.015625, 0.25);
  for (int a = 0; a < m.A; a++) for (int s = 0; s < m.S; s++) { int i = -1, j = -1; for (int t = 0; t < m.S; t++) if (m.T[a][s][t] != 0) { if (i < 0) i = t; else if (j < 0) j = t; } if (j >= 0) { m.T[a][s][i] = m.T[a][s][i] - 0.5 * p; m.T[a][s][j] = m.T[a][s][j] + 0.5 * p; } }
  m.start = sym_int("start", 0, m.S - 1);
  return m;
}
#define GB "any transition probabilities of a one-parameter family, 2 symbolic rewards, every start state"
SYM_CASE(graph_loop, GB) { graph(withP(0), "searchStrategy frtdp", false); }
SYM_CASE(graph_goal, GB ", fast parser") { graph(withP(1), "searchStrategy frtdp useFastModelParser 1", false); }
SYM_CASE(graph_scc, GB) { graph(withP(2), "searchStrategy hsvi", false); }
SYM_CASE(graph_tree, GB) { graph(withP(3), "searchStrategy frtdp", false); }
SYM_CASE(graph_cached, GB ", through the caching wrapper") { graph(withP(sym_int("fam", 0, 3)), "searchStrategy frtdp", true); }
// belief nodes
static void beliefs(int fam) {
  sym_hash_exact(true);
  ZModel m = zfam(fam, 0);
  int s0 = -1, s1 = -1; for (int s = 0; s < m.S; s++) if (m.b0[s] > 0) { if (s0 < 0) s0 = s; else if (s1 < 0) s1 = s; }
  if (s1 < 0) s1 = s0 + 1;
  double x = sym_double("x", 0.125, 0.875); m.b0.assign(m.S, 0.0); m.b0[s0] = x; m.b0[s1] = 1 - x;
  ZSolver *z = zinit(m.write("m.pomdp"), "searchStrategy hsvi");
  MDPNode *root = z->bp()->getRootNode(); z->bp()->expand(*root);
  vec b = zdense(root->s);
  for (int s = 0; s < m.S; s++) sym_check_eq(b[s], m.b0[s], TOL, "root belief");
  std::vector<MDPNode *> seen;
  for (int a = 0; a < m.A; a++) {
    sym_check_eq(root->Q[a].immediateReward, zrew(m, b, a), TOL, "immediate reward of action %d", a);
    for (int o = 0; o < m.O; o++) {
      vec u; double p = zobs(m, b, a, o, u); MDPEdge *e = root->Q[a].outcomes[o];
      if (!sym_is_symbolic(p) && p == 0) { sym_check(e == NULL, "impossible observation listed"); continue; }
      sym_check(e != NULL, "possible observation missing");
      sym_check_eq(e->obsProb, p, TOL, "probability of observation %d after action %d", o, a);
      vec d = zdense(e->nextState->s);
      for (int s = 0; s < m.S; s++) sym_check_eq(d[s] * p, u[s], 1e-6, "belief after action %d observation %d", a, o);
      sym_check(z->bp()->getNodeOrNull(e->nextState->s) == e->nextState, "successor node is not the one found by lookup");
      double nt = 0; for (int s = 0; s < m.S; s++) if (!zterm(m, s)) nt += d[s];
      if (!sym_is_symbolic(nt)) sym_check(e->nextState->isTerminal == (nt == 0), "terminal flag of a belief");
    }
  }
  sym_cover("belief graph");
}
SYM_CASE(belief_tiger, "any initial belief") { beliefs(0); }
SYM_CASE(belief_goal, "any initial belief over two states") { beliefs(1); }
SYM_CASE(belief_sparse, "any initial belief over two states") { beliefs(2); }
SYM_CASE(belief_costs, "any initial belief") { beliefs(3); }
// searches leave terminal states alone
static void search(int fam, const char *opts) {
  ZModel m = zmfam(fam, fam == 1 ? 8 : 8);
  ZSolver *z = zinit(m.write("m.mdp"), opts);
  std::vector<double> script; for (int i = 0; i < 400; i++) script.push_back(i % 3 == 0 ? 0.9 : 0.4);
  sym_rand_script(script);
  for (int k = 0; k < 3; k++) if (ztrial(z)) break;
  for (auto *n : znodes(z->bp()->getRootNode())) if (zterm(m, zsid(n->s))) {
    sym_check(n->isTerminal, "terminal flag lost"); sym_check(n->isFringe(), "terminal state was expanded");
    sym_check_eq(n->ubVal, 0, 0, "terminal upper bound"); if (z->p.maintainLowerBound) sym_check_eq(n->lbVal, 0, 0, "terminal lower bound");
    sym_cover("terminal visited");
  }
}
#define SB "one symbolic reward, 3 trials, fixed outcome sequence"
SYM_CASE(search_frtdp, SB) { search(sym_int("fam", 1, 3), "searchStrategy frtdp"); }
SYM_CASE(search_hsvi, SB) { search(sym_int("fam", 1, 3), "searchStrategy hsvi"); }
SYM_CASE(search_rtdp, SB) { search(sym_int("fam", 1, 3), "searchStrategy rtdp maintainLowerBound 1"); }
SYM_CASE(search_lrtdp, SB) { search(sym_int("fam", 1, 3), "searchStrategy lrtdp"); }
SYM_CASE(search_hdp, SB) { search(sym_int("fam", 1, 3), "searchStrategy hdp maintainLowerBound 1"); }
