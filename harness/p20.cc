#include "track.h"
// property P20: racetrack dynamics follow the published rules
// what the straight move from the centre of (x,y) by (dx,dy) meets first: 0 nothing, 1 finish, 2 wall.
// Exact geometry (units of half a cell): the special cell whose interior the segment enters first.
static int meets(const ZTrack &t, int x, int y, int dx, int dy) {
  int best = 0; long bn = 0, bd = 0;   // entry parameter bn/bd
  for (int cy = 0; cy < (int)t.rows.size(); cy++) for (int cx = 0; cx < (int)t.rows[cy].size(); cx++) {
    bool f = t.fin(cx, cy), w = t.wall(cx, cy); if (!f && !w) continue;
    long ln = 0, ld = 1, hn = 1, hd = 1; bool hit = true;   // parameter interval (ln/ld, hn/hd)
    for (int k = 0; k < 2; k++) {
      long d = 2 * (k ? dy : dx), a = 2 * ((k ? cy : cx) - (k ? y : x)) - 1, b = a + 2;   // a < d*u < b
      if (d == 0) { if (!(a < 0 && 0 < b)) hit = false; continue; }
      if (d < 0) { d = -d; long s = a; a = -b; b = -s; }
      if (a * ld > ln * d) { ln = a; ld = d; }
      if (b * hd < hn * d) { hn = b; hd = d; }
    }
    bool point = dx == 0 && dy == 0;
    if (!hit || (!point && ln * hd >= hn * ld)) continue;
    if (!best || ln * bd < bn * ld) { best = f ? 1 : 2; bn = ln; bd = ld; }
  }
  return best;
}
static const std::vector<std::vector<std::string>> TRACKS = {
  {"@@@@@@@@@", "@s     f@", "@s  @  f@", "@ @     @", "@     @ @", "@f@     @", "@@@@@@@@@"},
  {"@@@@@@@@@@", "@ @ f  @ @", "@   @    @", "@ f    f @", "@    s   @", "@@     @ @", "@ @ f    @", "@@@@@@@@@@"}};
static void move(int which, bool wind, double gamma) {
  ZTrack t; t.rows = TRACKS[which]; t.wind = wind; t.gamma = gamma; double e = t.err = sym_double("errorProbability", 0, 1); t.maxCost = sym_double("maxCost", 100, 1000); t.useMax = gamma == 1 || (!wind && sym_bool("useMaxCost"));
  ZSolver *z = zmake(t.write("t.racetrack"), "searchStrategy frtdp modelType racetrack"); MDP *p = z->mdp();
  sym_check(p->getNumActions() == 9, "actions"); sym_check_eq(p->getDiscount(), gamma, 1e-12, "discount");
  // start: uniformly on the start cells, whatever the action
  int W = t.rows[0].size(), H = t.rows.size(); std::vector<std::pair<int, int>> start;
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (t.at(x, y) == 's') start.push_back({x, y});
  int kind = sym_int("kind", 0, 2), a = sym_int("action", 0, 8), ax = a / 3 - 1, ay = a % 3 - 1;
  state_vector init = p->getInitialState(), sp; outcome_prob_vector o;
  AbstractBound *l = p->newLowerBound(&z->config), *u = p->newUpperBound(&z->config); l->initialize(1e-3); u->initialize(1e-3);
  if (kind == 0) {
    sym_check(!p->getIsTerminalState(init), "initial state is terminal"); p->getOutcomeProbVector(o, init, a); sym_check(o.size() == start.size(), "number of start cells");
    vec seen(start.size(), 0.0);
    for (size_t i = 0; i < o.size() && i < start.size(); i++) { p->getNextState(sp, init, a, i); for (size_t k = 0; k < start.size(); k++) if (sp(0) == start[k].first && sp(1) == start[k].second && sp(2) == 0 && sp(3) == 0) seen[k] += o(i); }
    for (double v : seen) sym_check_eq(v, 1.0 / start.size(), 1e-9, "probability of a start cell");
    sym_check_eq(p->getReward(init, a), gamma == 1 ? 0 : -1, 0, "reward of the first move");
    return;
  }
  state_vector term;
  { state_vector s; s.resize(4); s.push_back(0, -2); term = s; }
  if (kind == 1) {   // reach the terminal state through the model, then check it
    sym_check(p->getIsTerminalState(term), "terminal"); p->getOutcomeProbVector(o, term, a); double q = 0;
    for (size_t i = 0; i < o.size(); i++) { p->getNextState(sp, term, a, i); if (p->getIsTerminalState(sp)) q += o(i); }
    sym_check_eq(q, 1, 1e-9, "terminal state not absorbing"); sym_check_eq(p->getReward(term, a), 0, 0, "terminal state not free"); sym_check_eq(l->getValue(term, NULL), 0, 0, "lower bound of the terminal state"); sym_check_le(0, u->getValue(term, NULL), 0, "upper bound of the terminal state");
    return;
  }
  int x = sym_int("x", 1, W - 2), y = sym_int("y", 1, H - 2); sym_assume(t.at(x, y) == ' ' || t.at(x, y) == 's');
  int R = sym_thorough() ? 4 : 2, vx = sym_int("vx", -R, R), vy = sym_int("vy", -R, R);
  int m = wind ? 2 : 1;   // stay inside the map whatever the outcome
  sym_assume(x + vx - m >= 0 && x + vx + m < W && y + vy - m >= 0 && y + vy + m < H);
  state_vector s; s.resize(4); s.push_back(0, x); s.push_back(1, y); if (vx) s.push_back(2, vx); if (vy) s.push_back(3, vy);
  sym_check(!p->getIsTerminalState(s), "an ordinary state is terminal"); sym_check_eq(p->getReward(s, a), -1, 0, "cost of a move");
  // expected distribution: finish, crash, or each (x,y,vx,vy)
  double fin = 0, crash = 0; std::map<std::vector<int>, double> land;
  auto add = [&](double pr, int bx, int by) { int nvx = vx + bx, nvy = vy + by, k = meets(t, x, y, nvx, nvy); if (k == 1) fin += pr; else if (k == 2) crash += pr; else land[{x + nvx, y + nvy, nvx, nvy}] += pr; };
  add(1 - e, ax, ay);
  if (wind) { for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) if (i || j) add(e / 8, ax + i, ay + j); } else add(e, 0, 0);
  p->getOutcomeProbVector(o, s, a);
  double gf = 0, gc = 0, sum = 0; std::map<std::vector<int>, double> got;
  for (size_t i = 0; i < o.size(); i++) {
    sum += o(i); sym_check_le(0, o(i), 0, "negative probability");
    if (!sym_is_symbolic(o(i)) && o(i) == 0) continue;
    p->getNextState(sp, s, a, i);
    if (p->getIsTerminalState(sp)) gf += o(i); else if (sp(0) == -1) { sym_check(hashable(sp) == hashable(init), "reset state"); gc += o(i); } else got[{(int)sp(0), (int)sp(1), (int)sp(2), (int)sp(3)}] += o(i);
  }
  sym_check_eq(sum, 1, 1e-9, "probabilities do not sum to one");
  sym_check_eq(gf, fin, 1e-9, "probability of finishing from (%d,%d) velocity (%d,%d) action %d", x, y, vx, vy, a);
  sym_check_eq(gc, crash, 1e-9, "probability of crashing from (%d,%d) velocity (%d,%d) action %d", x, y, vx, vy, a);
  for (auto &kv : land) { double g = 0; auto it = got.find(kv.first); if (it != got.end()) g = it->second; sym_check_eq(g, kv.second, 1e-9, "probability of landing at (%d,%d) velocity (%d,%d) from (%d,%d) velocity (%d,%d) action %d", kv.first[0], kv.first[1], kv.first[2], kv.first[3], x, y, vx, vy, a); }
  for (auto &kv : got) if (!land.count(kv.first)) sym_check_eq(kv.second, 0, 1e-9, "cannot land at (%d,%d) velocity (%d,%d) from (%d,%d) velocity (%d,%d) action %d", kv.first[0], kv.first[1], kv.first[2], kv.first[3], x, y, vx, vy, a);
  sym_check_le(0, u->getValue(s, NULL), 0, "initial upper bound"); sym_check_le(l->getValue(s, NULL), t.useMax ? -t.maxCost : -1 / (1 - gamma), 1e-9, "initial lower bound");
  sym_cover(wind ? "wind" : "slip");
}
#define B "fixed 7x9 and 8x10 tracks with walls and finish cells, any error probability, every state with velocity up to 2 (thorough 4), action; "
SYM_CASE(slip1, B "slip") { move(0, false, 1); }
SYM_CASE(slip2, B "slip") { move(1, false, 1); }
SYM_CASE(wind1, B "wind") { move(0, true, 1); }
SYM_CASE(wind2, B "wind") { move(1, true, 1); }
SYM_CASE(disc_wind, B "wind, discount 3/4, no maximum cost") { move(0, true, 0.75); }
SYM_CASE(disc, B "slip, discount 3/4") { move(0, false, 0.75); }
// any of 7 cells may be a start
SYM_CASE(starts, "a 7x9 track, any non-empty choice of 7 start cells, any error probability: the first move") {
  ZTrack t = ztrack({"@@@@@@@@@", "@????  f@", "@?  @  f@", "@?@     @", "@?    @ @", "@@@@@@@@@"}, "s "); t.err = sym_double("errorProbability", 0, 1); t.wind = sym_bool("wind"); std::vector<std::pair<int, int>> st;
  for (int y = 0; y < 6; y++) for (int x = 0; x < 9; x++) if (t.at(x, y) == 's') st.push_back({x, y}); sym_assume(!st.empty());
  ZSolver *z = zmake(t.write("t.racetrack"), "searchStrategy frtdp modelType racetrack"); MDP *p = z->mdp(); int a = sym_int("action", 0, 8);
  outcome_prob_vector o; state_vector sp, init = p->getInitialState(); p->getOutcomeProbVector(o, init, a); vec seen(st.size(), 0.0); double sum = 0;
  for (size_t i = 0; i < o.size(); i++) { sum += o(i); if (o(i) == 0) continue; p->getNextState(sp, init, a, i); for (size_t k = 0; k < st.size(); k++) if (sp(0) == st[k].first && sp(1) == st[k].second && sp(2) == 0 && sp(3) == 0) seen[k] += o(i); }
  sym_check_eq(sum, 1, 1e-9, "probabilities of the start cells add up to one"); for (size_t k = 0; k < st.size(); k++) sym_check_eq(seen[k], 1.0 / st.size(), 1e-9, "probability of start cell %d of %d", (int)k, (int)st.size());
  sym_check(!p->getIsTerminalState(init), "initial state is terminal"); sym_check_eq(p->getReward(init, a), 0, 0, "reward of the first move"); sym_cover("starts");
}
