#include "parse_h.h"
// P18: every statement form of the full syntax sets what it denotes, later statements override earlier ones
static const double FT[2][3][3] = {{{0.25, 0.5, 0.25}, {0.125, 0.5, 0.375}, {0.5, 0.375, 0.125}}, {{0.5, 0.25, 0.25}, {0.125, 0.25, 0.625}, {0.75, 0.125, 0.125}}};
static const double FO[2][3][2] = {{{0.5, 0.5}, {0.25, 0.75}, {0.875, 0.125}}, {{0.375, 0.625}, {0.125, 0.875}, {0.75, 0.25}}};
static Spec fixedBody(int S, bool mdp, bool names) {
  Spec e(S, 2, 2, mdp); e.names = names; e.startText = mdp ? "start: 0\n" : "";
  for (int a = 0; a < 2; a++) { std::vector<vec> t, z; for (int s = 0; s < S; s++) { vec r(FT[a][s], FT[a][s] + S); if (S == 2) r[1] = 1 - r[0]; t.push_back(r); z.push_back(vec(FO[a][s], FO[a][s] + 2)); } e.tall(a, t); if (!mdp) e.oall(a, z); }
  return e;
}
static void load(const Spec &e) { psame(e, pload(e.write(e.mdp ? "m.mdp" : "m.pomdp"), e.mdp, false), "full parser"); }
static int ix(const char *n, int k, int max, int lo = -1) { return sym_int(zfmt("%s%d", n, k).c_str(), lo, max); }
// one reward statement, k-th of the sequence; its first value symbolic, the others fixed and partly zero
static void reward(Spec &e, int k, int form, int aMin, int aMax, int sMax, int zMax = 2) {
  int a = ix("a", k, aMax, aMin), s = form == 2 && e.mdp ? W : ix("s", k, sMax); bool neg = k % 2; N v(sym_double(zfmt("v%d", k).c_str(), 0.01, 20), neg), z(0.0), f(3.5 + k, !neg);
  if (form == 0) { int t = ix("t", k, sMax), o = e.mdp ? 0 : ix("o", k, sMax ? 1 : 0); e.r1(a, s, t, o, v); return; }
  int q = sym_int(zfmt("zeros%d", k).c_str(), 0, zMax);   // where the zeros are
  if (form == 1) { if (e.mdp) { nvec r; for (int t = 0; t < e.S; t++) r.push_back(t == q % e.S ? v : t == (q + 1) % e.S ? z : f); e.rrow(a, s, 0, r); } else e.rrow(a, s, ix("t", k, sMax), q == 0 ? nvec{v, z} : q == 1 ? nvec{z, v} : nvec{f, v}); return; }
  std::vector<nvec> m; for (int i = 0; i < e.S; i++) { nvec r; int c = e.mdp ? e.S : e.O; for (int j = 0; j < c; j++) { int n = i * c + j; r.push_back(n % 4 == q ? v : (n + q) % 2 ? z : f); } m.push_back(r); } e.rall(a, s, m);
}
static void rewards(bool mdp, int S, int n, int aMin, int aMax, int sMax, int zMax, bool costs = false) { Spec e = fixedBody(S, mdp, false); e.cost = costs && sym_bool("cost"); for (int k = 0; k < n; k++) reward(e, k, ix("form", k, 2, 0), aMin, aMax, sMax, zMax); load(e); }
SYM_CASE(reward_one, "POMDP or MDP of 2 or 3 states, named or numbered: every reward statement, costs or rewards") { Spec e = fixedBody(sym_int("S", 2, 3), sym_bool("mdp"), sym_bool("names")); e.cost = sym_bool("cost"); reward(e, 0, ix("form", 0, 2, 0), -1, 1, e.S - 1); load(e); }
SYM_CASE(reward_two, "POMDP of 2 states: every sequence of 2 reward statements (entry, row or matrix; action 0 or *, every other index or *), any value, zeros anywhere") { bool t = sym_thorough(); rewards(false, 2, 2, -1, t, 1, t ? 2 : 0); }
SYM_CASE(reward_three, "POMDP of 2 states: every sequence of 3 reward statements whose state and observation indexes are 0 or *") { bool t = sym_thorough(); rewards(false, 2, 3, t ? -1 : 0, 0, 0, t ? 2 : 0); }
SYM_CASE(reward_four, "POMDP of 2 states: every sequence of 3 (thorough 4) single rewards with fixed or * state, next state and observation, action * and last 0") { Spec e = fixedBody(2, false, false); int n = sym_thorough() ? 4 : 3; for (int k = 0; k < n; k++) { int b = sym_int(zfmt("which%d", k).c_str(), 0, 7); e.r1(k == n - 1 ? 0 : W, b & 1 ? W : 0, b & 2 ? W : 1, b & 4 ? W : 0, N(sym_double(zfmt("v%d", k).c_str(), 0.01, 20), k % 2)); } load(e); }
SYM_CASE(reward_mdp_two, "MDP of 2 (thorough 3) states: every sequence of 2 reward statements, costs or rewards") { rewards(true, sym_thorough() ? 3 : 2, 2, -1, sym_thorough(), sym_thorough() ? 2 : 1, 1 + sym_thorough(), true); }
SYM_CASE(reward_mdp_three, "MDP of 2 states: every sequence of 3 reward statements whose state indexes are 0 or *") { rewards(true, 2, 3, -1, 0, 0, sym_thorough()); }
SYM_CASE(reward_wide, "POMDP of 3 states: one entry then one row or matrix, or the other way round, every index, costs or rewards") { Spec e = fixedBody(3, false, false); e.cost = sym_bool("cost"); bool w = sym_bool("entry first"); int f = ix("form", 0, 2, 1); for (int k = 0; k < 2; k++) { if ((k == 0) == w) e.r1(ix("a", k, 1), ix("s", k, 2), ix("t", k, 2), ix("o", k, 1), N(sym_double(zfmt("v%d", k).c_str(), 0.01, 20), k)); else reward(e, k, f, 0, 0, sym_thorough() ? 2 : 0, sym_thorough() ? 2 : 0); } load(e); }
SYM_CASE(expectation, "the expected reward with one transition row and one observation row of any values and every support, fixed rewards for every outcome; 3 states") {
  Spec e = fixedBody(3, sym_bool("mdp"), false); for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) for (int t = 0; t < 3; t++) for (int o = 0; o < e.O; o++) e.r1(a, s, t, o, N(((a * 7 + s * 5 + t * 3 + o * 2) % 11) - 4));
  static const unsigned SUP[] = {7, 5, 2, 3, 6, 1, 4}; int a = sym_int("a", 0, 1), s = sym_int("s", 0, 2); bool tr = e.mdp || sym_bool("transition row"); if (tr) e.trow(a, s, psimplex(3, "t", SUP[sym_int("support", 0, 6)])); else e.orow(a, s, psimplex(2, "o", sym_int("support", 1, 3))); load(e);
}
// ---- transitions and observations
// statement k; leaves every row a distribution
static void trans(Spec &e, int k, int aMax, bool wide) {
  int form = ix("form", k, e.mdp ? 5 : 6, 0), a = ix("a", k, aMax); vec r = psimplex(e.S, zfmt("p%d_", k).c_str(), form == 5 || form == 6 || form == 2 || form == 3 ? 1 : wide ? 7 : (k % 2 ? 5 : 3));
  if (form == 2) { std::vector<vec> u(e.S, vec(e.S, 1.0 / e.S)); e.tall(a, u, "uniform"); return; }
  if (form == 3) { std::vector<vec> u(e.S, vec(e.S, 0.0)); for (int s = 0; s < e.S; s++) u[s][s] = 1; e.tall(a, u, "identity"); return; }
  if (form == 4) { std::vector<vec> u; int q = sym_int(zfmt("row%d", k).c_str(), 0, e.S - 1); for (int s = 0; s < e.S; s++) { vec x(e.S, 0.0); x[(s + k) % e.S] = 1; u.push_back(s == q ? r : x); } e.tall(a, u); return; }
  int s = ix("s", k, e.S - 1);
  if (form == 0) { e.trow(a, s, r); return; }
  if (form == 1) { for (int t = 0; t < e.S; t++) e.t1(a, s, t, r[t]); return; }
  if (form == 5) { e.trow(a, s, vec(e.S, 1.0 / e.S), "uniform"); return; }
  vec b(e.S, 0.0); if (e.mdp) b[e.start] = 1; else b = e.b0; e.trow(a, s, b, "reset");
}
static void starts(Spec &e, int maxForm, bool symb) {
  int f = sym_int("start form", 0, maxForm); if (e.mdp) { if (f == 0 || f > 2) e.names = true; e.startState(f % e.S); return; }
  switch (f) { case 0: break; case 1: e.startVec(symb ? psimplex(e.S, "b", 7) : vec{0.5, 0, 0.5}); break; case 2: { unsigned set = sym_int("included", 1, 7); e.startSet(set, false); break; } case 3: { unsigned set = sym_int("excluded", 1, 6); e.startSet(set, true); break; } case 4: e.names = true; e.startState(sym_int("state", 0, e.S - 1)); break; case 5: e.startText = "start: uniform\n"; break; }
}
static Spec tspec(bool mdp, int f, bool symb) { Spec e(3, 2, 2, mdp); starts(e, f, symb); std::string st = e.startText; for (int a = 0; a < 2; a++) { std::vector<vec> t, z; for (int s = 0; s < 3; s++) { t.push_back(vec(FT[a][s], FT[a][s] + 3)); z.push_back(vec(FO[a][s], FO[a][s] + 2)); } e.tall(a, t); if (!mdp) e.oall(a, z); e.rrow(a, 0, W, mdp ? nvec{1, 2, 3} : nvec{1, 2}); } return e; }
SYM_CASE(start, "every start form (vector, include and exclude lists, name, uniform, none), then (POMDP) a reset row, a reset of every row or none") { bool mdp = sym_bool("mdp"); Spec e = tspec(mdp, mdp ? 3 : 5, true); int r = mdp ? 0 : sym_int("reset", 0, 3); if (r) { vec b = e.b0; e.trow(r == 1 ? 1 : W, r == 3 ? W : 1, b, "reset"); } load(e); }
static void knownReset(int) { sym_fail("a reset row that was given before is rejected"); }
static void knownStar(int) { sym_fail("'*' in a start list is rejected"); }
// rows of an MDP: action 1 from states 0 and 2 by entries, from state 1 by a reset
static void resetMdp(bool before) {
  Spec e(3, 2, 2, true); starts(e, 3, true); std::vector<vec> t; for (int s = 0; s < 3; s++) t.push_back(vec(FT[0][s], FT[0][s] + 3)); e.tall(0, t); for (int s = 0; s < 3; s++) if (s != 1) e.trow(1, s, psimplex(3, zfmt("p%d_", s).c_str(), 5));
  vec b(3, 0.0); b[e.start] = 1; if (before) { bool same = sym_bool("same row"); vec r = same ? b : psimplex(3, "p1_", 7); if (!same) { sym_assume_ge_gap(1, r[e.start], 0.01); sym_on_exit(knownReset); } e.trow(1, 1, r); } e.trow(1, 1, b, "reset"); e.rrow(0, 0, W, nvec{1, 2, 3}); load(e);
}
SYM_CASE(reset_mdp, "an MDP with a reset row, every start state") { resetMdp(false); }
SYM_CASE(reset_again, "an MDP with a reset row that was given before, every start state") { resetMdp(true); }
SYM_CASE(start_star, "a POMDP with 'start include: *'") { Spec e(3, 2, 2, false); if (sym_bool("star")) sym_on_exit(knownStar), e.startText = "start include: *\n"; else e.startSet(7, false); for (int a = 0; a < 2; a++) { std::vector<vec> t, z; for (int s = 0; s < 3; s++) { t.push_back(psimplex(3, zfmt("p%d%d_", a, s).c_str(), 5)); z.push_back(vec(FO[a][s], FO[a][s] + 2)); } e.tall(a, t); e.oall(a, z); } e.rrow(0, 0, W, nvec{1, 2}); load(e); }
SYM_CASE(trans_one, "every transition statement, named or not, POMDP or MDP, any values") { Spec e = tspec(sym_bool("mdp"), 1, false); trans(e, 0, 1, true); load(e); }
SYM_CASE(trans_two, "every sequence of 2 transition statements (entries, row, matrix, uniform, identity, reset; every index or *) in a POMDP or MDP, any values") { Spec e = tspec(sym_bool("mdp"), 0, false); trans(e, 0, sym_thorough() ? 1 : 0, false); trans(e, 1, sym_thorough() ? 1 : 0, false); load(e); }
static void obsv(Spec &e, int k, int aMax) {
  int form = ix("form", k, 4, 0), a = ix("a", k, aMax); vec r = form > 2 ? vec() : psimplex(2, zfmt("q%d_", k).c_str(), sym_int(zfmt("support%d", k).c_str(), 1, 3));
  if (form == 2) { std::vector<vec> u; int q = sym_int(zfmt("row%d", k).c_str(), 0, e.S - 1); for (int s = 0; s < e.S; s++) u.push_back(s == q ? r : vec{(double)(s % 2), (double)(1 - s % 2)}); e.oall(a, u); return; }
  if (form == 3) { e.oall(a, std::vector<vec>(e.S, vec(2, 0.5)), "uniform"); return; }
  int s = ix("s", k, e.S - 1); if (form == 4) { e.orow(a, s, vec(2, 0.5), "uniform"); return; }
  if (form == 0) e.orow(a, s, r); else if (sym_bool(zfmt("order%d", k).c_str())) { e.o1(a, s, 1, r[1]); e.o1(a, s, 0, r[0]); } else { e.o1(a, s, 0, r[0]); e.o1(a, s, 1, r[1]); }
}
SYM_CASE(obs_two, "every sequence of 2 observation statements (entries, row, matrix, uniform; every index or *), any values") { Spec e = tspec(false, 0, false); obsv(e, 0, sym_thorough() ? 1 : 0); obsv(e, 1, sym_thorough() ? 1 : 0); load(e); }
SYM_CASE(wildcard_entries, "single entries with * next state or observation: uniform-by-entry rows, then corrected by entries") {
  Spec e = tspec(sym_bool("mdp"), 0, false); int a = ix("a", 0, 1), s = ix("s", 0, 2); vec r = psimplex(3, "t", 7); if (sym_bool("star next")) e.t1(a, s, W, 0); else e.t1(W, W, W, 0.25), e.tall(W, std::vector<vec>(3, vec{0.25, 0.25, 0.5})); int o = sym_int("first", 0, 2); for (int k = 0; k < 3; k++) e.t1(a, s, (k + o) % 3, r[(k + o) % 3]);
  if (!e.mdp) { vec q = psimplex(2, "q", 3); e.o1(a, s, W, 0.5); e.o1(W, 0, W, 0.5); if (sym_bool("correct")) { e.o1(a, s, 1, q[1]); e.o1(a, s, 0, q[0]); } } load(e);
}
