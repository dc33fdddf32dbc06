#include "mdp_fam.h"
#include "GenericDiscreteMDP.h"
// property P26: terminal states are the zero-reward absorbing ones, for both model types and both parsers
static double maybe(const char *nm, double lo, double hi) { double v = sym_double(nm, lo, hi); bool z = v == 0; if (!z) sym_assume_ge_gap(v, 0, 1e-6); return v; }   // exactly zero, or clearly not (the code allows 1e-10)
static ZModel mdpm(int which) {
  ZModel m = mdp_base(3, 2, 0.5);
  for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) m.T[a][s][s] = 1;
  m.T[0][0] = {0.5, 0.5, 0}; m.R[0][0] = -1; m.R[1][0] = -2;
  int s = which; double e[2], r[2];
  for (int a = 0; a < 2; a++) { e[a] = maybe(zfmt("leave%d", a).c_str(), 0, 0.5); m.T[a][s].assign(3, 0.0); m.T[a][s][s] = 1 - e[a]; m.T[a][s][(s + 1) % 3] = e[a]; r[a] = maybe(zfmt("reward%d", a).c_str(), -1, 1); m.R[a][s] = r[a]; }
  return m;
}
static bool want(const ZModel &m, int s) { for (int a = 0; a < m.A; a++) { for (int t = 0; t < m.S; t++) if (t != s && (sym_is_symbolic(m.T[a][s][t]) ? m.T[a][s][t] > 1e-9 : m.T[a][s][t] != 0)) return false; double r = m.R[a][s]; if (sym_is_symbolic(r) ? (r > 1e-9 || r < -1e-9) : r != 0) return false; } return true; }
static void mdp(int which, bool fast) {
  ZModel m = mdpm(which);
  ZSolver *z = zmake(m.write("m.mdp"), zfmt("searchStrategy frtdp useFastModelParser %d", fast));
  for (int s = 0; s < m.S; s++) { bool w = want(m, s); sym_check(z->mdp()->getIsTerminalState(zst(s)) == w, "state %d: %s", s, w ? "absorbing without reward but not terminal" : "terminal although it can be left or pays"); sym_cover(w ? "terminal" : "not terminal"); }
}
#define B "3 states, any self-loop probability and any reward of one state under two actions (zero or at least 1e-6)"
SYM_CASE(mdp_full, B ", full parser") { mdp(sym_int("state", 0, 2), false); }
SYM_CASE(mdp_fast, B ", fast parser") { mdp(sym_int("state", 0, 2), true); }
static ZModel pom(int which) { ZModel k = mdpm(which), m(3, 2, 2, 0.5); m.T = k.T; m.R = k.R; for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) m.Z[a][s] = {0.75, 0.25}; m.b0 = {1, 0, 0}; return m; }
static void pomdp(int which, bool fast) {
  ZModel m = pom(which);
  ZSolver *z = zmake(m.write("m.pomdp"), zfmt("searchStrategy hsvi useFastModelParser %d", fast));
  bool w[3]; for (int s = 0; s < 3; s++) w[s] = want(m, s);
  Pomdp *p = (Pomdp *)z->mdp();
  for (int s = 0; s < 3; s++) { sym_check(p->isTerminalState[s] == w[s], "state %d: terminal flag", s); vec b(3, 0.0); b[s] = 1; sym_check(p->getIsTerminalState(zbelief(b)) == w[s], "certain belief in state %d: terminal %d", s, w[s]); }
  vec b(3, 0.0); b[0] = maybe("b0", 0, 0.5); b[1] = maybe("b1", 0, 0.5); b[2] = 1 - b[0] - b[1]; bool z2 = b[2] == 0; if (!z2) sym_assume_le(1e-6, b[2]);
  belief_vector v; v.resize(3); for (int s = 0; s < 3; s++) if (b[s] != 0) v.push_back(s, b[s]);
  double nt = 0; for (int s = 0; s < 3; s++) if (!w[s]) nt += b[s];
  bool t = nt < 1e-9;
  sym_check(p->getIsTerminalState(v) == t, "belief %s terminal", t ? "in terminal states only is not" : "outside terminal states is");
  sym_cover(t ? "terminal belief" : "other belief");
}
SYM_CASE(pomdp_full, B ", any belief, full parser") { pomdp(sym_int("state", 0, 2), false); }
SYM_CASE(pomdp_fast, B ", any belief, fast parser") { pomdp(sym_int("state", 0, 2), true); }
// more states and actions: the one action or reward that matters may be anywhere
static void wide(bool fast) {
  const int S = 4, A = 3; ZModel m = mdp_base(S, A, 0.5); int s = sym_int("state", 0, S - 1), a = sym_int("action", 0, A - 1), kind = sym_int("kind", 0, 2);
  for (int b = 0; b < A; b++) for (int t = 0; t < S; t++) m.T[b][t][t] = 1;
  double e = sym_double("e", 1e-6, 0.5);
  if (kind == 1) { m.T[a][s][s] = 1 - e; m.T[a][s][(s + 1) % S] = e; }
  if (kind == 2) m.R[a][s] = sym_bool("negative") ? -e : e;
  ZSolver *z = zmake(m.write("m.mdp"), zfmt("searchStrategy frtdp useFastModelParser %d", fast));
  for (int t = 0; t < S; t++) { bool w = t != s || kind == 0; sym_check(z->mdp()->getIsTerminalState(zst(t)) == w, "state %d: terminal flag should be %d", t, w); }
}
SYM_CASE(wide_full, "4 states, 3 actions, one deviation anywhere from all-absorbing, full parser") { wide(false); }
SYM_CASE(wide_fast, "4 states, 3 actions, one deviation anywhere from all-absorbing, fast parser") { wide(true); }
// beliefs with traces of probability on some of the states: what counts is the sum over the non-terminal ones
static void traces(bool fast) {
  ZModel m(4, 1, 1, 0.5); int term = sym_int("terminal states", 0, 15); for (int s = 0; s < 4; s++) { m.Z[0][s] = {1}; m.T[0][s][term >> s & 1 ? s : (s + 1) % 4] = 1; m.R[0][s] = term >> s & 1 ? 0 : 1; } m.b0 = {0.25, 0.25, 0.25, 0.25};
  int big = sym_int("state with the larger share", 0, 3), other = sym_int("trace pattern", 0, 15) & ~(1 << big); double x = sym_double("x", 0.25, 1);
  Pomdp *p = (Pomdp *)zmake(m.write("m.pomdp"), zfmt("searchStrategy hsvi useFastModelParser %d", fast))->mdp(); belief_vector v; v.resize(4); bool nt = false;
  for (int s = 0; s < 4; s++) { if (s == big) { v.push_back(s, x); nt |= !(term >> s & 1); } else if (other >> s & 1) v.push_back(s, 1e-12); }
  sym_check(p->getIsTerminalState(v) == !nt, "belief %s", nt ? "with a share outside the terminal states counts as terminal" : "in the terminal states up to 1e-12 is not terminal"); sym_cover(nt ? "not terminal" : "terminal");
}
SYM_CASE(traces_full, "4 states, any set of them terminal, a belief with a larger share on any state and 1e-12 on any others, full parser") { traces(false); }
SYM_CASE(traces_fast, "the same, fast parser") { traces(true); }
