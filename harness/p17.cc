#include "parse_h.h"
// P17: ill-formed models are rejected with an error by both parsers
static void rejected(int code) { sym_check(code != 0, "an ill-formed model ends the program as if all were well"); sym_cover("rejected"); }
static void mustReject(const std::string &text, bool mdp, bool fast, const char *what) {
  std::string f = zpath(mdp ? "m.mdp" : "m.pomdp"); zwrite(f, text); sym_on_exit(rejected); pload(f, mdp, fast); sym_on_exit(NULL); sym_fail("%s parser, %s: accepted", fast ? "fast" : "full", what);
}
// a well-formed model of 3 states, one line per entry
struct M { bool mdp; std::vector<std::string> pre; std::string start; double T[2][3][3], O[2][3][2]; std::string more, tail;
  M(bool m) : mdp(m) { static const double FT[2][3][3] = {{{0.25, 0.75, 0}, {0, 0.5, 0.5}, {0, 0, 1}}, {{0, 0, 1}, {0.125, 0.5, 0.375}, {1, 0, 0}}}; static const double FO[2][3][2] = {{{0.5, 0.5}, {0, 1}, {0.75, 0.25}}, {{1, 0}, {0.125, 0.875}, {0.5, 0.5}}};
    memcpy(T, FT, sizeof T); memcpy(O, FO, sizeof O); pre = {"discount: 0.75", "values: reward", "states: 3", "actions: 2"}; if (!m) pre.push_back("observations: 2"); start = m ? "start: 1" : "start: 0.25 0 0.75"; }
  std::string text() const { std::string r; for (auto &l : pre) r += l + "\n"; if (!start.empty()) r += start + "\n"; r += more; for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) { for (int t = 0; t < 3; t++) if (znz0(T[a][s][t])) r += zfmt("T: %d : %d : %d ", a, s, t) + num(T[a][s][t]) + "\n"; if (!mdp) for (int o = 0; o < 2; o++) if (znz0(O[a][s][o])) r += zfmt("O: %d : %d : %d ", a, s, o) + num(O[a][s][o]) + "\n"; } r += mdp ? "R: 0 : 1 : * 2.5\n" : "R: 0 : 1 : * : * 2.5\n"; return r + tail; }
  static bool znz0(double v) { return sym_is_symbolic(v) || v != 0; }
  static std::string num(double v) { return sym_text(v); }
};
struct In { bool mdp, fast; M m; In() : mdp(sym_bool("mdp")), fast(sym_bool("fast")), m(mdp) {} void bad(const char *w) { mustReject(m.text(), mdp, fast, w); } double tol() { return fast ? 1e-9 : 2e-5; } };
struct Po : In { Po() { if (mdp) sym_assume(false); } };
// sanity: the unbroken model is accepted (otherwise every rejection below would be vacuous)
SYM_CASE(control, "the well-formed model itself is accepted by both parsers, POMDP and MDP") { In x; std::string f = zpath(x.mdp ? "m.mdp" : "m.pomdp"); zwrite(f, x.m.text()); CassandraModel *p = pload(f, x.mdp, x.fast); sym_check(p->numStates == 3, "states"); sym_cover("accepted"); }
SYM_CASE(transition_sum, "any row, any probability of it off by any amount beyond the tolerance (all entries stay in [0,1]), missing rows") {
  In x; int a = sym_int("a", 0, 1), s = sym_int("s", 0, 2); double *r = x.m.T[a][s]; if (sym_bool("missing")) { r[0] = r[1] = r[2] = 0; x.bad("missing transition row"); return; }
  double sum = 0; for (int t = 0; t < 3; t++) { r[t] = sym_double(zfmt("p%d", t).c_str(), 1e-3, 1); sum += r[t]; } sym_assume_ge_gap(sum, 1, x.tol()); x.bad("transition row does not sum to one");
}
SYM_CASE(observation_sum, "the same for observation rows") {
  Po x; int a = sym_int("a", 0, 1), s = sym_int("s", 0, 2); double *r = x.m.O[a][s]; if (sym_bool("missing")) { r[0] = r[1] = 0; x.bad("missing observation row"); return; }
  double sum = 0; for (int o = 0; o < 2; o++) { r[o] = sym_double(zfmt("p%d", o).c_str(), 1e-3, 1); sum += r[o]; } sym_assume_ge_gap(sum, 1, x.tol()); x.bad("observation row does not sum to one");
}
SYM_CASE(start_sum, "a starting belief that misses one by any amount beyond the tolerance") { Po x; double sum = 0; std::string t = "start:"; int zero = sym_int("zero", -1, 2); for (int s = 0; s < 3; s++) { double p = s == zero ? 0 : sym_double(zfmt("b%d", s).c_str(), 1e-3, 1); sum += p; t += " " + sym_text(p); } sym_assume_ge_gap(sum, 1, x.tol()); x.m.start = t; x.bad("starting belief does not sum to one"); }
SYM_CASE(range, "rows and starting beliefs that sum to one but hold a negative probability and one above one, of any size beyond 1e-6, in every place") {
  In x; double e = sym_double("excess", 1e-6, 5); int where = sym_int("where", 0, x.mdp ? 0 : 2), i = sym_int("high", 0, where == 1 ? 1 : 2), j = sym_int("low", 0, where == 1 ? 1 : 2); if (i == j) sym_assume(false); bool third = where != 1 && sym_bool("third");
  double v[3] = {0, 0, 0}; v[i] = (third ? 0.75 : 1) + e; if (third) { sym_assume_le(0.250001, e); v[3 - i - j] = 0.25; } v[j] = 0; if (where == 2) { std::string t = "start:"; for (int k = 0; k < 3; k++) t += k == j ? " -" + sym_text(e) : " " + sym_text(v[k]); x.m.start = t; } else { int a = sym_int("a", 0, 1), s = sym_int("s", 0, 2); double *r = where ? x.m.O[a][s] : x.m.T[a][s]; for (int k = 0; k < (where ? 2 : 3); k++) r[k] = v[k]; x.m.tail = zfmt("%c: %d : %d : %d -", where ? 'O' : 'T', a, s, j) + sym_text(e) + "\n"; } x.bad("probability outside [0,1]");
}
SYM_CASE(discount, "any discount below zero or above one") { In x; double d = sym_double("d", 1e-6, 50); x.m.pre[0] = sym_bool("negative") ? "discount: -" + sym_text(d) : "discount: " + sym_text(1 + d); x.bad("discount out of range"); }
SYM_CASE(preamble, "any one preamble statement missing (and the start statement where it is required), or without its value") {
  In x; int k = sym_int("which", 0, x.m.pre.size() - 1), how = sym_int("how", 0, 2); std::string l = x.m.pre[k]; if (how == 0) x.m.pre.erase(x.m.pre.begin() + k); else x.m.pre[k] = how == 1 ? l.substr(0, l.find(':') + 1) : l.substr(0, l.find(':') + 1) + " :"; x.bad(("preamble: " + l).c_str());
}
SYM_CASE(sizes, "zero or negative numbers of states, actions or observations") { In x; int k = sym_int("which", 2, x.m.pre.size() - 1); std::string l = x.m.pre[k]; x.m.pre[k] = l.substr(0, l.find(':') + 1) + (sym_bool("negative") ? " -2" : " 0"); x.bad(l.c_str()); }
SYM_CASE(start_count, "starting beliefs with too few or too many entries, an empty one, MDP starts that are out of range, fractional, several or missing") {
  In x; static const char *pb[] = {"start: 0.25 0.75", "start: 0.25 0.25 0.25 0.25", "start:", "start: 1 0 0 0", "start: 7", "start: 0.5", "start: -1"}, *mb[] = {"start: 3", "start: 17", "start: -1", "start: 0.5", "start: 1 2", "start:", ""}; int k = sym_int("which", 0, 6); x.m.start = x.mdp ? mb[k] : pb[k]; x.bad(x.m.start.c_str());
}
SYM_CASE(index, "an index one or more beyond the last, or negative, in any position of any statement") {
  In x; int st = sym_int("statement", 0, x.mdp ? 1 : 2), pos = sym_int("position", 0, st == 1 ? 1 : 2), v = sym_int("value", 0, 3); int lim[3] = {2, 3, st == 2 ? 2 : 3}, id[3] = {0, 0, 0}; id[pos] = v == 0 ? lim[pos] : v == 1 ? lim[pos] + 1 : v == 2 ? -1 : 1000; if (st == 1) x.m.tail = zfmt(x.mdp ? "R: %d : %d : * 1.5\n" : "R: %d : %d : * : * 1.5\n", id[0], id[1]); else x.m.tail = zfmt("%c: %d : %d : %d 0\n", st ? 'O' : 'T', id[0], id[1], id[2]); if (sym_bool("non-zero")) x.m.tail = x.m.tail.substr(0, x.m.tail.rfind(' ')) + " 0.25\n"; x.bad(x.m.tail.c_str());
}
SYM_CASE(wrong_type, "observation statements in an MDP, models of the other type, unknown statements, statements cut short, entries with two numbers, words for numbers") {
  In x; static const char *mm[] = {"O: 0 : 0 : 0 1\n", "O: * uniform\n", "O: 0 : 1 uniform\n", "R: 0 : 1 : * : * 2\n"}, *pp[] = {"R: 0 : 1 : 2\n", "O: 0 : 0 : 0\n", "O: 0 : 0 : 0 0.5 0.5\n", "R: 0 : 1 : * : * 1 2\n"}, *both[] = {"T: 0 : 0 : 0\n", "T: 0 : 0 : 0 x\n", "T: 0 : 0 : nowhere 0\n", "Q: 0 : 0 0\n", "T 0 : 0 : 0 0.25\n", "T: 0 : 0 : 0 0.25 0.75\n", "discount: 0.5\n", "states: 3\n"};
  int k = sym_int("which", 0, 13); if (k < 4) x.m.tail = x.mdp ? mm[k] : pp[k]; else if (k < 12) x.m.tail = both[k - 4]; else if (k == 12) { std::string t = x.m.text(); mustReject(t, !x.mdp, x.fast, "model of the other type"); return; } else { std::string t; for (auto &l : x.m.pre) t += l + "\n"; t += x.m.start + "\n"; mustReject(t, x.mdp, x.fast, "no body"); return; }
  x.bad(x.m.tail.c_str());
}
SYM_CASE(unsupported, "an observations statement anywhere in the preamble of an MDP; kinds of values the fast parser does not support or that do not exist") {
  In x; if (sym_bool("observations")) { sym_assume(x.mdp); x.m.pre.insert(x.m.pre.begin() + sym_int("place", 0, x.m.pre.size()), "observations: 2"); sym_assume(x.fast); x.bad("observations in an MDP"); return; }
  static const char *v[] = {"values: cost", "values: rewards", "values: r", "values: Reward", "values: 1", "values: discount"}; int k = sym_int("values", 0, 5); if (k == 0) sym_assume(x.fast); x.m.pre[1] = v[k]; x.bad(v[k]);
}
SYM_CASE(stale, "a broken file is rejected although a good one was loaded before: MDP without start after another MDP, a missing row, an index beyond the last that was in range before") {
  bool mdp = sym_bool("mdp"), fast0 = sym_bool("first fast"), fast = sym_bool("fast"); int k = sym_int("mistake", 0, 3); M a(mdp), b(mdp); std::string t = a.text(), f = zpath(mdp ? "first.mdp" : "first.pomdp"); zwrite(f, t); pload(f, mdp, fast0);
  if (k == 0) { sym_assume(mdp || fast); b.start = ""; } else if (k == 1) b.T[1][2][0] = 0; else if (k == 2) { b.pre[2] = "states: 2"; } else b.pre.erase(b.pre.begin() + sym_int("statement", 0, b.pre.size() - 1));
  mustReject(b.text(), mdp, fast, "after another file");
}
// full syntax
static void full(const std::string &body, bool mdp, const char *w) { M m(mdp); std::string t; for (auto &l : m.pre) t += l + "\n"; mustReject(t + m.start + "\n" + body, mdp, false, w); }
SYM_CASE(matrix_count, "full syntax: rows and matrices of transitions, observations and rewards with one entry too few or too many, or one extra row") {
  bool mdp = sym_bool("mdp"); int k = sym_int("kind", 0, mdp ? 3 : 5), d = sym_int("entries", 0, 2); M m(mdp); int n, c; const char *h; if (k == 0) { h = "T: 0 : 1"; n = 1; c = 3; } else if (k == 1) { h = "T: 1"; n = 3; c = 3; } else if (k == 2) { h = mdp ? "R: 0 : 1" : "R: 0 : 1 : *"; n = 1; c = mdp ? 3 : 2; } else if (k == 3) { h = mdp ? "R: 1" : "R: 0 : 1"; n = 3; c = mdp ? 3 : 2; } else if (k == 4) { h = "O: 0 : 1"; n = 1; c = 2; } else { h = "O: *"; n = 3; c = 2; }
  int cnt = n * c + (d == 0 ? -1 : d == 1 ? 1 : c); std::string t = h; for (int i = 0; i < cnt; i++) t += i % c ? " 0" : " 1"; m.tail = t + "\n"; mustReject(m.text(), mdp, false, t.c_str());
}
SYM_CASE(names, "full syntax: undefined names in every position, duplicate names, names where a number of another kind is meant") {
  static const char *bad[] = {"T: nope : s1 : s2 0\n", "T: a0 : nope : s2 0\n", "T: a0 : s1 : nope 0\n", "O: a0 : nope : o1 0\n", "O: a0 : s1 : nope 0\n", "R: a1 : nope : * : * 3\n", "R: a1 : s0 : s1 : nope 3\n", "T: a0 : a0 : s1 0\n", "T: s0 : s1 : s2 0\n", "O: a0 : s1 : s0 0\n", "start: nope\n", "start include: s0 nope\n", "start exclude: o1\n"}; int k = sym_int("which", 0, 14);
  std::string st = k == 13 ? "s0 s1 s0" : "s0 s1 s2", ac = k == 14 ? "a0 a0" : "a0 a1", p = "discount: 0.5\nvalues: reward\nstates: " + st + "\nactions: " + ac + "\nobservations: o0 o1\n" + (k >= 10 && k < 13 ? bad[k] : "") + "T: * uniform\nO: * uniform\n" + (k < 10 ? bad[k] : ""); mustReject(p, false, false, k < 13 ? bad[k] : "duplicate name");
}
SYM_CASE(names_control, "the same file without the mistake is accepted") { std::string f = zpath("n.pomdp"); zwrite(f, "discount: 0.5\nvalues: reward\nstates: s0 s1 s2\nactions: a0 a1\nobservations: o0 o1\nstart include: s0 s2\nT: * uniform\nO: * uniform\nT: a0 : s1 : s2 " + sym_text(1 / 3.0) + "\n"); sym_check(pload(f, false, false)->numStates == 3, "states"); sym_cover("accepted"); }
SYM_CASE(start_lists, "full syntax: start lists that leave no state, and start lists in an MDP") { static const char *s[] = {"start exclude: 0 1 2", "start include: 0 3", "start exclude: -1"}; int k = sym_int("which", 0, 3); bool mdp = k == 3 || sym_bool("mdp"); M m(mdp); m.start = k < 3 ? s[k] : "start include: 0"; mustReject(m.text(), mdp, false, m.start.c_str()); }
SYM_CASE(overrides, "rows made valid or invalid by later single entries: rejected exactly when the final row misses one, for any values") {
  In x; int a = sym_int("a", 0, 1), s = sym_int("s", 0, 2), t = sym_int("t", 0, 2); double p = sym_double("p", 1e-3, 1), sum = 0; for (int k = 0; k < 3; k++) sum += k == t ? p : x.m.T[a][s][k]; sym_assume_ge_gap(sum, 1, x.tol()); x.m.tail = zfmt("T: %d : %d : %d ", a, s, t) + sym_text(p) + "\n"; x.bad("row overridden so that it misses one");
}
SYM_CASE(start_star, "full syntax: a start list that excludes every state with '*'") { bool mdp = sym_bool("mdp"); M m(mdp); m.start = "start exclude: *"; mustReject(m.text(), mdp, false, "start exclude: *"); }
