#include "parse_h.h"
// P16: both parsers load what a model file in the common syntax says
static const unsigned SUP[] = {0x7, 0x5, 0x2, 0x3, 0x6, 0x1, 0x4};
static Spec base(bool mdp) {
  Spec e(3, 2, 2, mdp); e.gamma = sym_double("discount", 0.01, 1);
  if (mdp) e.startState(sym_int("start", 0, 2)); else e.startVec(psimplex(3, "b", SUP[sym_int("start support", 0, sym_thorough() ? 6 : 2)]));
  return e;
}
static const double FT[2][3][3] = {{{0.25, 0.75, 0}, {0, 0.5, 0.5}, {0, 0, 1}}, {{0, 0, 1}, {0.125, 0.5, 0.375}, {1, 0, 0}}};
static const double FO[2][3][2] = {{{0.5, 0.5}, {0, 1}, {0.75, 0.25}}, {{1, 0}, {0.125, 0.875}, {0.5, 0.5}}};
static const double FR[2][3] = {{-1, 0, 2.5}, {3, -0.5, 0}};
struct St { int kind, a, s, t; double p; N r; };
// body: the statements in an order chosen by `order`, with explicit zeros or not, each in one of a few layouts
static void emit(Spec &e, std::vector<St> v, int order, int lay) {
  if (order == 1) std::reverse(v.begin(), v.end()); else if (order == 2) { std::vector<St> q; for (int k = 0; k < 3; k++) for (auto &x : v) if (x.s == k) q.push_back(x); v = q; } else if (order == 3) { std::vector<St> q; for (int k = 2; k >= 0; k--) for (auto &x : v) if (x.t % 3 == k) q.push_back(x); v = q; }
  size_t i = 0; for (auto &x : v) { i++;
    std::string was = e.body; if (lay == 1 && i % 3 == 0) e.body += "# comment T: 0 : 0 : 0 0.5\n\n"; was = e.body;
    if (x.kind == 0) e.t1(x.a, x.s, x.t, x.p); else if (x.kind == 1) e.o1(x.a, x.s, x.t, x.p); else e.r1(x.a, x.s, W, W, x.r);
    if (lay == 2) { std::string l = e.body.substr(was.size()), k; size_t q = 0; for (char c : l) { if (c == ':' && i % 2 && q++) k += " "; k += c; if (c == ':' && i % 3 == 0) k += "  "; } k.insert(k.size() - 1, "  "); e.body = was + k; }
    if (lay == 3) { std::string l = e.body.substr(was.size()), k; for (char c : l) if (c == ' ') k += (i % 2 ? "\t" : " "); else k += c; e.body = was + k; }
  }
  if (lay == 3) e.body.resize(e.body.size() - 1);   // no newline at the end
}
static void model(Spec &e, int ra, int rs, int order, int lay, bool zeros, int again) {
  std::vector<St> v; unsigned st = SUP[sym_int("T support", 0, 2)], so = sym_bool("O full") ? 3 : 2; vec tr = psimplex(3, "t", st), ob = e.mdp ? vec() : psimplex(2, "o", so); double r = sym_double("r", 0.01, 20); bool neg = sym_bool("negative");
  for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) {
    bool here = a == ra && s == rs;
    for (int t = 0; t < 3; t++) { double p = here ? tr[t] : FT[a][s][t]; if (here && again) v.push_back({0, a, s, t, t == again - 1 ? 0.5 : 0.25, N()}); if (sym_is_symbolic(p) || p != 0 || zeros || (here && again)) v.push_back({0, a, s, t, p, N()}); }
    if (!e.mdp) for (int o = 0; o < 2; o++) { double p = here ? ob[o] : FO[a][s][o]; if (here && again) v.push_back({1, a, s, o, 0.75, N()}); if (sym_is_symbolic(p) || p != 0 || zeros || (here && again)) v.push_back({1, a, s, o, p, N()}); }
    N w = here ? N(r, neg) : N(FR[a][s]); if (here && again) v.push_back({2, a, s, 0, 0, N(7)}); if (here || FR[a][s] != 0 || zeros) v.push_back({2, a, s, 0, 0, w});
  }
  emit(e, v, order, lay);
}
static void both(const Spec &e) { std::string f = e.write(e.mdp ? "m.mdp" : "m.pomdp"); psame(e, pload(f, e.mdp, false), "full parser"); psame(e, pload(f, e.mdp, true), "fast parser"); }
#define B "3 states, 2 actions: any discount, start, one row of each kind with every support and values, and one reward of either sign, at any state and action"
SYM_CASE(pomdp, B) { Spec e = base(false); model(e, sym_int("a", 0, 1), sym_int("s", 0, 2), 0, 0, sym_bool("zeros"), 0); both(e); }
SYM_CASE(mdp, B " (MDP)") { Spec e = base(true); model(e, sym_int("a", 0, 1), sym_int("s", 0, 2), 0, 0, sym_bool("zeros"), 0); both(e); }
static Spec fixedStart(bool mdp) { Spec e(3, 2, 2, mdp); e.gamma = 0.75; if (mdp) e.startState(2); else e.startVec({0, 0.75, 0.25}); return e; }
#define L "4 orders of the statements and 4 layouts (comments, blank lines, spaces and tabs, no final newline), with or without explicit zeros"
SYM_CASE(layout, L ", POMDP or MDP") { Spec e = fixedStart(sym_bool("mdp")); model(e, 1, 1, sym_int("order", 0, 3), sym_int("layout", 0, 3), sym_bool("zeros"), 0); both(e); }
SYM_CASE(repeat, "entries of one row and one reward given twice, the later value counts; 2 orders; POMDP or MDP") { Spec e = fixedStart(sym_bool("mdp")); model(e, sym_int("a", 0, 1), sym_int("s", 0, 2), sym_bool("by state") ? 2 : 0, 0, sym_bool("zeros"), sym_int("other", 1, 3)); both(e); }
SYM_CASE(preamble, "every order of the preamble's statements, with comments between or not") {
  bool mdp = sym_bool("mdp"); Spec e = fixedStart(mdp); model(e, 0, 0, 0, 0, false, 0); std::vector<std::string> st = {"discount: " + sym_text(e.gamma) + "\n", "values: reward\n", "states: 3\n", "actions: 2\n"}; if (!mdp) st.push_back("observations: 2\n");
  int c = sym_bool("comments"); std::string t; while (!st.empty()) { int k = st.size() > 1 ? sym_int(zfmt("next%d", (int)st.size()).c_str(), 0, st.size() - 1) : 0; if (c) t += "# states: 9\n\n"; t += st[k]; st.erase(st.begin() + k); } e.preText = t; both(e);
}
SYM_CASE(sizes, "1-5 states, 1-3 actions, 1-3 observations, deterministic moves, one reward of either sign, any discount") {
  bool mdp = sym_bool("mdp"); int S = sym_int("S", 1, 5), A = sym_int("A", 1, 3), O = mdp ? 1 : sym_int("O", 1, 3); Spec e(S, A, O, mdp); e.gamma = sym_double("discount", 0.01, 1); int s0 = S - 1; vec b(S, 0.0); b[s0] = 1; if (mdp) e.startState(s0); else e.startVec(b);
  int rs = S / 2; N r(sym_double("r", 0.01, 20), sym_bool("negative"));
  for (int a = 0; a < A; a++) for (int s = 0; s < S; s++) { e.t1(a, s, (s + a + 1) % S, 1); if (!mdp) e.o1(a, s, (s + a) % O, 1); if (s == rs) e.r1(a, s, W, W, a == A - 1 ? r : N(a + 1)); }
  both(e);
}
SYM_CASE(tolerance, "rows that miss 1 by less than the parser's tolerance are accepted with their values, POMDP or MDP") {
  bool fast = sym_bool("fast"), mdp = sym_bool("mdp"); double tol = fast ? 0.5e-10 : 0.5e-5, d = sym_double("slack", 0, 1) * tol; Spec e = fixedStart(mdp);
  for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) { e.t1(a, s, 0, 0.5); e.t1(a, s, 1, a == 1 && s == 1 ? 0.5 - tol * 0.5 + d : 0.5); if (!mdp) { e.o1(a, s, 0, 0.25); e.o1(a, s, 1, a == 0 && s == 2 ? 0.75 - tol * 0.5 + d : 0.75); } }
  psame(e, pload(e.write(mdp ? "m.mdp" : "m.pomdp"), mdp, fast), fast ? "fast parser" : "full parser");
}
SYM_CASE(twice, "a second file loaded after another of different size and type, by either parser, is loaded as if it were the first") {
  bool m1 = sym_bool("first mdp"), m2 = sym_bool("second mdp"), fast1 = sym_bool("first fast"), fast2 = sym_bool("second fast"); Spec f(4, 3, 3, m1); if (m1) f.startState(3); else f.startVec({0, 0, 0, 1}); for (int a = 0; a < 3; a++) for (int s = 0; s < 4; s++) { f.t1(a, s, (s + 1) % 4, 1); if (!m1) f.o1(a, s, a, 1); f.r1(a, s, W, W, N(a + 10 * s + 1)); }
  Spec e = fixedStart(m2); model(e, 1, 0, 0, 0, false, 0); CassandraModel *a = pload(f.write("first.model"), m1, fast1), *b = pload(e.write("second.model"), m2, fast2); psame(f, a, "first file"); psame(e, b, "second file");
}
SYM_CASE(notation, "one reward and one probability written in 8 notations each, either sign of the reward, any other row; POMDP or MDP") {
  static const char *rn[] = {"12.5", "1.25e1", "1.25E+1", "125e-1", "12.50000", "+12.5", "0012.5", "1250e-02"}, *pn[] = {"0.25", "2.5e-1", "25E-2", "0.2500", "00.25", "0.025e+1", "0.0025E2", "250e-3"};
  Spec e = fixedStart(sym_bool("mdp")); model(e, 0, 0, 0, 0, false, 0); int k = sym_int("reward notation", 0, 7), j = sym_int("probability notation", 0, 7); bool neg = k != 5 && sym_bool("minus");
  e.body += "\n"; std::string b = e.body; e.r1(1, 2, W, W, N(neg ? -12.5 : 12.5)); e.t1(1, 1, 0, 0.25); e.t1(1, 1, 1, 0.75); e.t1(1, 1, 2, 0);
  e.body = b + zfmt(e.mdp ? "R: 1 : 2 : * %s%s\n" : "R: 1 : 2 : * : * %s%s\n", neg ? "-" : "", rn[k]) + zfmt("T: 1 : 1 : 0 %s\nT: 1 : 1 : 1 75e-2\nT: 1 : 1 : 2 0\n", pn[j]); both(e);
}
SYM_CASE(single_start, "fast parser: a POMDP start given as a single state, tabs and comments behind statements") {
  Spec e(3, 2, 2, false); e.gamma = 0.75; int s = sym_int("start", 0, 2); e.startState(s); e.startText = zfmt("start:%s%d%s\n", sym_bool("tab") ? "\t" : " ", s, sym_bool("comment") ? " # 1 2" : ""); model(e, 0, 1, 0, 0, false, 0); if (sym_bool("comments")) { std::string r; for (char c : e.body) { if (c == '\n') r += " # 0.5"; r += c; } e.body = r; } psame(e, pload(e.write("m.pomdp"), false, true), "fast parser");
}
SYM_CASE(rare, "one probability of the start, of a transition or of an observation and one reward anywhere from 1e-9 to 0.01, either parser, POMDP or MDP") {
  bool mdp = sym_bool("mdp"); int which = sym_int("where", mdp ? 1 : 0, mdp ? 1 : 2), pos = sym_int("position", 0, which == 2 ? 1 : 2); int ha = sym_int("a", 0, 1); double x = sym_double("x", 1e-9, 0.01), r = sym_double("r", 1e-9, 0.01); Spec e = fixedStart(mdp);
  auto row = [&](int n) { vec v(n, 0.0); v[pos] = x; v[(pos + 1) % n] = 1 - x; return v; }; if (which == 0) e.startVec(row(3)); std::vector<St> v;
  for (int a = 0; a < 2; a++) for (int s = 0; s < 3; s++) { bool h = a == ha && s == 1; vec t = h && which == 1 ? row(3) : vec{FT[a][s][0], FT[a][s][1], FT[a][s][2]}, o = h && which == 2 ? row(2) : vec{FO[a][s][0], FO[a][s][1]};
    for (int k = 0; k < 3; k++) if (sym_is_symbolic(t[k]) || t[k] != 0) v.push_back({0, a, s, k, t[k], N()}); if (!mdp) for (int k = 0; k < 2; k++) if (sym_is_symbolic(o[k]) || o[k] != 0) v.push_back({1, a, s, k, o[k], N()}); v.push_back({2, a, s, 0, 0, h ? N(r, pos == 1) : N(1)}); }
  emit(e, v, 0, 0); both(e);
}
