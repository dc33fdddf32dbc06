// RockExplore: the rules, written down independently
#ifndef RE_H_
#define RE_H_
#define ZH_NO_EMBED
#include "parse_h.h"
#include <map>
#include <set>
#define RE_DEFINE
#include "re_params.h"
#ifndef RE_NO_CONFIG
#include "zmdpMainConfig.cc"
#endif
static const int NR = RE_NUM_ROCKS, NA = NR + 5;
typedef std::map<int, double> bel;   // state index -> probability
struct XS { bool term; int x, y, good; };   // good: bit r
static XS xs(const REState &s) { XS r = {s.isTerminalState, 0, 0, 0}; if (r.term) return r; r.x = s.robotPos.x; r.y = s.robotPos.y; sym_check((int)s.rockIsGood.size() == NR, "a state has %d rocks", (int)s.rockIsGood.size()); for (int i = 0; i < NR; i++) r.good |= s.rockIsGood[i] << i; return r; }
static int code(const XS &s) { return s.term ? -1 : (s.x * 100 + s.y) * 1024 + s.good; }
static XS step(const XS &s, int a, double &rew) {
  XS n = s; rew = 0; if (s.term) return n;
  static const int dx[] = {0, 1, 0, -1}, dy[] = {1, 0, -1, 0};
  if (a < 4) {
    n.x += dx[a]; n.y += dy[a];
    if (n.x == re_par.w) { rew = re_par.leave; n = {true, 0, 0, 0}; }
    else if (n.x < 0 || n.y < 0 || n.y >= re_par.h) { rew = re_par.illegal; n = s; }
    else rew = re_par.move;
  } else if (a == 4) {
    rew = re_par.illegal;
    for (int r = 0; r < NR; r++) if (re_par.pos[2 * r] == s.x && re_par.pos[2 * r + 1] == s.y) { rew = s.good >> r & 1 ? re_par.good : re_par.bad; n.good &= ~(1 << r); break; }
  } else rew = re_par.check;
  return n;
}
static double obsp(int a, const XS &s, int o) { if (s.term || a < 5) return o == 0; int r = a - 5; bool here = re_par.pos[2 * r] == s.x && re_par.pos[2 * r + 1] == s.y; return (s.good >> r & 1) == o ? (here ? 1 : 0.95) : (here ? 0 : 0.05); }
static std::map<int, int> INDEX;   // code -> index in m.states
static void build() { m = RockExplore(); INDEX.clear(); for (int i = 0; i < (int)m.states.size(); i++) { int c = code(xs(m.states[i])); sym_check(!INDEX.count(c), "state %d and state %d are the same", i, INDEX.count(c) ? INDEX[c] : -1); INDEX[c] = i; } }
static int idx(const XS &s) { auto i = INDEX.find(code(s)); if (i == INDEX.end()) { sym_fail("a state at %d,%d with rocks %x has no index", s.x, s.y, s.good); return 0; } return i->second; }
static void small(int w, int h) { re_par.w = w; re_par.h = h; re_par.ix = 0; re_par.iy = 0; }
static bool nz(double v) { return sym_is_symbolic(v) || v != 0; }
static void rewards() { re_par.move = sym_double("move", -5, 5); re_par.check = sym_double("check", -5, 5); re_par.illegal = sym_double("illegal", -200, 5); re_par.bad = sym_double("bad", -50, 5); re_par.good = sym_double("good", -5, 50); re_par.leave = sym_double("exit", -5, 50); }
// unnormalised posterior, and the probability of o
static bel post(const bel &b, int a, int o, double &po) { bel r; po = 0; for (auto &e : b) { double rew; XS n = step(xs(m.states[e.first]), a, rew); double w = e.second * obsp(a, n, o); if (!nz(w)) continue; int i = idx(n); if (r.count(i)) r[i] = r[i] + w; else r[i] = w; po = po + w; } return r; }
static double erew(const bel &b, int a) { double r = 0; for (auto &e : b) { double w; step(xs(m.states[e.first]), a, w); r = r + e.second * w; } return r; }
static REBelief toRE(const bel &b) { REBelief r; for (auto &e : b) r.push_back(REBeliefEntry(e.second, e.first)); return r; }
static bel fromRE(const REBelief &b, const char *w) { bel r; for (auto &e : b) { sym_check(e.index >= 0 && e.index < (int)m.states.size(), "%s: state %d", w, e.index); sym_check(!r.count(e.index), "%s: state %d occurs twice", w, e.index); r[e.index] = e.prob; } return r; }
static void same(const bel &got, const bel &want, double scale, const char *w) {   // got * scale = want
  for (auto &e : want) if (nz(e.second)) { if (!got.count(e.first)) { sym_check_le(e.second, 0, 1e-9, "%s: state %d is missing", w, e.first); continue; } sym_check_eq(got.at(e.first) * scale, e.second, 1e-9, "%s: probability of state %d", w, e.first); }
  for (auto &e : got) if (!want.count(e.first)) sym_check_eq(e.second, 0, 1e-9, "%s: state %d is impossible", w, e.first);
}
#endif
