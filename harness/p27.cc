#include "track.h"
// property P27: the best-outcome relaxation never drops below the optimal value
static void relax(ZTrack t, bool discounted) {
  t.err = sym_double("errorProbability", 0.01, 0.99); if (discounted) t.gamma = 0.5;
  ZSolver *z = zmake(t.write("t.racetrack"), "searchStrategy frtdp modelType racetrack");
  MDP *p = z->mdp();
  RelaxUBInitializer *u = new RelaxUBInitializer(p, &z->config);
  sym_must_finish(5); u->initialize(1e-3); sym_must_finish(0);
  int n = 0;
  for (auto &kv : *u->lookup) {
    MDPNode *c = kv.second; n++;
    double v = u->getValue(c->s, c);
    sym_check_le(v, 0, 1e-9, "state [%s]: looser than the trivial bound", sparseRep(c->s).c_str());
    if (p->getIsTerminalState(c->s)) { sym_check_eq(v, 0, 1e-9, "terminal state"); continue; }
    // at least the Bellman backup of itself, so at least the optimal value
    outcome_prob_vector opv; state_vector sp;
    for (int a = 0; a < p->getNumActions(); a++) {
      double q = 0; p->getOutcomeProbVector(opv, c->s, a);
      for (size_t o = 0; o < opv.size(); o++) if (sym_is_symbolic(opv(o)) || opv(o) != 0) { p->getNextState(sp, c->s, a, o); auto it = u->lookup->find(hashable(sp)); q += opv(o) * (it == u->lookup->end() ? 0 : it->second->ubVal); }
      sym_check_le(p->getReward(c->s, a) + t.gamma * q, v, 1e-9, "state [%s] action %d: bound below its one-step lookahead", sparseRep(c->s).c_str(), a);
    }
  }
  sym_cover("tracks"); (void)n;
}
#define B "any error probability in [0.01,0.99]; "
static const std::vector<std::string> T2 = {"@@@@@@@", "@s????@", "@    f@", "@@@@@@@"}, T3 = {"@@@@@@", "@s ??@", "@   ?@", "@?? f@", "@@@@@@"}, T2S = {"@@@@@@@", "@s????@", "@s  f @", "@@@@@@@"};
SYM_CASE(row, B "1 row of 5 cells, the inner 3 open or finish") { relax(ztrack({"@@@@@@@", "@s???f@", "@@@@@@@"}, " f"), false); }
SYM_CASE(two, B "2 rows of 5, 4 cells open or wall") { relax(ztrack(T2, " @"), false); }
SYM_CASE(two_disc, B "2 rows of 5, 4 cells open or wall, discount 1/2") { relax(ztrack(T2, " @"), true); }
SYM_CASE(starts, B "2 rows of 5, two or more start cells, 4 cells open or start") { relax(ztrack(T2S, " s"), false); }
SYM_CASE(starts_disc, B "2 rows of 5, two or more start cells, 4 cells open, wall or start, discount 1/2") { relax(ztrack(T2S, " @s"), true); }
SYM_CASE(three, B "3 rows of 4, 5 cells open, wall or finish") { relax(ztrack(T3, " @f"), false); }
SYM_CASE(three_disc, B "3 rows of 4, 5 cells open, wall or finish, discount 1/2") { relax(ztrack(T3, " @f"), true); }
static void windy(bool d) { ZTrack t = ztrack(T2, " @"); t.wind = true; relax(t, d); }
SYM_CASE(wind, B "2 rows of 5, 4 cells open or wall, errors as wind") { windy(false); }
SYM_CASE(wind_disc, B "2 rows of 5, 4 cells open or wall, errors as wind, discount 1/2") { windy(true); }
