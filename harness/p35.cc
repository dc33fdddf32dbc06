// P35: an interrupted run ends after its trial, with its policy and logs
#include "run_h.h"
static void interrupted(ZModel m, const std::string &o, double T, int nb, double prec, bool policy, int cap) { INTR = sym_int("interrupted trial", 0, 3); INTR_HOW = sym_int("when", 0, 2); solve(m, o, T, nb, prec, policy, cap, 10); if ((int)CALLS.size() <= INTR) sym_cover("ended before the interrupt"); }
SYM_CASE(free, "4 small POMDPs, any of 4 searches, or MDPs and 5 searches, no limit: interrupted before, at the end of or twice in any of 4 trials, with and without a policy file; one symbolic reward") { bool mdp = sym_bool("mdp"); int k = sym_int("model", 0, 3), o = sym_int("search", 0, mdp ? 4 : 3); interrupted(mdp ? mm(k, o) : zfam(k, 1), mdp ? MOP[o] : POM[o], -1, -1, -1, sym_bool("policy"), 8); }
SYM_CASE(limits, "the same with any time limit up to 6 trials and any precision: whatever comes first") { bool mdp = sym_bool("mdp"); int k = sym_int("model", 0, 3), o = sym_int("search", 0, mdp ? 4 : 3); double T = sym_double("limit", 0.5, 65), p = sym_double("precision", 0.01, 20); interrupted(mdp ? mm(k, o) : pm(k), mdp ? MOP[o] : POM[o], T, -1, p, true, 8); }
SYM_CASE(backups, "the same with a backup limit from -1 to 9") { bool mdp = sym_bool("mdp"); int k = sym_int("model", 0, 3), o = sym_int("search", 0, mdp ? 4 : 3), nb = sym_int("backups", -1, 9); double p = sym_double("precision", 0.01, 5); interrupted(mdp ? mm(k, o) : pm(k), mdp ? MOP[o] : POM[o], -1, nb, p, true, 8); }
