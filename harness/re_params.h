// RockExplore with its tunable parameters in variables (re_par), which start out with the values of the sources
#ifndef RE_PARAMS_H_
#define RE_PARAMS_H_
#if __has_include("RockExplore.h")
#include "RockExplore.h"
#else
#include "pomdpModels/RockExplore/RockExplore.h"
#endif
struct RePar { int w, h, ix, iy; double prior, move, check, illegal, bad, good, leave, disc; int pos[8]; };
extern RePar re_par;
#ifdef RE_DEFINE
static const int RE_POS0[] = RE_ROCK_POSITIONS;
static RePar re_default() { RePar p = {RE_WIDTH, RE_HEIGHT, RE_INIT_X, RE_INIT_Y, RE_ROCK_GOOD_PRIOR, RE_COST_MOVE, RE_COST_CHECK, RE_COST_ILLEGAL, RE_COST_SAMPLE_BAD, RE_REWARD_SAMPLE_GOOD, RE_REWARD_EXIT, RE_DISCOUNT, {}}; for (int i = 0; i < 8; i++) p.pos[i] = RE_POS0[i]; return p; }
RePar re_par __attribute__((init_priority(101))) = re_default();
#endif
#undef RE_WIDTH
#undef RE_HEIGHT
#undef RE_INIT_X
#undef RE_INIT_Y
#undef RE_ROCK_GOOD_PRIOR
#undef RE_COST_MOVE
#undef RE_COST_CHECK
#undef RE_COST_ILLEGAL
#undef RE_COST_SAMPLE_BAD
#undef RE_REWARD_SAMPLE_GOOD
#undef RE_REWARD_EXIT
#undef RE_DISCOUNT
#undef RE_ROCK_POSITIONS
#define RE_WIDTH (re_par.w)
#define RE_HEIGHT (re_par.h)
#define RE_INIT_X (re_par.ix)
#define RE_INIT_Y (re_par.iy)
#define RE_ROCK_GOOD_PRIOR (re_par.prior)
#define RE_COST_MOVE (re_par.move)
#define RE_COST_CHECK (re_par.check)
#define RE_COST_ILLEGAL (re_par.illegal)
#define RE_COST_SAMPLE_BAD (re_par.bad)
#define RE_REWARD_SAMPLE_GOOD (re_par.good)
#define RE_REWARD_EXIT (re_par.leave)
#define RE_DISCOUNT (re_par.disc)
#define RE_ROCK_POSITIONS { re_par.pos[0], re_par.pos[1], re_par.pos[2], re_par.pos[3], re_par.pos[4], re_par.pos[5], re_par.pos[6], re_par.pos[7] }
#endif
