"""The table of checks: which harnesses decide which property."""
COMMON_ASSUMPTIONS = [
    "doubles are treated as exact reals in the symbolic run (rounding, overflow and NaN are outside the encoding); counterexamples are reported only if an ordinary double-precision build of the same sources reproduces them",
    "clang's front end and -O1 optimiser, the IR rewriter (engine/instrument.py), the runtime (engine/symrt.cc) and z3 are trusted",
    "integers, pointers and containers run concretely on each path; only double inputs, explicitly symbolic integers/booleans and the outputs of rand() are symbolic",
]
ALL = ["common", "bounds", "pomdpBounds", "pomdpCore", "search", "exec", "mdps", "parsers", "main"]
TECH = "solver-based: symbolic execution of the code's LLVM IR (regenerated from /repo each run), assertions decided by exact linear reasoning and z3, counterexamples replayed on a native ASan build"
CHECKS = {}
def simple(pid, harness, srcs=ALL, quick=40, thorough=300, assumptions=(), note="", **kw):
    def run(r): r.symbolic(harness, srcs, quick, thorough, **kw)
    CHECKS[pid] = dict(run=run, assumptions=list(assumptions), note=note, technique=TECH, builds=[(harness, srcs, kw.get("extra", ()))])
simple("P01", "p01.cc", note="2-4 state models; every belief; or every value of one action's parameters at fixed beliefs")
simple("P02", "p02.cc", note="2-4 state models, discount 1/2, two symbolic rewards or one, two updates at any of the first nodes")
simple("P03", "p03.cc", note="2-4 state models, discounts 1/2..7/8; two symbolic rewards at fixed beliefs, or fixed rewards at every belief")
simple("P04", "p04.cc", note="2-4 state models, 1-2 symbolic rewards, up to 3 (thorough 5) updates at any of the first nodes, with pruning; or fixed rewards and every query belief")
simple("P05", "p05.cc", note="2-4 state models, 1-2 symbolic rewards, 2-4 updates at any of the first nodes")
simple("P06", "p06.cc", note="2-4 state models or up to 7 directly added planes, 1-3 symbolic values, or fixed values and every query belief; with and without each option")
simple("P07", "p07.cc", note="3-4 states, up to 6 points, 2 symbolic values, or fixed values and every query belief")
simple("P08", "p08.cc", note="4 MDPs of 3-5 states; every value of the bounds at every state before the update, cached action values included; every node")
simple("P09", "p09.cc", note="2-3 states of 1-3 dimensions of any value up to 1e7; whole graphs of 4 small models with symbolic probabilities and rewards; belief graphs from any initial belief; terminal states under every search")
simple("P10", "p10.cc", note="4 MDPs of 3-5 states and every graph of a 5-state family; up to 2 symbolic rewards from the solver's own initial bounds, or any valid bound values at every state; outcomes fixed or (episodic model) arbitrary")
simple("P11", "p11.cc", note="4 MDPs of 3-5 states and every graph of a 5-state family; up to 2 symbolic rewards, or any valid bound values at every state; searches run until they finish or a trial limit is reached")
simple("P19", "p19.cc", note="vectors of up to 4 (thorough 6) elements and matrices of up to 6 (9) elements: every sparsity pattern, any values in the stated range")
simple("P26","p26.cc",note="3-4 states, 2-3 actions; any self-loop probability and reward of one state, one deviation anywhere; any belief; both parsers, both model types")
simple("P20","p20.cc",note="two fixed tracks of 7x9 and 8x10 cells, every state with velocity up to 2 (thorough 4), every action, any error probability, slip and wind")
simple("P21","p21.cc",note="MDPs of 3-5 states with one state's rewards or one probability row symbolic, two symbolic rewards for the bounds, POMDP cache paths of 2-3 steps from any belief")
simple("P27","p27.cc",note="tracks of up to 12 cells with 3-5 cells of any kind, any error probability, discount 1 or 1/2, slip and wind")
simple("P24","p24.cc",note="up to 5 (7) samples of any value; bootstrap with 100 to 2000 resamples under fixed patterns of random numbers, or any one random number")
simple("P14","p14.cc",note="4 MDPs with 2 symbolic rewards, up to 16 policies, up to 4 steps with any random numbers; batches of up to 5 trials with fixed random numbers but the last")
simple("P15","p15.cc",note="up to 4 (thorough 5) outcomes with every support and any probabilities, any random number; steps of 8 small models")
simple("P12","p12.cc",note="up to 6 planes of 4 states with 4 symbolic entries, or fixed ones and every belief; policies of 4 small models after 2-3 (thorough one more) updates with a symbolic reward; alpha-vector files of 1-3 vectors in 5 layouts")
simple("P13","p13.cc",note="2-4 state models after 2-3 (thorough one more) updates with a symbolic reward, or fixed rewards and every belief; executives with a loaded policy for 2-4 steps of any actions and outcomes; 4 MDPs with any bound values at 2 states")
simple("P22","p22.cc",srcs=ALL+["pomdpModels/lifeSurvey/LSPathAndReactExec.cc","pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="any values for the real-valued options, up to 4 settings of 2 options over file and command line, up to 3 (thorough 4) words with abbreviations, files of up to 3 lines; texts and integers from fixed lists")
simple("P29","p29.cc",srcs=ALL+["pomdpModels/lifeSurvey/LSPathAndReactExec.cc","pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="8 models of 2-5 states, every search; time limits, precisions, bound targets and evaluation times of any value on a virtual clock; backup and step limits from fixed ranges")
simple("P33","p33.cc",srcs=ALL+["pomdpModels/lifeSurvey/LSPathAndReactExec.cc","pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="4 small POMDPs and variants of them to simulate in, 3-6 policies, the real command line; any random numbers for up to 3 (4) steps with one symbolic reward, fixed random numbers for up to 95 trials")
_re = ["-include", "@VERIF@/harness/re_params.h"]
RE = ALL + [("pomdpModels/RockExplore/" + f, _re) for f in ("REBasicPomdp.cc", "RockExplore.cc")]
REP = RE + [("pomdpModels/RockExplore/RockExplorePolicy.cc", _re)]
simple("P30","p30.cc",srcs=RE,note="grids of 1-6 cells with 4 rocks and the grid of the sources; any rewards, prior, belief over 2-3 states or product belief with two free marginals, any random number")
simple("P32","p32.cc",srcs=REP,note="a grid of two cells with 33 states; any values of up to three states and one reward, any belief over 2-5 states, any rewards and random numbers over 3-4 simulated steps; entropies and reports at fixed values")
simple("P34","p34.cc",srcs=ALL+["pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="maps of 1-4 rows and up to 3 regions, any priors; up to 6 random numbers of any value; every action sequence of up to 3 (thorough 4) steps")
simple("P35","p35.cc",srcs=ALL+["pomdpModels/lifeSurvey/LSPathAndReactExec.cc","pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="8 models of 2-5 states, every search; the signal in any of the first 4 trials, before, after or twice; any time limits and precisions on a virtual clock")
simple("P36","p36.cc",srcs=ALL+["pomdpModels/lifeSurvey/LSPathAndReactExec.cc","pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="8 models of 2-5 states, every search; any time limits and precisions on a virtual clock; 3-4 trials; evaluations of up to 3 trials of 3 steps of fixed random numbers")
simple("P31","p31.cc",srcs=ALL+["pomdpModels/lifeSurvey/LSPathAndReactExec.cc","pomdpModels/lifeSurvey/LifeSurvey.cc","pomdpModels/lifeSurvey/LSModelFile.cc"],note="maps of 1-6 rows and up to 3 regions; one prior, cost or reading probability of any value; map texts of up to 6 cells enumerated; every reachable state (quick: up to 150) and action; policies for up to two (thorough four) cells of any readings")
simple("P25","p25.cc",note="3-4 (thorough 4-6) recorded states of 1-3 dimensions, two (four) of any value, every pattern of repeats; logged and replayed runs of 8 small models with a symbolic reward under each search")
simple("P16","p16.cc",note="3 states, 2 actions (sizes case: up to 5 states): any discount, start, one row of each kind with every support, one reward of either sign, at any place; orders, layouts and notations enumerated")
simple("P17","p17.cc",note="models of 3 states: any row, start or discount that is off by any amount beyond the tolerance, probabilities outside [0,1] of any size; counts, indexes, names and statement forms enumerated")
simple("P18","p18.cc",note="2-3 states, 2 actions, 2 observations: every sequence of 2 statements (3 with fewer indexes, thorough 4) with any values; start forms; expectation with any row of probabilities")
TECHC = "solver-based: bounded model checking (CBMC) of C generated from the LLVM IR of the project's sources (engine/irc.py), bit-precise; counterexamples replayed on the real objects"
def cb(pid, harness, note="", sym=None, symsrcs=ALL, **kw):
    import cbmcrun
    def run(r):
        cbmcrun.run(r, harness, **kw)
        if sym: r.symbolic(sym, symsrcs, 40, 300)
    CHECKS[pid] = dict(run=run, assumptions=["clang's front end and -O1 optimiser, the IR to C translation (engine/irc.py) and CBMC are trusted; functions without a body are the harness's stand-ins"], note=note, technique=TECHC if not sym else TECHC + "; and symbolic execution of the instrumented IR (engine/symrt.cc, z3) for " + sym, builds=[(sym, symsrcs, ())] if sym else [])
cb("P23", "p23.c", cxx=[("common/zmdpCommonTime.cc", ["zmdp::operator+", "zmdp::operator-", "zmdp::operator<", "zmdp::secondsToTimeval", "zmdp::timevalToSeconds", "zmdp::StopWatch::restart", "zmdp::StopWatch::elapsedTime", "zmdp::fsleep", "zmdp::getTime"], [])], incs=["common"], note="bit-precise; any normalised times within 2^40 s for the integer operations, within 2^31 s for conversions")
cb("P28", "p28.c", csrc=["parsers/parse_hash.c"], incs=["parsers"], note="bit-precise; every name of up to 5 (thorough 6) letters of the lexer's alphabet, names built to collide, every order of 3 (4) listings of any kinds")
