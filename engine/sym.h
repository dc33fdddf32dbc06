// Harness interface of the solver-based checker.  Two implementations:
//   symrt.cc  - symbolic: doubles become solver terms, branches fork
//   replayrt.cc - concrete: values come from a file, used to confirm
//                 counterexamples on the ordinary (uninstrumented) code
#ifndef SYM_H_
#define SYM_H_
#include <string>
#include <vector>

double sym_double(const char *name, double lo, double hi);  // any real in [lo,hi]
double sym_doublef(double lo, double hi, const char *fmt, ...);
int sym_int(const char *name, int lo, int hi);               // any integer in [lo,hi]
bool sym_bool(const char *name);
// keeps only inputs for which cond holds
void sym_assume(bool cond);
void sym_assume_le(double a, double b);
void sym_assume_eq(double a, double b);
void sym_assume_ge_gap(double a, double b, double gap);       // |a-b|>=gap
// assertions: for all inputs of this path
void sym_check(bool cond, const char *msg, ...);
void sym_check_le(double a, double b, double tol, const char *msg, ...);  // a <= b + tol
void sym_check_eq(double a, double b, double tol, const char *msg, ...);  // |a-b| <= tol
// max/min/selection that never fork (for oracles)
double sym_max(double a, double b);
double sym_min(double a, double b);
double sym_sel_lt(double a, double b, double x, double y);  // a < b ? x : y
void sym_fail(const char *msg, ...);                          // reached = violation
void sym_cover(const char *what);                             // reachability witness
void sym_end();                                               // end this path
// program exit/assert handling
typedef void (*sym_exit_fn)(int code);
void sym_on_exit(sym_exit_fn f);   // f is called when the code under test exits or aborts
// text of a value, for building input files (exact, round-trips symbolically)
std::string sym_text(double v);
bool sym_is_symbolic(double v);
double sym_rand_range(double lo, double hi);   // next raw random outputs restricted (fraction of RAND_MAX)
void sym_rand_script(const std::vector<double> &fractions, bool cycle = false);  // force the next rand() fractions (all of them, repeating, if cycle)
std::vector<double> sym_rand_log();            // fractions returned by rand() so far on this path
void sym_set_time(double seconds, double step);               // virtual clock
double sym_round_value(double v);
bool sym_thorough();
bool sym_replaying();
const char *sym_scratch();         // private scratch directory of this process
const char *sym_repo();
void sym_merge(int depth);         // selections in the code become if-then-else terms up to this nesting
void sym_hash_exact(bool on);      // printing terms into keys merges equal values (forks)
void sym_print_rounding(bool on);   // streams with fewer than 17 digits print a few representative values rounded
void sym_must_finish(double cpuSeconds); // not calling sym_must_finish(0) within this much CPU time is a violation
void sym_note(const char *fmt, ...);  // debugging aid

typedef void (*sym_case_fn)();
struct SymCase { const char *name; sym_case_fn fn; const char *bounds; bool thoroughOnly; SymCase(const char *n, sym_case_fn f, const char *b, bool t); };
#define SYM_CASE(id, bounds) static void id(); static SymCase reg_##id(#id, id, bounds, false); static void id()
#define SYM_CASE_THOROUGH(id, bounds) static void id(); static SymCase reg_##id(#id, id, bounds, true); static void id()
#endif
