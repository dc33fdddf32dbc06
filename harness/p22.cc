// P22: configuration values are layered, typed and written back faithfully
#define ZH_NO_EMBED
#include "zh.h"
#ifndef CFLAGS
#define CFLAGS "x"
#endif
#define main zmdp_main
#define usage zmdp_usage
#include "main/zmdp.cc"
#undef main
#undef usage
#include <map>
typedef std::map<std::string, std::string> SMap;
// ---- the program's own main, stopped when it finds that the model file does not exist
struct Capture : std::stringbuf { };
static Capture *CAP; static SMap EXPECT; static std::map<std::string, double> EXPECTD; static const char *WHAT;
static SMap parsed(const std::string &t) { SMap r; std::istringstream in(t); std::string l; while (std::getline(in, l)) { size_t k = l.find(' '); if (k == std::string::npos || l.compare(0, 6, "alias ") == 0 || l[0] == '[') continue; r[l.substr(0, k)] = l.substr(k + 1); } return r; }
static SMap defaults() { ZMDPConfig c; c.setString("binaryName", "zmdp"); c.readFromString("<defaultConfig>", defaultConfig.data); SMap r; for (auto &p : c.cmap) r[p.first] = p.second; return r; }
static void atExit(int code) {
  std::cout.flush(); std::string t = CAP->str(); size_t b = t.find("[params begin]"), e = t.find("[params end]");
  if (b == std::string::npos || e == std::string::npos) { sym_fail("%s: the program stopped before using its configuration (code %d)", WHAT, code); return; }
  SMap got = parsed(t.substr(b, e - b));
  sym_check(got.size() == EXPECT.size() + EXPECTD.size(), "%s: %d options instead of %d", WHAT, (int)got.size(), (int)(EXPECT.size() + EXPECTD.size()));
  for (auto &p : EXPECT) sym_check(got.count(p.first) && got[p.first] == p.second, "%s: option %s is '%s' instead of '%s'", WHAT, p.first.c_str(), got[p.first].c_str(), p.second.c_str());
  for (auto &p : EXPECTD) { sym_check(got.count(p.first), "%s: option %s is gone", WHAT, p.first.c_str()); if (got.count(p.first)) sym_check_eq(atof(got[p.first].c_str()), p.second, 0, "%s: value of option %s", WHAT, p.first.c_str()); }
  sym_cover("compared");
}
static int LASTCODE; static void rejected(int code) { sym_check(code != 0, "%s: rejected with exit code 0", WHAT); sym_cover("rejected"); }
static void runMain(std::vector<std::string> args) {
  CAP = new Capture(); std::cout.rdbuf(CAP); std::vector<char *> v; args.insert(args.begin(), "zmdp"); for (auto &a : args) v.push_back(strdup(a.c_str())); v.push_back(NULL);
  if (!freopen("/dev/null", "w", stdout)) abort(); sym_on_exit(atExit); zmdp_main((int)args.size(), &v[0]); sym_fail("%s: the program accepted a missing model", WHAT);
}
struct Field { const char *name; char type; const char *abbr; const char *v[3]; };
static const Field FIELDS[] = {
  {"terminateRegretBound", 'd', "-p", {}}, {"terminateWallclockSeconds", 'd', "-t", {}}, {"evaluationEpochsPerMagnitude", 'd', NULL, {}}, {"terminateUpperBoundValue", 'd', NULL, {}},
  {"evaluationTrialsPerEpoch", 's', "-i", {"7", "12", "200"}}, {"searchStrategy", 's', "-s", {"hsvi", "frtdp", "lrtdp"}}, {"lowerBoundRepresentation", 's', "-l", {"point", "maxPlanes", "-"}},
  {"upperBoundRepresentation", 's', "-u", {"point", "sawtooth", "-"}}, {"policyOutputFile", 's', "-o", {"a.policy", "none", "out.x"}}, {"useFastModelParser", 's', NULL, {"1", "0", "1"}}, {"maxHorizon", 's', NULL, {"5", "-1", "10"}}, {"boundsOutputFile", 's', NULL, {"b1", "b2", "b3"}}};
static const int NF = sizeof FIELDS / sizeof FIELDS[0];
static void base(int cmd) {
  EXPECT = defaults(); EXPECTD.clear(); static const char *C[] = {"solve", "benchmark", "evaluate"};
  EXPECT["command"] = C[cmd]; EXPECT["simulatorModel"] = "missing.pomdp"; EXPECT["debugLevel"] = "1"; EXPECT["policyOutputFile"] = cmd ? "none" : "out.policy";
}
static void expectSet(const Field &f, int k, double d) { if (f.type == 'd') { EXPECT.erase(f.name); EXPECTD[f.name] = d; } else EXPECT[f.name] = f.v[k]; }
static std::string valText(const Field &f, int k, double d) { return f.type == 'd' ? sym_text(d) : std::string(f.v[k]); }
static void layers(const Field &f, const Field *g) {
  WHAT = "layers"; int cmd = sym_int("command", 0, 2); base(cmd); static const char *W[] = {"solve", "bench", "eval"}, *W2[] = {"solve", "benchmark", "evaluate"};
  std::string file = "# comment\n\n"; std::vector<std::string> args; const Field *fs[2] = {&f, g};
  int pos = sym_int("place of the command", 0, 2); bool full = sym_bool("full"), viaFile = sym_bool("command in the file"); int k = 0;
  std::vector<std::string> words; words.push_back(full ? W2[cmd] : W[cmd]); words.push_back("missing.pomdp");
  if (viaFile) { file += zfmt("command %s\nsimulatorModel missing.pomdp\n", W2[cmd]); words.clear(); }
  if (pos == 0) { args = words; words.clear(); }
  args.push_back("-d");
  int nf[2], nc[2]; for (int i = 0; i < 2; i++) { nf[i] = fs[i] ? sym_int(zfmt("in file %d", i).c_str(), 0, i ? 1 : 2) : 0; nc[i] = fs[i] ? sym_int(zfmt("on command line %d", i).c_str(), 0, i ? 1 : 2) : 0; }
  for (int r = 0; r < 2; r++) for (int i = 0; i < 2; i++) if (fs[i] && r < nf[i]) { double d = fs[i]->type == 'd' ? sym_double(zfmt("f%d", k).c_str(), 1e-3, 1000) : 0; file += zfmt(r ? "%s\t %s \n" : "%s %s\n", fs[i]->name, valText(*fs[i], k % 3, d).c_str()); expectSet(*fs[i], k % 3, d); k++; }
  for (int r = 0; r < 2; r++) { for (int i = 0; i < 2; i++) if (fs[i] && r < nc[i]) { double d = fs[i]->type == 'd' ? sym_double(zfmt("c%d", k).c_str(), 1e-3, 1000) : 0; args.push_back(fs[i]->abbr && (r + i) % 2 == 0 ? std::string(fs[i]->abbr) : "--" + std::string(fs[i]->name)); args.push_back(valText(*fs[i], k % 3, d)); expectSet(*fs[i], k % 3, d); k++; } if (r == 0 && pos == 1) { args.insert(args.end(), words.begin(), words.end()); words.clear(); } }
  args.insert(args.end(), words.begin(), words.end());
  if (nf[0] + nf[1] || viaFile) { std::string p = zpath("conf"); zwrite(p, file); args.insert(args.begin() + (pos == 2 ? 0 : args.size()), p); args.insert(args.begin() + (pos == 2 ? 0 : args.size() - 1), k % 2 ? "-c" : "--config"); }
  runMain(args);
}
SYM_CASE(layers_one, "the real main(): any of 12 options set 0..2 times in a config file and 0..2 times on the command line (abbreviated or full), any value, every command, the command anywhere; all 57 options compared") { const Field &f = FIELDS[sym_int("option", 0, NF - 1)]; layers(f, NULL); }
SYM_CASE(layers_two, "the real main(): two options (one of 2 numeric, any of the others) set in every combination of layers and orders, any values") { int i = sym_int("first", 0, 1), j = sym_int("second", 2, NF - 1); layers(FIELDS[i], &FIELDS[j]); }

// ---- the solver's parameters get the values that were set, with their types
static void typed(const char *name, int how, double d, const std::string &t, SolverParams &p) {
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); c->setString("simulatorModel", "x.pomdp");
  std::string v = t.empty() ? sym_text(d) : t;
  switch (how) { case 0: if (t.empty()) c->setDouble(name, d); else c->setString(name, t); break; case 1: c->readFromString("f", (std::string(name) + " " + v + "\n").c_str()); break; case 2: c->processArgs("--" + std::string(name) + " " + v); break; default: { ZMDPConfig o; o.setString(name, v); c->readFromConfig(o); } }
  p.setValues(*c);
}
SYM_CASE(typed_numbers, "every real option of the solver parameters, any value, set through each interface") {
  double d = sym_double("v", -1000, 1000); int how = sym_int("how", 0, 3), f = sym_int("option", 0, 3); SolverParams p; static const char *N[] = {"terminateRegretBound", "terminateWallclockSeconds", "evaluationFirstEpochWallclockSeconds", "evaluationEpochsPerMagnitude"};
  typed(N[f], how, d, "", p); double g = f == 0 ? p.terminateRegretBound : f == 1 ? p.terminateWallclockSeconds : f == 2 ? p.evaluationFirstEpochWallclockSeconds : p.evaluationEpochsPerMagnitude;
  if (f == 1 && d <= 0) sym_check(g > 1e9, "a non-positive time limit means none"); else sym_check_eq(g, d, 0, "%s", N[f]);
  sym_check_eq(f == 0 ? 0.001 : p.terminateRegretBound, f == 0 ? 0.001 : 1e-3, 0, "other options keep their value");
}
SYM_CASE(typed_integers, "every integer and switch of the solver parameters, small values and the extremes of int") {
  static const int V[] = {0, 1, 2, 7, 100, 2147483647, -1, -2147483647 - 1}; int v = V[sym_int("value", 0, 7)], how = sym_int("how", 0, 3), f = sym_int("option", 0, 6); SolverParams p; double x = sym_double("x", 0.1, 5);
  static const char *N[] = {"maxHorizon", "evaluationTrialsPerEpoch", "evaluationMaxStepsPerTrial", "useFastModelParser", "maintainUpperBound", "useWeakUpperBoundHeuristic", "debugLevel"};
  if (f == 6 && v > 0) v = 0; CAP = new Capture(); std::cout.rdbuf(CAP); typed(N[f], how, 0, zfmt("%d", v), p); int g = f == 0 ? p.maxHorizon : f == 1 ? p.evaluationTrialsPerEpoch : f == 2 ? p.evaluationMaxStepsPerTrial : f == 3 ? p.useFastModelParser : f == 4 ? p.maintainUpperBound : f == 5 ? p.useWeakUpperBoundHeuristic : zmdpDebugLevelG;
  sym_check(g == (f >= 3 && f <= 5 ? v != 0 : v), "%s is %d instead of %d", N[f], g, v); zmdpDebugLevelG = 0;
  ZMDPConfig c; c.setInt("i", v); sym_check(c.getInt("i") == v, "setInt and getInt of %d", v); c.setBool("b", v != 0); sym_check(c.getBool("b") == (v != 0), "setBool and getBool"); c.setDouble("d", x); sym_check_eq(c.getDouble("d"), x, 0, "setDouble and getDouble");
  c.setDouble("d", v); sym_check(c.getDouble("d") == v, "setDouble and getDouble of %d", v);
}
struct Choice { const char *field, *good, *bad; };
static const Choice CH[] = {{"searchStrategy", "frtdp hsvi rtdp lrtdp hdp script", "- FRTDP hsv 0 frtdpp"}, {"modelType", "- pomdp", "POMDP cassandra 1 pom"}, {"lowerBoundRepresentation", "- point maxPlanes", "sawtooth planes 0 Point"}, {"upperBoundRepresentation", "- point sawtooth", "maxPlanes saw 1"}, {"maintainLowerBound", "- 0 1", "2 yes -1"}, {"runTimeActionSelection", "- upper lower", "0 1 low Upper"}};
static int enumVal(const SolverParams &p, int f) { return f == 0 ? p.searchStrategy : f == 1 ? p.modelType : f == 2 ? p.lowerBoundRepresentation : f == 3 ? p.upperBoundRepresentation : f == 4 ? p.maintainLowerBound : p.useUpperBoundRunTimeActionSelection; }
static int enumWant(int f, const std::string &v) {
  if (f == 0) return v == "frtdp" ? S_FRTDP : v == "hsvi" ? S_HSVI : v == "rtdp" ? S_RTDP : v == "lrtdp" ? S_LRTDP : v == "hdp" ? S_HDP : S_SCRIPT;
  if (f == 1) return T_POMDP; if (f == 2) return v == "point" ? V_POINT : V_MAXPLANES; if (f == 3) return v == "point" ? V_POINT : V_SAWTOOTH;
  if (f == 4) return v == "-" ? -1 : v == "1"; return v == "-" ? -1 : v == "upper";
}
SYM_CASE(choices, "every documented choice of every option that is one of a list, and values outside the lists") {
  int f = sym_int("option", 0, 5), how = sym_int("how", 1, 3); bool good = sym_bool("good"); std::vector<std::string> l; std::istringstream in(good ? CH[f].good : CH[f].bad); std::string w; while (in >> w) l.push_back(w);
  std::string v = l[sym_int("choice", 0, (int)l.size() - 1)]; SolverParams p; double x = sym_double("x", 0.1, 5);
  if (!good) { WHAT = strdup(zfmt("%s %s", CH[f].field, v.c_str()).c_str()); sym_on_exit(rejected); typed(CH[f].field, how, 0, v, p); sym_fail("%s %s was accepted", CH[f].field, v.c_str()); return; }
  typed(CH[f].field, how, 0, v, p); sym_check(enumVal(p, f) == enumWant(f, v), "%s %s gives %d", CH[f].field, v.c_str(), enumVal(p, f)); ZMDPConfig c; c.setDouble("x", x); sym_check_eq(c.getDouble("x"), x, 0, "a real option");
}
SYM_CASE(model_types, "the model type follows the file name, or what is set; the default bound representations follow the model type") {
  static const char *F[] = {"x.pomdp", "a.mdp", "t.racetrack", "custom", ".pomdp", "x.mdp.pomdp", "x.txt", "pomdp", "x.pomdp.bak", ""}; static const int T[] = {T_POMDP, T_MDP, T_RACETRACK, T_CUSTOM, T_POMDP, T_POMDP, -1, -1, -1, -1};
  int k = sym_int("file", 0, 9), s = sym_int("type", 0, 4); static const char *TN[] = {"-", "pomdp", "mdp", "racetrack", "custom"}; static const int TV[] = {-1, T_POMDP, T_MDP, T_RACETRACK, T_CUSTOM}; double x = sym_double("x", 0.1, 5);
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); c->setString("simulatorModel", F[k]); c->setString("modelType", TN[s]); c->setDouble("terminateRegretBound", x); SolverParams p; int want = s ? TV[s] : T[k];
  if (want < 0) { WHAT = "a model of unknown type"; sym_on_exit(rejected); p.setValues(*c); sym_fail("model type of '%s' inferred as %d", F[k], p.modelType); return; }
  p.setValues(*c); sym_check(p.modelType == want, "model type of '%s' with modelType %s", F[k], TN[s]); sym_check_eq(p.terminateRegretBound, x, 0, "precision");
  sym_check(p.lowerBoundRepresentation == (want == T_POMDP ? V_MAXPLANES : V_POINT) && p.upperBoundRepresentation == (want == T_POMDP ? V_SAWTOOTH : V_POINT), "default representations");
  sym_check(!strcmp(p.probName, F[k]), "model name");
}
SYM_CASE(representations, "every model type and choice of bound representations: planes and sawtooth are refused for models that have no beliefs; where the policy goes") {
  static const char *TN[] = {"pomdp", "mdp", "racetrack", "custom"}, *L[] = {"-", "point", "maxPlanes"}, *U[] = {"-", "point", "sawtooth"}, *P[] = {"-", "none", "x.policy"}; int t = sym_int("type", 0, 3), l = sym_int("lower", 0, 2), u = sym_int("upper", 0, 2), k = sym_int("policy", 0, 2); bool bench = sym_bool("benchmark"); double x = sym_double("x", 0.1, 5);
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); c->setString("simulatorModel", "m"); c->setString("modelType", TN[t]); c->setString("lowerBoundRepresentation", L[l]); c->setString("upperBoundRepresentation", U[u]); c->setString("policyOutputFile", P[k]); c->setDouble("terminateRegretBound", x);
  SolverParams p; p.usingBenchmarkFrontEnd = bench; if (t && (l == 2 || u == 2)) { WHAT = strdup(zfmt("%s with %s and %s", TN[t], L[l], U[u]).c_str()); sym_on_exit(rejected); p.setValues(*c); sym_fail("%s was accepted", WHAT); return; }
  p.setValues(*c); sym_check(p.lowerBoundRepresentation == (l == 2 || (!l && !t) ? V_MAXPLANES : V_POINT), "%s: lower bound representation %s", TN[t], L[l]); sym_check(p.upperBoundRepresentation == (u == 2 || (!u && !t) ? V_SAWTOOTH : V_POINT), "%s: upper bound representation %s", TN[t], U[u]);
  std::string out = p.policyOutputFile ? p.policyOutputFile : "none"; sym_check(out == (k == 0 ? (bench ? "none" : "out.policy") : P[k]), "policy file %s, benchmark %d: %s", P[k], (int)bench, out.c_str()); sym_check_eq(p.terminateRegretBound, x, 0, "precision"); sym_cover("accepted");
}
SYM_CASE(compatible, "every search strategy with every choice of which bounds to keep, how actions are chosen, representation and policy file: the defaults, and the refused combinations") {
  static const char *S[] = {"frtdp", "hsvi", "rtdp", "lrtdp", "hdp", "script"}, *L[] = {"-", "0", "1"}, *A[] = {"-", "upper", "lower"}; int s = sym_int("strategy", 0, 5), l = sym_int("lower", 0, 2), u = sym_int("upper", 0, 1), a = sym_int("action", 0, 2), k = sym_int("representation", 0, 2); bool out = sym_bool("policy file");
  ZModel m(2, 2, 2, 0.5); m.b0 = {0.5, 0.5}; for (int b = 0; b < 2; b++) for (int i = 0; i < 2; i++) { m.T[b][i][i] = 0.75; m.T[b][i][1 - i] = 0.25; m.Z[b][i][i] = 1; m.R[b][i] = b + i; } m.R[0][0] = sym_double("reward", -2, 2); m.mdp = k == 2; m.start = 0;
  ZMDPConfig *c = new ZMDPConfig(); zconfig(*c); std::string f = m.write(k == 2 ? "m.mdp" : "m.pomdp"), pf = out ? zpath("x.policy") : "none"; c->setString("simulatorModel", f); c->setString("searchStrategy", S[s]); c->setString("maintainLowerBound", L[l]); c->setString("maintainUpperBound", u ? "1" : "0"); c->setString("runTimeActionSelection", A[a]); c->setString("policyOutputFile", pf); if (k == 1) { c->setString("lowerBoundRepresentation", "point"); c->setString("upperBoundRepresentation", "point"); }
  bool needL = s < 2, needU = s < 5, keepL = l == 2 || (l == 0 && needL), bad = (needL && !keepL) || (needU && !u) || (!keepL && !u) || (a == 2 && !keepL) || (a == 1 && !u);
  SolverParams *p = new SolverParams(); p->setValues(*c); SolverObjects o; if (bad) { WHAT = strdup(zfmt("%s, lower bound %s, upper bound %d, actions %s", S[s], L[l], u, A[a]).c_str()); sym_on_exit(rejected); constructSolverObjects(o, *p, *c); sym_fail("%s was accepted", WHAT); return; }
  constructSolverObjects(o, *p, *c); sym_check(o.bounds->maintainLowerBound == keepL && o.bounds->maintainUpperBound == (bool)u, "%s, lower %s: bounds kept %d %d", S[s], L[l], (int)o.bounds->maintainLowerBound, (int)o.bounds->maintainUpperBound);
  sym_check((o.bounds->lowerBound != NULL) == keepL && (o.bounds->upperBound != NULL) == (bool)u, "bounds made"); sym_check((bool)p->useUpperBoundRunTimeActionSelection == (a == 1 || (a == 0 && !keepL)) && o.bounds->useUpperBoundRunTimeActionSelection == (bool)p->useUpperBoundRunTimeActionSelection, "%s, lower %s: actions by %s", S[s], L[l], p->useUpperBoundRunTimeActionSelection ? "upper" : "lower");
  bool planes = keepL && k == 0; sym_check((p->policyOutputFile != NULL) == (out && planes), "policy file kept although none can be written, or dropped"); if (p->policyOutputFile) sym_check(pf == p->policyOutputFile, "policy file name"); if (keepL) sym_check(((dynamic_cast<MaxPlanesLowerBound *>(o.bounds->lowerBound) != NULL) == planes), "kind of lower bound"); sym_cover("accepted");
}
// ---- malformed and unknown
SYM_CASE(malformed, "values that are not a number of the option's type: refused when the option is used") {
  static const char *I[] = {"abc", "1x", "1.5", "1e3", "--", "x1", "99999999999", "-99999999999", "1,000", "true", "0x10", "-"}, *D[] = {"abc", "1x", "1e", "1.2.3", "--1", "1,5", "-", "0.1s", "e5", "yes"};
  int type = sym_int("type", 0, 2); std::string v = type == 1 ? D[sym_int("value", 0, 9)] : I[sym_int("value", 0, 11)]; bool viaFile = sym_bool("file"); double x = sym_double("x", 0.1, 5);
  const char *f = type == 0 ? "evaluationTrialsPerEpoch" : type == 1 ? "terminateRegretBound" : "useFastModelParser"; ZMDPConfig c; zconfig(c); if (viaFile) c.readFromString("f", (std::string(f) + " " + v + "\n").c_str()); else c.processArgs("--" + std::string(f) + " " + v);
  c.setDouble("terminateUpperBoundValue", x); sym_check_eq(c.getDouble("terminateUpperBoundValue"), x, 0, "another option");
  WHAT = strdup(zfmt("%s %s", f, v.c_str()).c_str()); sym_on_exit(rejected);
  if (type == 0) { int g = c.getInt(f); sym_fail("%s %s is read as %d", f, v.c_str(), g); } else if (type == 1) { double g = c.getDouble(f); sym_fail("%s %s is read as a number (%d)", f, v.c_str(), g > 0); } else { bool g = c.getBool(f); sym_fail("%s %s is read as %d", f, v.c_str(), (int)g); }
}

static void put(ZMDPConfig &c, int how, const std::string &k, const std::string &v) { switch (how) { case 0: c.setString(k, v); break; case 1: c.readFromString("f", (k + " " + v + "\n").c_str()); break; case 2: c.processArgs("--" + k + " " + v); break; default: { ZMDPConfig o; o.setString(k, v); c.readFromConfig(o); } } }
SYM_CASE(unknown, "options that do not exist, options without a value and broken lines, through every interface: refused; nothing else changes before that") {
  static const char *U[] = {"noSuchOption", "searchstrategy", "searchStrategyX", "searchStrateg", "aliasX", "alias2", "p", "-searchStrategy", "help"}; int how = sym_int("how", 0, 3), u = sym_int("option", 0, 8), kind = how == 1 || how == 2 ? sym_int("kind", 0, 3) : 0; double x = sym_double("x", 0.1, 5), y = sym_double("y", 0.1, 5);
  ZMDPConfig c; zconfig(c); put(c, how, "terminateRegretBound", sym_text(x)); put(c, how, "terminateUpperBoundValue", sym_text(y)); sym_check_eq(c.getDouble("terminateRegretBound"), x, 0, "known option"); sym_check_eq(c.getDouble("terminateUpperBoundValue"), y, 0, "known option");
  WHAT = strdup(zfmt("unknown option %s, kind %d", U[u], kind).c_str()); sym_on_exit(rejected);
  if (kind == 0) put(c, how, U[u], "1");
  else if (how == 1) c.readFromString("f", kind == 1 ? (std::string(U[u]) + " 1 2\n").c_str() : kind == 2 ? "searchStrategy\n" : "alias -z\n");
  else c.processArgs(kind == 1 ? "--searchStrategy hsvi --" + std::string(U[u]) + " 1" : kind == 2 ? std::string("--searchStrategy") : std::string("solve x.pomdp -f --terminateRegretBound"));
  sym_fail("%s was accepted (interface %d)", WHAT, how);
}
static void rejectedMain(int code) { sym_check(code != 0, "%s: exit code 0", WHAT); std::string t = CAP->str(); sym_check(t.find("[params begin]") == std::string::npos, "%s: accepted", WHAT); sym_cover("rejected"); }
SYM_CASE(unknown_main, "the real main(): unknown options and commands, surplus arguments, missing arguments, anywhere among good ones") {
  static const char *U[] = {"-x", "--noSuchOption", "--terminateregretbound", "-pp", "solve2", "-P"}; int u = sym_int("bad", 0, 5), at = sym_int("at", 0, 4); double x = sym_double("x", 0.1, 5); bool arg = u > 0 && u < 3;
  std::vector<std::string> a; const char *good[] = {"solve", "-d", "-p", "V", "missing.pomdp"}; static const int slot[] = {0, 1, 2, 4, 5};
  for (int i = 0; i <= 5; i++) { if (i == slot[at]) { a.push_back(U[u]); if (arg) a.push_back("1"); } if (i < 5) a.push_back(i == 3 ? sym_text(x) : std::string(good[i])); }
  WHAT = strdup(zfmt("%s at %d", U[u], at).c_str()); CAP = new Capture(); std::cout.rdbuf(CAP); std::vector<char *> v; v.push_back(strdup("zmdp")); for (auto &s : a) v.push_back(strdup(s.c_str())); v.push_back(NULL); if (!freopen("/dev/null", "w", stdout)) abort();
  { ZMDPConfig c; zconfig(c); c.processArgs("-p " + sym_text(x)); sym_check_eq(c.getDouble("terminateRegretBound"), x, 0, "-p alone"); } sym_on_exit(rejectedMain); zmdp_main((int)v.size() - 1, &v[0]); sym_fail("%s: accepted", WHAT);
}
// ---- abbreviations
static const char *ABB[][2] = {{"-f", "--useFastModelParser 1"}, {"-d", "--debugLevel 1"}, {"-p", "--terminateRegretBound"}, {"-t", "--terminateWallclockSeconds"}, {"-i", "--evaluationTrialsPerEpoch"}, {"-s", "--searchStrategy"}, {"-l", "--lowerBoundRepresentation"}, {"-u", "--upperBoundRepresentation"}, {"-o", "--policyOutputFile"}, {"eval", "evaluate"}, {"bench", "benchmark"}};
SYM_CASE(abbreviations, "every sequence of 3 abbreviations or plain words: the same options and words as with the full spellings, any value") {
  double d = sym_double("v", 1e-3, 1000); static const char *VAL[] = {NULL, NULL, "V", "V", "9", "hsvi", "point", "sawtooth", "f.policy", NULL, NULL}; std::string a, b; int n = sym_int("length", 1, sym_thorough() ? 4 : 3);
  for (int i = 0; i < n; i++) { int k = sym_int(zfmt("word%d", i).c_str(), 0, 12); std::string x = k < 11 ? ABB[k][0] : k == 11 ? "m-f.pomdp" : "-", y = k < 11 ? ABB[k][1] : x; if (k < 11 && VAL[k]) { std::string v = VAL[k][0] == 'V' ? sym_text(d) : std::string(VAL[k]); x += " " + v; y += " " + v; } a += (i ? " " : "") + x; b += (i ? " " : "") + y; }
  ZMDPConfig c, e; zconfig(c); zconfig(e); std::vector<std::string> ca = c.processArgs(a), ce = e.processArgs(b); sym_check(ca == ce, "the words left over from '%s'", a.c_str());
  for (auto &p : e.cmap) { bool num = p.first == "terminateRegretBound" || p.first == "terminateWallclockSeconds"; if (num) sym_check_eq(c.getDouble(p.first), e.getDouble(p.first), 0, "%s with '%s'", p.first.c_str(), a.c_str()); else sym_check(c.getString(p.first) == p.second, "%s is '%s' with '%s'", p.first.c_str(), c.getString(p.first).c_str(), a.c_str()); }
  std::istringstream in(b); std::string w; std::vector<std::string> left; SMap want; while (in >> w) { if (w.substr(0, 2) == "--") { std::string v; in >> v; want[w.substr(2)] = v; } else left.push_back(w); }
  sym_check(left == ca, "plain words of '%s'", a.c_str()); for (auto &p : want) if (p.first != "terminateRegretBound" && p.first != "terminateWallclockSeconds") sym_check(c.getString(p.first) == p.second, "%s with '%s'", p.first.c_str(), a.c_str()); else sym_check_eq(c.getDouble(p.first), d, 0, "%s with '%s'", p.first.c_str(), a.c_str());
}
SYM_CASE(own_abbreviations, "abbreviations defined in a config file, up to three deep, redefined, and ones whose expansion contains the abbreviation itself: expanded, and expansion ends") {
  double d = sym_double("v", 1e-3, 1000), q = sym_double("w", 1e-3, 1000); int k = sym_int("set", 0, 6); ZMDPConfig c; zconfig(c); std::string v = sym_text(d), w = sym_text(q);
  static const char *DEF[] = {"alias -q --terminateRegretBound\n", "alias -q -p\n", "alias -q -r\nalias -r -p\n", "alias -z -y\nalias -y -x\nalias -x --terminateRegretBound\n", "alias -p --terminateUpperBoundValue\n", "alias\t -q \t--searchStrategy hsvi --terminateRegretBound\n", "alias solve solve --searchStrategy hsvi\n"};
  static const char *USE[] = {"-q V", "-q V", "-q V", "-z V", "-p V", "-q V", "solve -p V"}; c.readFromString("f", DEF[k]); std::string u = USE[k]; u.replace(u.find('V'), 1, v); u = "-t " + w + " " + u;
  sym_must_finish(5); std::vector<std::string> l = c.processArgs(u); sym_must_finish(0);
  sym_check_eq(c.getDouble(k == 4 ? "terminateUpperBoundValue" : "terminateRegretBound"), d, 0, "own abbreviation %d", k); sym_check_eq(c.getDouble("terminateWallclockSeconds"), q, 0, "-t before it");
  sym_check(c.getString("searchStrategy") == (k >= 5 ? "hsvi" : "frtdp"), "strategy with abbreviation %d", k); sym_check(l.size() == (size_t)(k == 6) && (k != 6 || l[0] == "solve"), "words left with abbreviation %d", k);
}
// ---- files
SYM_CASE(file_forms, "config files with comments, blank lines, tabs, long lines, settings repeated, and with or without a newline at the end: every setting counts, the last one wins") {
  double d = sym_double("v", 1e-3, 1000), e = sym_double("w", 1e-3, 1000); int n = sym_int("lines", 1, 3), pad = sym_int("padding", 0, 2), last = -1, lastU = -1; bool nl = sym_bool("newline at the end"), viaFile = sym_bool("file"); std::string t, strat = "frtdp"; double a = 1e-3, b = -999;
  for (int i = 0; i < n; i++) {
    int k = sym_int(zfmt("line%d", i).c_str(), 0, 6); if (i) t += "\n"; std::string sp(pad == 0 ? 1 : pad == 1 ? 3 : 1100, ' ');
    switch (k) { case 0: t += "terminateRegretBound" + sp + sym_text(d); a = d; break; case 1: t += "\tterminateRegretBound\t" + sym_text(e) + sp; a = e; break; case 2: t += "terminateUpperBoundValue" + sp + sym_text(e); b = e; break; case 3: t += "# searchStrategy hsvi" + sp; break; case 4: t += pad == 1 ? "  \t " : ""; break; case 5: t += "searchStrategy lrtdp"; strat = "lrtdp"; break; case 6: t += "alias -q" + sp + "--searchStrategy"; last = i; break; }
  }
  if (nl) t += "\n"; ZMDPConfig c; zconfig(c); sym_must_finish(5); if (viaFile) { std::string p = zpath("conf"); zwrite(p, t); c.readFromFile(p); } else c.readFromString("s", t.c_str()); sym_must_finish(0); lastU = last;
  sym_check_eq(c.getDouble("terminateRegretBound"), a, 0, "terminateRegretBound"); sym_check_eq(c.getDouble("terminateUpperBoundValue"), b, 0, "terminateUpperBoundValue"); sym_check(c.getString("searchStrategy") == strat, "searchStrategy is '%s'", c.getString("searchStrategy").c_str());
  if (lastU >= 0) { c.processArgs("-q hdp"); sym_check(c.getString("searchStrategy") == "hdp", "abbreviation of the file"); }
}
// --genConfig: the file it writes holds the defaults, and works as a config file that overrides nothing
static std::string GENF, GENT; static const Field *GENFIELD;
static void generated(int code) {
  fflush(stdout); sym_check(code == 0, "--genConfig ends with code %d", code); std::ifstream in(GENF.c_str()); if (!in) { sym_fail("--genConfig wrote no file"); return; } std::stringstream b; b << in.rdbuf(); in.close();
  sym_check(b.str() == std::string(defaultConfig.data, defaultConfig.size), "--genConfig wrote something other than the default file"); SMap d = defaults(); d.erase("binaryName"); double x = sym_double("value", 1e-3, 1000), y = sym_double("before", 1e-3, 1000);
  { ZMDPConfig c; c.readFromFile(GENF); for (auto &p : d) sym_check(c.getString(p.first) == p.second, "generated file: option %s is '%s' instead of '%s'", p.first.c_str(), c.getString(p.first).c_str(), p.second.c_str()); sym_check(c.cmap.size() == d.size(), "generated file: %d options instead of %d", (int)c.cmap.size(), (int)d.size()); }
  ZMDPConfig c; zconfig(c); c.setDouble("terminateWallclockSeconds", y); c.readFromFile(GENF); sym_check(c.getString("terminateWallclockSeconds") == d["terminateWallclockSeconds"], "generated file: an earlier value stays"); c.processArgs("-p " + sym_text(x)); sym_check_eq(c.getDouble("terminateRegretBound"), x, 0, "-p after a generated file"); sym_cover("generated");
}
SYM_CASE(gen_config, "--genConfig among other options, anywhere: writes the defaults; read back, with any earlier and later values, it sets exactly those") {
  int pos = sym_int("place", 0, 3); std::vector<std::string> w = {"solve", "-p", "5", "missing.pomdp"}; if (pos == 0) w.clear(); else if (pos == 1) w.erase(w.begin() + 1, w.end()); bool before = sym_bool("first"); GENF = zpath("gen.config"); w.insert(before ? w.begin() : w.end(), {"--genConfig", GENF}); if (pos == 3) w.insert(w.begin(), {"-c", zpath("missing.config")});
  std::vector<char *> v; w.insert(w.begin(), "zmdp"); for (auto &a : w) v.push_back(strdup(a.c_str())); v.push_back(NULL); if (!freopen("/dev/null", "w", stdout)) abort(); sym_on_exit(generated); zmdp_main((int)w.size(), &v[0]); sym_fail("--genConfig went on");
}
SYM_CASE(missing_file, "a config file that does not exist, options read that were never set: refused") { double x = sym_double("x", 0.1, 5); ZMDPConfig c; zconfig(c); c.setDouble("terminateRegretBound", x); sym_check_eq(c.getDouble("terminateRegretBound"), x, 0, "set"); bool f = sym_bool("file"); WHAT = f ? "missing config file" : "option never set"; sym_on_exit(rejected); if (f) c.readFromFile(zpath("nothing_here")); else { sym_check(!c.defined("never"), "defined"); c.getString("never"); } sym_fail("%s accepted", WHAT); }
SYM_CASE(round_trip, "a configuration with any real values (also ones with 17 significant digits), integers and strings set, written and read again, also into a configuration that already has other values: every option and abbreviation the same") {
  sym_print_rounding(true); static const char *N[] = {"terminateRegretBound", "terminateWallclockSeconds", "terminateLowerBoundValue", "terminateUpperBoundValue", "evaluationFirstEpochWallclockSeconds", "evaluationEpochsPerMagnitude"};
  ZMDPConfig c, e; zconfig(c); std::map<std::string, double> want; for (int i = 0; i < 6; i++) { double d = sym_double(zfmt("v%d", i).c_str(), -1e4, 1e4); c.setDouble(N[i], d); want[N[i]] = d; } int k = sym_int("integer", 0, 2); static const int IV[] = {0, -2147483647 - 1, 2147483647}; c.setInt("maxHorizon", IV[k]); c.setBool("useFastModelParser", k == 1); c.setString("policyOutputFile", k ? "a#b=c.policy" : "-"); c.setAlias("-q", "--searchStrategy hsvi --debugLevel");
  std::ostringstream out; c.writeToStream(out); bool fresh = sym_bool("fresh"), nl = sym_bool("through a file"); if (!fresh) { zconfig(e); e.setDouble(N[0], 77); e.setString("policyOutputFile", "other"); }
  if (nl) { std::string p = zpath("conf"); zwrite(p, out.str()); e.readFromFile(p); } else e.readFromString("s", out.str().c_str());
  sym_check(e.cmap.size() == c.cmap.size() && e.aliases == c.aliases, "number of options or abbreviations"); for (auto &p : want) sym_check_eq(e.getDouble(p.first), p.second, 0, "%s after writing and reading", p.first.c_str());
  for (auto &p : c.cmap) if (!want.count(p.first)) sym_check(e.defined(p.first) && e.getString(p.first) == p.second, "%s after writing and reading", p.first.c_str()); sym_check(e.getInt("maxHorizon") == IV[k] && e.getBool("useFastModelParser") == (k == 1), "typed");
}
// ---- what counts as an option, an option's value or an argument
SYM_CASE(options_order, "any 5 words, each an option name, a value, a word, a word with one dash or the end-of-options mark") {
  static const char *W[] = {"--searchStrategy", "--newName", "hsvi", "-x", "--", "word"}; std::string line; std::vector<std::string> w, left; SMap want; int n = sym_int("words", 1, 5);
  for (int i = 0; i < n; i++) { w.push_back(W[sym_int(zfmt("w%d", i).c_str(), 0, 5)]); line += (i ? " " : "") + w.back(); }
  bool past = false, bad = false; for (int i = 0; i < n && !bad; i++) { if (past || w[i].substr(0, 2) != "--") left.push_back(w[i]); else if (w[i] == "--") past = true; else if (i + 1 == n) bad = true; else { want[w[i].substr(2)] = w[i + 1]; i++; } }
  if (bad) { WHAT = strdup(line.c_str()); sym_on_exit(rejected); } ZMDPConfig c; std::vector<std::string> got = c.processArgs(line); if (bad) { sym_fail("\"%s\": accepted without a value", line.c_str()); return; }
  sym_check(got == left, "\"%s\": %d arguments left of %d", line.c_str(), (int)got.size(), (int)left.size()); for (auto &p : want) sym_check(c.getString(p.first) == p.second, "\"%s\": %s", line.c_str(), p.first.c_str()); sym_cover(past ? "mark" : "no mark");
}
