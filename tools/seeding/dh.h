// helpers of the demonstrations: build a solver through the project's own code
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "MatrixUtils.h"
#include "slaMatrixUtils.h"
#include "solverUtils.h"
#include "zmdpCommonTime.h"
#include "embedFiles.h"
#include "zmdpMainConfig.cc"
#include "Pomdp.h"
#include "CassandraParser.h"
#include "FastParser.h"
#include "GenericDiscreteMDP.h"
#include "CacheMDP.h"
#include "RaceTrack.h"
#include "MDPSim.h"
#include "PolicyEvaluator.h"
#include "BoundPairExec.h"
#include "RTDPCore.h"
#include "HSVI.h"
#include "FRTDP.h"
#include "HDP.h"
#include "LRTDP.h"
using namespace zmdp; using namespace sla; using namespace MatrixUtils; using std::string; using std::vector;
static string TMP;   // scratch directory, argv[1]
static int bad = 0;
#define CHECK(c, ...) do { if (!(c)) { bad++; printf("FAILED line %d: " #c "  ", __LINE__); printf(__VA_ARGS__); printf("\n"); } } while (0)
#define NEAR(a, b, t) do { double x_ = (a), y_ = (b); if (!(fabs(x_ - y_) <= (t))) { bad++; printf("FAILED line %d: " #a " = %.9g, expected " #b " = %.9g\n", __LINE__, x_, y_); } } while (0)
static string put(const char *name, const string &txt) { string p = TMP + "/" + name; FILE *f = fopen(p.c_str(), "w"); fwrite(txt.data(), 1, txt.size(), f); fclose(f); return p; }
struct Z { ZMDPConfig config; SolverParams p; SolverObjects so; BoundPair *bp() { return so.bounds; } MDP *mdp() { return so.problem; } RTDPCore *core() { return (RTDPCore *)so.solver; } };
static Z *make(const string &model, const string &opts) {
  Z *z = new Z(); z->config.setString("binaryName", "zmdp"); z->config.readFromString("<defaultConfig>", defaultConfig.data); z->config.setNoNewFieldsAllowed(true);
  std::istringstream in(opts); string k, v; while (in >> k >> v) z->config.setString(k, v);
  z->config.setString("command", "solve"); z->config.setString("simulatorModel", model);
  z->p.setValues(z->config); constructSolverObjects(z->so, z->p, z->config); return z;
}
static Z *init(const string &model, const string &opts) { Z *z = make(model, opts); z->so.solver->planInit(z->so.sim->getModel(), &z->config); return z; }
static bool trial(Z *z) { return z->so.solver->planFixedTime(z->so.problem->getInitialState(), -1, z->p.terminateRegretBound); }
static state_vector sv(vector<double> x) { state_vector s; s.resize(x.size()); for (size_t i = 0; i < x.size(); i++) if (x[i] != 0) s.push_back(i, x[i]); return s; }
static double at(const state_vector &s, int i) { for (auto &e : s.data) if ((int)e.index == i) return e.value; return 0; }
void demo();
int main(int argc, char **argv) { TMP = argv[1]; if (chdir(argv[1])) return 9; demo(); fflush(stdout); return bad ? 1 : 0; }
