// Racetracks with symbolic cells, and the published rules as an oracle.
#ifndef TRACK_H_
#define TRACK_H_
#include "mdp_fam.h"
#include "RaceTrack.h"
#include "RelaxUBInitializer.h"
struct ZTrack {
  std::vector<std::string> rows; double gamma = 1, err = 0.25; bool wind = false; double maxCost = 1000; bool useMax = true;
  std::string text() const {
    std::string r = "discount " + sym_text(gamma) + "\nerrorProbability " + sym_text(err) + "\nuseMaxCost " + (useMax ? "1" : "0") + "\nmaxCost " + sym_text(maxCost) + "\nuseErrorIsWind " + (wind ? "1" : "0") + "\n---\n";
    for (auto &l : rows) r += l + "\n";
    return r;
  }
  std::string write(const char *n) const { std::string p = zpath(n); zwrite(p, text()); return p; }
  char at(int x, int y) const { return rows[y][x]; }
  bool fin(int x, int y) const { return at(x, y) == 'f'; }
  bool wall(int x, int y) const { return at(x, y) == '@'; }
};
// rows with '?' replaced by any of the given cell kinds
inline ZTrack ztrack(std::vector<std::string> rows, const char *kinds) {
  ZTrack t; int n = strlen(kinds), k = 0;
  for (auto &l : rows) for (char &c : l) if (c == '?') c = kinds[sym_int(zfmt("cell%d", k++).c_str(), 0, n - 1)];
  t.rows = rows; return t;
}
#endif
