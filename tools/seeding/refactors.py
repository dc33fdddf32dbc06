#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the project: the checks have to stay quiet on all of them together.
usage: refactors.py TREE   (applies every edit to a scratch copy of /repo)"""
import sys
R = []
def r(f, a, b, n=1): R.append((f, a, b, n))
BP, MP, SU = "bounds/BoundPair.cc", "pomdpBounds/MaxPlanesLowerBound.cc", "pomdpBounds/SawtoothUpperBound.cc"
# ---- bounds
r(BP, "void BoundPair::expand(MDPNode &cn) {", """static MDPEdge *makeEdge(double prob, MDPNode *successor) {
  MDPEdge *edge = new MDPEdge();
  edge->nextState = successor;
  edge->obsProb = prob;
  return edge;
}

void BoundPair::expand(MDPNode &cn) {""")
r(BP, """      if (oprob > OBS_IS_ZERO_EPS) {
        MDPEdge *e = new MDPEdge();
        Qa.outcomes[o] = e;
        e->obsProb = oprob;
        e->nextState = getNode(problem->getNextState(sp, cn.s, a, o));
      } else {
        Qa.outcomes[o] = NULL;
      }
""", """      if (!(oprob > OBS_IS_ZERO_EPS)) {
        Qa.outcomes[o] = NULL;
        continue;
      }
      MDPNode *successor = getNode(problem->getNextState(sp, cn.s, a, o));
      Qa.outcomes[o] = makeEdge(oprob, successor);
""")
r(BP, """  string hs = hashable(s);
  MDPHash::iterator pr = lookup->find(hs);
  if (lookup->end() == pr) {
""", """  const string hs(hashable(s));
  MDPHash::iterator pr = lookup->find(hs);
  if (lookup->end() != pr) return pr->second;
  {
""")
r(BP, """    numStatesTouched++;
    return &cn;
  } else {
    // return existing node
    return pr->second;
  }
}

MDPNode *BoundPair::getNodeOrNull""", """    numStatesTouched += 1;
    return &cn;
  }
}

MDPNode *BoundPair::getNodeOrNull""")
r(BP, """    Qa.lbVal = lbVal;
    Qa.ubVal = ubVal;

    maxLBVal = std::max(maxLBVal, lbVal);
    if (ubVal > maxUBVal) {
      maxUBVal = ubVal;
      maxUBAction = a;
    }
""", """    if (maxUBVal < ubVal) {
      maxUBAction = a;
      maxUBVal = ubVal;
    }
    if (lbVal > maxLBVal) maxLBVal = lbVal;
    Qa.ubVal = ubVal;
    Qa.lbVal = lbVal;
""")
# ---- planes
r(MP, """  double val, maxVal = -99e+20;
  LBPlane betaA;

  FOR(a, cn.getNumActions()) {
    getNewLBPlaneQ(betaA, cn, a);
    val = inner_prod(betaA.alpha, cn.s);
    cn.Q[a].lbVal = val;
    if (val > maxVal) {
      maxVal = val;
      result = betaA;
    }
  }
""", """  double maxVal = -99e+20;
  int a = 0;
  while (a < static_cast<int>(cn.getNumActions())) {
    LBPlane betaA;
    getNewLBPlaneQ(betaA, cn, a);
    cn.Q[a].lbVal = inner_prod(betaA.alpha, cn.s);
    if (maxVal < cn.Q[a].lbVal) {
      result = betaA;
      maxVal = cn.Q[a].lbVal;
    }
    ++a;
  }
""")
r(MP, """  const PlaneSet *planesToCheck;
  if (useMaxPlanesSupportList) {
    planesToCheck = &supportList[b.data[0].index];
  } else {
    planesToCheck = &planes;
  }

  double val, maxval = -99e+20;
  const LBPlane *ret = NULL;
  FOR_EACH(pr, *planesToCheck) {
    const LBPlane *al = *pr;
    if (useMaxPlanesMasking) {
      if (!mask_subset(b, al->mask)) continue;
    }
    val = inner_prod(al->alpha, b);
    if (val > maxval) {
      maxval = val;
      ret = al;
    }
  }
""", """  const PlaneSet &candidates =
      useMaxPlanesSupportList ? supportList[b.data[0].index] : planes;
  const LBPlane *ret = NULL;
  double best = -99e+20;
  for (PlaneSet::const_iterator pr = candidates.begin();
       pr != candidates.end(); ++pr) {
    const LBPlane &plane = **pr;
    const bool applicable =
        !useMaxPlanesMasking || mask_subset(b, plane.mask);
    if (!applicable) continue;
    const double val = inner_prod(plane.alpha, b);
    if (best < val) {
      ret = &plane;
      best = val;
    }
  }
""")
r(MP, """  betaA *= pomdp->getDiscount();
  betaA += Rxa;

  result.alpha = betaA;
  result.action = a;
""", """  result.action = a;
  betaA *= pomdp->getDiscount();
  betaA += Rxa;
  result.alpha = betaA;
""")
r(MP, """void MaxPlanesLowerBound::addLBPlane(LBPlane *av) {
  planes.push_back(av);

  if (useMaxPlanesSupportList) {
    // add new plane to supportList
    FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }
  }
""", """void MaxPlanesLowerBound::addLBPlane(LBPlane *av) {
  if (useMaxPlanesSupportList) {
    const size_t n = av->mask.data.size();
    for (size_t i = 0; i != n; ++i) {
      supportList[av->mask.data[i].index].push_back(av);
    }
  }
  planes.push_back(av);
""")
# ---- sawtooth
r(SU, """    minRatio = std::min(minRatio, bi->value / ci->value);
""", """    const double ratio = bi->value / ci->value;
    if (ratio < minRatio) minRatio = ratio;
""")
r(SU, """  double innerCornerPtsB = inner_prod(cornerPts, b);
  double minValue = innerCornerPtsB;
  FOR_EACH(cPairP, *ptsToCheck) {
    double innerCornerPtsC = inner_prod(cornerPts, (*cPairP)->b);
    minValue = std::min(
        minValue, getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC));
  }
  return minValue;
""", """  const double atB = inner_prod(cornerPts, b);
  double lowest = atB;
  for (BVList::const_iterator it = ptsToCheck->begin();
       it != ptsToCheck->end(); ++it) {
    const BVPair *point = *it;
    const double here =
        getBVValue(b, point, atB, inner_prod(cornerPts, point->b));
    lowest = here < lowest ? here : lowest;
  }
  return lowest;
""")
r(SU, """  int non_zero_count = 0;
  int non_zero_index = -1;
  FOR(i, numStates) {
    if (fabs(b(i)) > CORNER_EPS) {
      if (non_zero_count == 0) {
        non_zero_index = i;
        non_zero_count++;
      } else {
        return -1;
      }
    }
  }
  if (non_zero_count == 0) {
    return -1;
  } else {
    return non_zero_index;
  }
""", """  int corner = -1;
  FOR_EACH(bi, b.data) {
    if (bi->value > CORNER_EPS || bi->value < -CORNER_EPS) {
      if (-1 != corner) return -1;
      corner = bi->index;
    }
  }
  return corner;
""")
r(SU, """  double val = 0;

  MDPQEntry &Qa = cn.Q[a];
  FOR(o, Qa.getNumOutcomes()) {
    MDPEdge *e = Qa.outcomes[o];
    if (NULL != e) {
      val += e->obsProb * getValue(e->nextState->s, NULL);
    }
  }
  val = Qa.immediateReward + pomdp->getDiscount() * val;
  Qa.ubVal = val;

  return val;
""", """  MDPQEntry &Qa = cn.Q[a];
  double future = 0;
  for (int o = static_cast<int>(Qa.getNumOutcomes()) - 1; o >= 0; o--) {
    const MDPEdge *e = Qa.outcomes[o];
    if (NULL == e) continue;
    future = future + e->obsProb * getValue(e->nextState->s, NULL);
  }
  return Qa.ubVal = future * pomdp->getDiscount() + Qa.immediateReward;
""")
# ---- searches
r("search/HSVI.cc", """      width = e->obsProb * (sn.ubVal - sn.lbVal -
                            trialTargetPrecision *
                                pow(problem->getDiscount(), -(depth + 1)));
""", """      const double allowed = trialTargetPrecision *
                             pow(problem->getDiscount(), -(depth + 1));
      width = ((sn.ubVal - sn.lbVal) - allowed) * e->obsProb;
""")
r("search/FRTDP.cc", """void FRTDP::update(MDPNode &cn, FRTDPUpdateResult &r) {""", """static double widthPrio(double width) {
  if (width > 0) return log(width);
  return RT_PRIO_MINUS_INFINITY;
}

void FRTDP::update(MDPNode &cn, FRTDPUpdateResult &r) {""")
r("search/FRTDP.cc", """  getPrio(cn) = std::min(r.maxPrio, (excessWidth <= 0) ? RT_PRIO_MINUS_INFINITY
                                                       : log(excessWidth));
""", """  const double ownPrio = widthPrio(excessWidth);
  getPrio(cn) = ownPrio < r.maxPrio ? ownPrio : r.maxPrio;
""")
r("search/LRTDP.cc", """  if (solvedAtNextDepth) {
    return checkSolved(cn);
  } else {
    return false;
  }
""", """  return solvedAtNextDepth && checkSolved(cn);
""")
r("search/LRTDP.cc", """  if (rv) {
    // label relevant states
    while (!closed.empty()) {
      MDPNode &n = *closed.pop();
      getIsSolved(n) = true;
    }
  } else {
    // update states with residuals and ancestors
    while (!closed.empty()) {
      MDPNode &n = *closed.pop();
      updateInternal(n);
    }
  }
""", """  for (; !closed.empty();) {
    MDPNode *n = closed.pop();
    if (rv) {
      getIsSolved(*n) = true;
    } else {
      updateInternal(*n);
    }
  }
""")
r("search/RTDPCore.cc", """  bool done = doTrial(*bounds->getRootNode());
  done = done || (bounds->numBackups >= terminateNumBackups);
""", """  MDPNode *root = bounds->getRootNode();
  const bool converged = doTrial(*root);
  const bool exhausted = bounds->numBackups >= terminateNumBackups;
  const bool done = converged || exhausted;
""")
r("search/StateLog.cc", """    FOR_CV(v) {
      out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v) << endl;
    }
""", """    out << setprecision(20);
    FOR_CV(v) { out << CV_INDEX(v) << " " << CV_VAL(v) << "\\n"; }
""")
r("search/StateLog.cc", """    if (string::npos != s.find("state")) {
      // (a state whose entries are all 0 has no entry lines)
      if (inState) {
        accum.canonicalize();
        getStateId(accum);
        accum.clear();
      }
      inState = true;
    } else {
      if (2 != sscanf""", """    const bool isHeader = string::npos != s.find("state");
    if (isHeader && inState) {
      accum.canonicalize();
      getStateId(accum);
      accum.clear();
    }
    if (isHeader) {
      inState = true;
    } else {
      if (2 != sscanf""")
# ---- evaluation
r("exec/PolicyEvaluator.cc", """      rewardSoFar = Qa.immediateReward +
                    reweight * modelCache->getDiscount() * rewardSoFar;
""", """      rewardSoFar *= modelCache->getDiscount() * reweight;
      rewardSoFar += Qa.immediateReward;
""")
r("exec/PolicyEvaluator.cc", """      if (-1 == e->userInt) {
        e->userInt = 1;
      } else {
        e->userInt++;
      }
""", """      e->userInt = (-1 == e->userInt ? 0 : e->userInt) + 1;
""")
r("exec/PolicyEvaluator.cc", """              if (fabs(probSum - 1.0) < 1e-10) {
                e->userDouble = Qa->opv(o) / (e->userInt / cntSum);
              } else {
                e->userDouble = 1.0;
              }
""", """              e->userDouble = 1.0;
              if (fabs(1.0 - probSum) < 1e-10) {
                e->userDouble = Qa->opv(o) * cntSum / e->userInt;
              }
""")
r("common/MDPSim.cc", """  rewardSoFar += pow(model->discount, elapsedTime) * imm_reward;
""", """  double weight = 1.0;
  for (int t = 0; t < elapsedTime; t++) weight *= model->discount;
  rewardSoFar += weight * imm_reward;
""")
r("common/MDPSim.cc", """  state = sp;
  elapsedTime++;
  lastOutcomeIndex = o;

  // check for termination
  if (model->getIsTerminalState(state)) {
    terminated = true;
    if (simOutFile) {
      (*simOutFile) << "terminated" << endl;
    }
  }
""", """  lastOutcomeIndex = o;
  ++elapsedTime;
  state = sp;

  terminated = model->getIsTerminalState(sp);
  if (terminated && simOutFile) {
    (*simOutFile) << "terminated" << endl;
  }
""")
# ---- common
r("common/MatrixUtils.h", """    if (b(i) <= 0) continue;  // never choose an impossible outcome
    r -= b(i);
    if (r <= 0) return i;
    last = i;
""", """    const double p = b(i);
    if (p > 0) {
      last = i;
      if (r <= p) return i;
      r = r - p;
    }
""")
r("common/MatrixUtils.h", """  double maxval = v(0);
  int max_ind = 0;
  for (unsigned int i = 1; i < v.size(); i++) {
    if (v(i) > maxval) {
      max_ind = i;
      maxval = v(i);
    }
  }
  return max_ind;
""", """  return std::max_element(v.data.begin(), v.data.end()) - v.data.begin();
""")
r("common/MatrixUtils.h", """  for (_ForwardIterator i = start; i != end; i++) {
    double x_i = *i;
    sum += x_i;
    sqsum += (x_i * x_i);
    n++;
  }
""", """  for (; start != end; ++start, ++n) {
    sum += *start;
    sqsum += (*start) * (*start);
  }
""")
r("common/MatrixUtils.h", """  unsigned int len =
      snprintf(buf, sizeof(buf), HASH_VECTOR_PRECISION, i, val);
  if (len < sizeof(buf)) {
    key.append(buf, len);
  } else {
""", """  const unsigned int len =
      snprintf(buf, sizeof(buf), HASH_VECTOR_PRECISION, i, val);
  const bool fits = len < sizeof(buf);
  if (fits) key += buf;
  if (!fits) {
""")
r("common/sla.h", """  FOR_EACH(di, data) {
    if (di->index >= index) {
      if (di->index == index) {
        return di->value;
      } else {
        return 0.0;
      }
    }
  }
  return 0.0;
}

inline void cvector::operator*=""", """  size_t lo = 0, hi = data.size();
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (data[mid].index < index) {
      lo = mid + 1;
    } else {
      hi = mid;
    }
  }
  if (lo < data.size() && data[lo].index == index) return data[lo].value;
  return 0.0;
}

inline void cvector::operator*=""")
r("common/sla.h", """inline double norm_1(const cvector &x) {
  double sum = 0.0;
  FOR_EACH(xi, x.data) { sum += fabs(xi->value); }
  return sum;
""", """inline double norm_1(const cvector &x) {
  double sum = 0.0;
  for (size_t i = x.data.size(); i > 0; i--) {
    const double v = x.data[i - 1].value;
    sum += v < 0 ? -v : v;
  }
  return sum;
""")
r("common/sla.h", """inline double sum(const dvector &x) {
  double sum = 0.0;
  FOR_EACH(xi, x.data) { sum += *xi; }
  return sum;
""", """inline double sum(const dvector &x) {
  return std::accumulate(x.data.begin(), x.data.end(), 0.0);
""")
r("common/sla.h", "#include <vector>", "#include <numeric>\n#include <vector>")
# ---- parsers
r("parsers/FastParser.cc", """static void checkProb(const CassandraModel &p, int lineNumber, double prob) {
  if (!(prob >= 0.0 && prob <= 1.0)) {
""", """static bool isProb(double x) { return x >= 0.0 && x <= 1.0; }

static void checkProb(const CassandraModel &p, int lineNumber, double prob) {
  if (!isProb(prob)) {
""")
r("parsers/FastParser.cc", """      if (!(vals[i] >= 0.0 && vals[i] <= 1.0)) {
""", """      if (!isProb(vals[i])) {
""")
r("parsers/FastParser.cc", """      vals.push_back(atof(tok));
""", """      vals.push_back(strtod(tok, NULL));
""")
r("parsers/FastParser.cc", """    if (fabs(sum(p.initialBelief) - 1.0) > POMDP_READ_ERROR_EPS) {
""", """    const double excess = sum(p.initialBelief) - 1.0;
    if (excess > POMDP_READ_ERROR_EPS || excess < -POMDP_READ_ERROR_EPS) {
""")
r("parsers/CassandraParser.cc", """    dvector initialBeliefD;
    initialBeliefD.resize(p.numStates);
    FOR(s, p.numStates) {
      initialBeliefD(s) = CASSANDRA_GLOBAL(gInitialBelief[s]);
    }
    copy(p.initialBelief, initialBeliefD);
""", """    p.initialBelief.resize(p.numStates);
    FOR(s, p.numStates) {
      const double share = CASSANDRA_GLOBAL(gInitialBelief[s]);
      if (fabs(share) > SPARSE_EPS) p.initialBelief.push_back(s, share);
    }
""")
# ---- main
r("main/TestDriver.cc", """    if (so.bounds->maintainLowerBound && so.bounds->maintainUpperBound &&
        minPrecision > 0) {
      if ((root->ubVal - root->lbVal) <= minPrecision) {
        solverFinished = true;
      }
    }
    if (so.bounds->maintainLowerBound && terminateLowerBoundValue != -999) {
      if (root->lbVal >= terminateLowerBoundValue) {
        solverFinished = true;
      }
    }
""", """    const bool haveLower = so.bounds->maintainLowerBound;
    const bool haveUpper = so.bounds->maintainUpperBound;
    solverFinished |= haveLower && terminateLowerBoundValue != -999 &&
                      root->lbVal >= terminateLowerBoundValue;
    solverFinished |= haveLower && haveUpper && minPrecision > 0 &&
                      root->ubVal - root->lbVal <= minPrecision;
""")
if __name__ == "__main__":
    tree = sys.argv[1]; only = sys.argv[2:]; bad = 0
    for i, (f, a, b, n) in enumerate(R):
        if only and str(i) not in only: continue
        p = "%s/src/%s" % (tree, f); t = open(p).read()
        if t.count(a) != n: print("edit %d: %d occurrences in %s" % (i, t.count(a), f)); bad = 1; continue
        open(p, "w").write(t.replace(a, b))
    print(len(R), "edits"); sys.exit(bad)
