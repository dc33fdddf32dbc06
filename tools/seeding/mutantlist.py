MP = "pomdpBounds/MaxPlanesLowerBound.cc"; SU = "pomdpBounds/SawtoothUpperBound.cc"; BP = "bounds/BoundPair.cc"
m("mp-default-beta", "P05 P02", MP, "defaultBetaAO = &getPlaneForNode(cn).alpha;", "defaultBetaAO = betaAO ? betaAO : &getPlaneForNode(cn).alpha;")
m("mp-q-lbval-stale", "P05", MP, "cn.Q[a].lbVal = val;\n    if (val > maxVal) {", "if (val > maxVal) {\n      cn.Q[a].lbVal = val;")
m("mp-init-age", "P06", MP, "FOR_EACH(planeP, planes) { (*planeP)->numBackupsAtCreation = 0; }", "FOR_EACH(planeP, planes) { (*planeP)->numBackupsAtCreation = 1 << 20; }")
m("mp-support-first-only", "P06", MP, "FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }", "supportList[av->mask.data.begin()->index].push_back(av);")
m("mp-prune-age-or", "P06 P04", MP, "if (candidate->numBackupsAtCreation <= lastPruneNumBackups &&\n          member->numBackupsAtCreation", "if (candidate->numBackupsAtCreation <= lastPruneNumBackups ||\n          member->numBackupsAtCreation")
m("mp-prune-winner-lost", "P06 P04", MP, "planes.push_front(member);\n", "if (planes.size() < 2) planes.push_front(member);\n")
m("mp-prune-both", "P06 P04", MP, "        memberP = eraseElement(planes, memberP);\n        continue;", "        memberP = eraseElement(planes, memberP);\n        if (memberP == candidateP) break;\n        continue;")
m("mp-cache-newer", "P06 P04", MP, "if (al->numBackupsAtCreation < lastSetPlaneNumBackups) continue;", "if (al->numBackupsAtCreation <= lastSetPlaneNumBackups + 1) continue;")
m("mp-setplane-no-guard", "P06 P04", MP, "if (newLB < cn.lbVal - ZMDP_BOUNDS_PRUNE_EPS) {", "if (newLB < cn.lbVal - 1e+3) {")
m("mp-const-masksubset", "P02 P06", MP, "    const LBPlane *al = *pr;\n    if (useMaxPlanesMasking) {\n      if (!mask_subset(b, al->mask)) continue;", "    const LBPlane *al = *pr;\n    if (useMaxPlanesMasking && planes.size() > 3) {\n      if (!mask_subset(b, al->mask)) continue;")
m("mp-mask-beta-self", "P05", MP, "mask_copy(maskedBeta, *betaAO, e->nextState->s);", "mask_copy(maskedBeta, *betaAO, cn.s);")
m("mp-write-precision", "P12", MP, 'out << "        " << i << ", " << alpha(i) << "";', 'out << "        " << i << ", " << static_cast<float>(alpha(i)) << "";')
m("mp-read-mask-first", "P12", MP, "          mask_set_to_one(plane.mask, plane.alpha);\n          addLBPlane(new LBPlane(plane));\n          parseState = 1;", "          if (planes.empty()) mask_set_to_one(plane.mask, plane.alpha);\n          addLBPlane(new LBPlane(plane));\n          parseState = 1;")
m("mp-cassandra-mask", "P12", MP, "      plane.alpha.push_back(i, val);\n    }\n    addLBPlane", "      if (val != 0.0 || i > 0) plane.alpha.push_back(i > 1 && val == 0.0 ? 1 : i, val);\n    }\n    addLBPlane")
m("mp-read-last-dropped", "P12", MP, "  if (2 == parseState) {\n    mask_set_to_one", "  if (2 == parseState && plane.alpha.filled() > 1) {\n    mask_set_to_one")
m("mp-write-dense-skip", "P12", MP, "FOR(i, n - 1) { out <<", "FOR(i, n - 1) if (alpha(i) != 0.0 || i == 0) { out <<")
m("bp-getq-obs-skip", "P05 P13", BP, "      if (maintainUpperBound) {\n        ubVal += opv(o) * upperBound->getValue(sp, spn);", "      if (maintainUpperBound && (spn || !maintainLowerBound)) {\n        ubVal += opv(o) * upperBound->getValue(sp, spn);")
m("bp-choose-lb-node", "P13", BP, "lbVal += opv(o) * lowerBound->getValue(sp, getNodeOrNull(sp));", "lbVal += opv(o) * lowerBound->getValue(sp, getNodeOrNull(s));")
m("bp-choose-ub-lasttie", "P13", BP, "    ubVal = problem->getReward(s, a) + problem->getDiscount() * ubVal;\n    if (ubVal > maxVal) {", "    ubVal = problem->getReward(s, a) + problem->getDiscount() * ubVal;\n    if (ubVal > maxVal + 1e-3) {")
m("bp-dual-ubaction-first", "P08", BP, "    if (ubVal > maxUBVal) {\n      maxUBVal = ubVal;\n      maxUBAction = a;\n    }\n  }\n#if 1", "    if (ubVal > maxUBVal) {\n      maxUBVal = ubVal;\n      if (-1 == maxUBAction || ubVal < cn.ubVal) maxUBAction = a;\n    }\n  }\n#if 1")
m("bp-expand-qub", "P05 P08 P02", BP, "Qa.ubVal = BP_QVAL_UNDEFINED;", "Qa.ubVal = 0;")
m("su-usecache-break", "P05 P02", SU, "    maxUBAction = argmax_elt(cachedUpperBound);\n\n    // if the best", "    if (cn.ubVal <= val) break;\n    maxUBAction = argmax_elt(cachedUpperBound);\n\n    // if the best")
m("su-terminal-nopoint", "P02 P04 P07", SU, "setUBForNode(cn, 0, true);", "setUBForNode(cn, 0, cn.s.filled() > 1);")
m("su-minratio-first", "P07", SU, "minRatio = std::min(minRatio, bi->value / ci->value);", "minRatio = (minRatio > 1e+20) ? bi->value / ci->value : std::min(minRatio, bi->value / ci->value) ;\n    if (ci + 1 == cend && minRatio < bi->value) minRatio = bi->value;")
m("su-prune-cornercache", "P07 P04", SU, "    pt->innerCornerCache = inner_prod(cornerPts, pt->b);", "    if (pt->numBackupsAtCreation > lastPruneNumBackups) pt->innerCornerCache = inner_prod(cornerPts, pt->b);")
m("su-prune-age", "P07", SU, "} else if (candidate->numBackupsAtCreation <= lastPruneNumBackups &&\n                 opponent", "} else if (candidate->numBackupsAtCreation <= lastPruneNumBackups ||\n                 opponent")
m("su-corner-eps", "P07", SU, "#define CORNER_EPS (1e-6)", "#define CORNER_EPS (1e-1)")
m("su-corner-nomin", "P04 P07", SU, "std::min(getNewUBValue(cn, maxUBActionP), cn.ubVal)", "getNewUBValue(cn, maxUBActionP)")
m("su-erase-support", "P07", SU, "          eraseElement(bvl, eltP);\n          break;", "          if (bvl.size() > 2) eraseElement(bvl, eltP);\n          break;")
m("blind-terminal", "P03", "pomdpBounds/BlindLBInitializer.cc", "worstCaseDVector(i) = 0.0;", "worstCaseDVector(i) = std::min(0.0, worstCaseLongTerm) * 0;\n      if (pomdp->maxHorizon > 2) worstCaseDVector(i) = 1;")
m("blind-horizon", "P03", "pomdpBounds/BlindLBInitializer.cc", "std::min(longTermFactor, static_cast<double>(pomdp->maxHorizon));", "std::max(longTermFactor, static_cast<double>(pomdp->maxHorizon));")
m("blind-oneiter", "P03", "pomdpBounds/BlindLBInitializer.cc", "copy_from_column(tmp, pomdp->R, a);\n      nextAl += tmp;", "copy_from_column(tmp, pomdp->R, a);\n      nextAl += tmp;\n      if (nextAl(0) < al(0)) break;")
m("fib-max-o", "P03", "pomdpBounds/FastInfUBInitializer.cc", "          if (0 == i) {", "          if (0 == i && 0 == o) {")
m("fib-terminal", "P03", "pomdpBounds/FastInfUBInitializer.cc", "      dalpha(i) = 0.0;", "      dalpha(i) = std::min(dalpha(i), -1.0);")
m("fullobs-loop", "P03", "pomdpBounds/FullObsUBInitializer.cc", "if (naa(s) > nextAlpha(s)) nextAlpha(s) = naa(s);", "if (naa(s) > alpha(s)) nextAlpha(s) = naa(s);")
m("hsvi-depth", "P10 P02 P11", "search/HSVI.cc", "pow(problem->getDiscount(), -(depth + 1)));", "pow(problem->getDiscount(), -(depth + 1) * 40));")
m("hsvi-term", "P11", "search/HSVI.cc", "return (cn.ubVal - cn.lbVal < targetPrecision);", "return (cn.ubVal - cn.lbVal < std::max(targetPrecision, trialTargetPrecision));")
m("hsvi-no-post", "P10", "search/HSVI.cc", "               nextLogOcc, depth + 1);\n\n  update(cn, depth, r);", "               nextLogOcc, depth + 1);\n\n  if (r.ubResidual > 0) update(cn, depth, r);")
m("frtdp-term", "P11", "search/FRTDP.cc", "return (cn.ubVal - cn.lbVal < targetPrecision);", "return (cn.ubVal - cn.lbVal < targetPrecision) || (0 == newNumUpdates && numTrials > 2);")
m("frtdp-prio-null", "P10 P11", "search/FRTDP.cc", "    if (NULL != e) {\n      prio =", "    if (NULL != e && e->obsProb < 1.0) {\n      prio =")
m("lrtdp-closed-terminal", "P11", "search/LRTDP.cc", "if (residual(n) > targetPrecision) {\n      rv = false;\n      continue;", "if (residual(n) > targetPrecision) {\n      rv = closed.size() > 2;\n      continue;")
m("lrtdp-noopencheck", "P11", "search/LRTDP.cc", "!getIsSolved(sn) && !open.contains(&sn) && !closed.contains(&sn)", "!getIsSolved(sn) && !open.contains(&sn) && !closed.contains(&sn) && e->obsProb > 0.25")
m("lrtdp-cacheq-order", "P11 P10", "search/LRTDP.cc", "  cn.ubVal = cn.Q[maxUBAction].ubVal;\n}", "  cn.ubVal = cn.Q[0].ubVal;\n}")
m("hdp-flag", "P11", "search/HDP.cc", "          flag = true;", "          flag = (o == 0) || flag;\n          if (o > 0) flag = flag && true;")
m("hdp-flag2", "P11", "search/HDP.cc", "        if (trialRecurse(sn, depth + 1)) {\n          flag = true;\n        }", "        flag = trialRecurse(sn, depth + 1);")
m("hdp-idxreset", "P11", "search/HDP.cc", "searchData->low = RT_IDX_PLUS_INFINITY;", "searchData->low = 0;")
m("hdp-stack", "P11", "search/HDP.cc", "} else if (nodeStack.contains(&sn)) {", "} else if (nodeStack.top() == &sn) {")
m("rtdp-terminal", "P10", "search/RTDP.cc", "  if (cn.isTerminal) {", "  if (cn.isTerminal || depth > 50) {")
m("core-numbackups", "P29", "search/RTDPCore.cc", "done = done || (bounds->numBackups >= terminateNumBackups);", "done = done || (numTrials >= terminateNumBackups);")
m("core-elapsed", "P29", "search/RTDPCore.cc", "boundsStartTime = getTime() - previousElapsedTime;", "boundsStartTime = getTime();")
m("core-log-queried", "P25", "search/RTDPCore.cc", "  FOR_EACH(node, backedUpNodes) { log.addState((*node)->s); }", "  FOR_EACH(node, backedUpNodes) { if (!(*node)->isTerminal) log.addState((*node)->s); }")
m("core-trackbackup", "P25", "search/RTDPCore.cc", "    backedUpNodes.push_back(&backedUpNode);", "    if (backedUpNodes.empty() || backedUpNodes.back() != &backedUpNode) backedUpNodes.push_back(&backedUpNode);")
m("sim-discount", "P14", "common/MDPSim.cc", "rewardSoFar += pow(model->discount, elapsedTime) * imm_reward;", "rewardSoFar += pow(model->discount, std::min(elapsedTime, 2)) * imm_reward;")
m("sim-terminated", "P14", "common/MDPSim.cc", "  elapsedTime = 0;\n  rewardSoFar = 0;", "  if (!terminated) elapsedTime = 0;\n  rewardSoFar = 0;")
m("exec-advance", "P13", "exec/BoundPairExec.cc", "mdp->getNextState(nextState, currentState, a, o);", "mdp->getNextState(nextState, currentState, a, o);\n  if (mdp->getIsTerminalState(nextState)) nextState = mdp->getInitialState();")
m("pe-cnt", "P14", "exec/PolicyEvaluator.cc", "e->userDouble = Qa->opv(o) / (e->userInt / cntSum);", "e->userDouble = Qa->opv(o) / (e->userInt / (double)numTrials);")
m("pe-clear", "P14", "exec/PolicyEvaluator.cc", "            e->userInt = -1;", "            if (o > 0) e->userInt = -1;")
m("pe-batchavg", "P14", "exec/PolicyEvaluator.cc", "rewards(i) = sum(batchRewards) / numTrialsPerBatch;", "rewards(i) = sum(batchRewards) / std::max<int>(1, batchRewards.size() - (i > 0));")
m("pe-successsum", "P14 P29", "exec/PolicyEvaluator.cc", "successRate = successRateSum / numBatches;", "successRate = (successRateSum > 1.0) ? 1.0 : successRateSum / numBatches;")
m("plb-getvalue", "P08 P13", "bounds/PointLowerBound.cc", "  if (NULL == cn) {\n    return initBound", "  if (NULL == cn || cn->isFringe()) {\n    return initBound")
m("plb-terminal", "P08 P10", "bounds/PointLowerBound.cc", "    cn.lbVal = 0;", "    cn.lbVal = std::min(0.0, initBound->getValue(cn.s, NULL));")
m("pomdp-terminal", "P26", "pomdpCore/Pomdp.cc", "return (nonTerminalSum < 1e-10);", "return (nonTerminalSum < 1e-3);")
m("cass-terminal", "P26", "parsers/CassandraModel.cc", "|| R(s, a) != 0.0) {", "|| R(s, a) > 0.0) {")
FP = "parsers/FastParser.cc"
m("fp-dup-entry", "P16", FP, "kmatrix_set_entry(Tx[a], s, sp, prob);", "if (prob < 1.0 || s == sp || 0 == Tx[a].data.size()) kmatrix_set_entry(Tx[a], s, sp, prob);")
m("fp-sumcheck-a0", "P17", FP, "      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing", "      if (sum(checkTmp) - 1.0 > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing")
m("fp-comment", "P16", FP, "    if ('#' == buf[0]) continue;\n    trimTrailingWhiteSpace(buf);", "    trimTrailingWhiteSpace(buf);\n    if (NULL != strchr(buf, '#')) continue;")
m("fp-range", "P17", FP, 'checkIndex(p, lineNumber, "observation", o, p.numObservations);', 'checkIndex(p, lineNumber, "observation", o, std::max(p.numStates, p.numObservations));')
RX = "pomdpModels/RockExplore/RockExplore.cc"; RB = "pomdpModels/RockExplore/REBasicPomdp.cc"; RP = "pomdpModels/RockExplore/RockExplorePolicy.cc"; RZ = "pomdpModels/RockExplore/zmdpRockExplore.cc"
m("re-exit-west", "P30", RX, "nextState.robotPos.x == RE_WIDTH)", "nextState.robotPos.x == RE_WIDTH ||\n                   (nextState.robotPos.x < 0 && RE_HEIGHT < 2))")
m("re-sample-stays-good", "P30", RX, "nextState.rockIsGood[r] = false;", "nextState.rockIsGood[r] = s.rockIsGood[r] && r == RE_NUM_ROCKS - 1;")
m("re-manhattan", "P30", RX, "std::abs(rpos.x - s.robotPos.x) + std::abs(rpos.y - s.robotPos.y)", "(rpos.x - s.robotPos.x) + (rpos.y - s.robotPos.y)")
m("re-illegal-moves", "P30", RX, "result.outcomes.push_back(REBeliefEntry(1.0, si));\n        }\n        break;\n      case ACT_SAMPLE", "result.outcomes.push_back(\n              REBeliefEntry(1.0, nextState.robotPos.y < 0 ? si : getStateId(s)));\n        }\n        break;\n      case ACT_SAMPLE")
m("re-terminal-obs", "P30", RX, "if (a.actionType == ACT_CHECK && !s.isTerminalState) {", "if (a.actionType == ACT_CHECK && !s.isTerminalState &&\n      s.robotPos.x != RE_WIDTH - 2) {")
m("re-belief-order", "P30", RX, "for (int rr = r + 1; rr < RE_NUM_ROCKS; rr++) {", "for (int rr = r + 2; rr < RE_NUM_ROCKS; rr++) {")
m("re-update-prior-obs", "P30", RB, "bpDense[sp] += b[i].prob * out.outcomes[j].prob * getObsProb(ai, sp, o);", "bpDense[sp] += b[i].prob * out.outcomes[j].prob * getObsProb(ai, si, o);")
m("re-update-overwrite", "P30", RB, "bpDense[sp] += b[i].prob", "bpDense[sp] = b[i].prob")
m("re-reward-last", "P30", RB, "result.expectedReward += b[i].prob * out.reward;", "result.expectedReward += b[0].prob * out.reward;")
m("re-visited", "P30", RB, "visited[si] = true;", "visited[si] = true;\n      if (states[si].isTerminalState) break;")
m("re-write-start", "P30", RB, '"%10.8lf "', '"%10.2lf "')
m("re-write-obs", "P30", RB, "double obsProb = getObsProb(ai, si, o);", "double obsProb = getObsProb(ai, si, states[si].isTerminalState ? o : (o + (ai == 5 + 3)) % 2);")
m("re-likeliest-ge", "P30", RB, "if (b[i].prob > maxProb) {\n      maxProb = b[i].prob;", "if (b[i].prob > maxProb) {\n      maxProb = b[0].prob;")
m("re-vote-count", "P32", RP, "voteTotals[vfn.getMaxQAction(s)] += b[i].prob;", "voteTotals[vfn.getMaxQAction(s)] += 1.0;")
m("re-likely-qmdp", "P32", RP, "return vfn.getMaxQAction(m.getMostLikelyState(b));", "return vfn.getMaxQAction(b[b.size() / 2].index);")
m("re-dual-threshold", "P32", RP, "#define DUAL_MODE_ENTROPY_THRESHOLD (0.1)", "#define DUAL_MODE_ENTROPY_THRESHOLD (0.2)")
m("re-dual-unweighted", "P32", RP, "sumHBar += out.obsProbs[o] * getHBar(nextBelief);", "sumHBar += getHBar(nextBelief) / m.getNumObservations();")
m("re-sweep-in-place", "P32", RP, "Vp[s] = getUpdatedValue(s);\n    maxResidual = std::max(maxResidual, fabs(V[s] - Vp[s]));", "Vp[s] = getUpdatedValue(s);\n    maxResidual = std::max(maxResidual, fabs(V[s] - Vp[s]));\n    V[s] = Vp[s];")
m("re-sweep-residual", "P32", RP, "fabs(V[s] - Vp[s])", "Vp[s] - V[s]")
m("re-q-discount", "P32", RP, "return out.expectedReward + RE_DISCOUNT * nextStateVal;", "return out.expectedReward + nextStateVal;")
m("re-sim-discount", "P32", RZ, "pow(RE_DISCOUNT, timeStep)", "pow(RE_DISCOUNT, timeStep + 1)")
m("re-sim-reset", "P32", RZ, "    totalReward = 0;", "    if (mode != MODE_EVAL) totalReward = 0;")
m("re-sim-obs-state", "P32", RZ, "m.getObsProbs(ai, sp)", "m.getObsProbs(ai, si)")
m("re-sim-101", "P32", RZ, "timeStep >= maxSteps", "timeStep > maxSteps")
m("re-eval-n", "P32", RZ, "sqrt(static_cast<double>(n))", "sqrt(static_cast<double>(n - 1))")
m("re-table-rock-order", "P32", RZ, "rgood & (1 << (RE_NUM_ROCKS - r - 1))", "rgood & (1 << r)")
m("re-report-shift", "P32", RZ, "results[i] = evaluatePolicy(i);", "results[NUM_POLICIES + 1 - i] = evaluatePolicy(NUM_POLICIES + 1 - i);")
m("re-policy-name", "P32", RP, '"mostLikely",', '"most-likely",')
m("re-advance-initial", "P32", RP, "b = m.getUpdatedBelief(b, a, o);", "b = m.getUpdatedBelief(a < 4 ? m.getInitialBelief() : b, a, o);")
# zmdp evaluate
m("ev-policytype","P33","main/zmdp.cc",'''policyType == "maxPlanes" || policyType == "cassandraAlpha"''','''policyType != "lspath" && policyType != "lsblind"''')
m("ev-planner-swap","P33","main/zmdp.cc",'''bpExec->initReadFiles(plannerModelFileName, policyFileName, config);''','''bpExec->initReadFiles(simModelFileName, policyFileName, config);''')
m("ev-identical","P33","main/zmdp.cc",'''    simPomdp = new Pomdp(simModelFileName, &config);

    if''','''    simPomdp = new Pomdp(simModelFileName, &config);
    assumeIdenticalModels = mdpExec != NULL;

    if''')
m("ev-mismatch-or","P33","main/zmdp.cc",'''(plannerPomdp->getNumActions() == simPomdp->getNumActions()) &&''','''(plannerPomdp->getNumActions() == simPomdp->getNumActions()) ||''')
m("ev-conf","P33","main/zmdp.cc",'''                               0.05,  // 95''','''                               0.1,  // 95''')
m("ev-lspath","P33","main/zmdp.cc",'''if (policyType == "lspath" && 0 ==''','''if (policyType == "lsblind" && 0 ==''')
m("ev-trace-off","P33","exec/PolicyEvaluator.cc",'''            std::max(0, simulationTracesToLogPerEpoch - startTrialIndex));''','''            std::max(0, simulationTracesToLogPerEpoch - i));''')
m("ev-cache-action","P33","exec/PolicyEvaluator.cc",'''if (!assumeIdenticalModels || -1 == simState->userInt) {''','''if (-1 == simState->userInt) {''')
m("ev-cache-reset","P33 P14","exec/PolicyEvaluator.cc",'''            e->userInt = -1;
          }''','''            if (o > 0) e->userInt = -1;
          }''')
m("ev-cache-advance","P33","exec/PolicyEvaluator.cc",'''        exec->advanceToNextState(a, o);
      }
      if (simState->isTerminal)''','''        if (j > 0) exec->advanceToNextState(a, o);
      }
      if (simState->isTerminal)''')
m("ev-step-limit","P33 P14","exec/PolicyEvaluator.cc",'''         (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
         j++) {
      int a = exec->chooseAction();''','''         (j <= evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
         j++) {
      int a = exec->chooseAction();''')
m("ev-restart","P33 P14","exec/PolicyEvaluator.cc",'''    sim->restart();
    exec->setToInitialState();''','''    sim->restart();
    if (0 == i) exec->setToInitialState();''')
m("ev-fast","P33","exec/BoundPairExec.cc",'''  } else if (policyType == "cassandraAlpha") {''','''  } else if (policyType == "cassandraAlpha" && !useFastModelParser) {''')
m("ev-batch-count","P33 P14","exec/PolicyEvaluator.cc",'''rewards(i) = sum(batchRewards) / numTrialsPerBatch;''','''rewards(i) = sum(batchRewards) / std::min(numTrialsPerBatch, 2);''')
# LifeSurvey tools
LSD = "pomdpModels/lifeSurvey/"
m("lt-dump-x","P34",LSD+"dumpMap.cc","x < g.width; x++","x + 1 < g.width; x++")
m("lt-targets-region","P34",LSD+"genTargetLocations.cc","m.grid.setCell(LSPos(x, y), hasTarget);","m.grid.setCell(LSPos(x, y), hasTarget || r > 1);")
m("lt-targets-noise","P34",LSD+"genTargetLocations.cc","noisyPriors[r] *= (1.0 + noise);","noisyPriors[r] *= (1.0 + fabs(noise));")
m("lt-targets-prior","P34",LSD+"genTargetLocations.cc","double prob = noisyPriors[r];","double prob = m.regionPriors[r];")
m("lt-stats-level","P34",LSD+"calcLSTrialStats.cc","if (newRewardLevel > oldRewardLevel) {","if (newRewardLevel != oldRewardLevel) {")
m("lt-stats-illegal-pos","P34",LSD+"calcLSTrialStats.cc","        numIllegalActions++;\n","        numIllegalActions++;\n        if (a.useSample) numSamples++;\n")
m("lt-stats-discount","P34",LSD+"calcLSTrialStats.cc","    step++;\n","    if (LS_ACT_LOOK != a.type) step++;\n")
m("lt-stats-first","P34",LSD+"calcLSTrialStats.cc","regionRewards[r] = 1;","regionRewards[0] = 1;")
m("lt-inlist","P34",LSD+"LifeSurvey.cc","if (targetP->x == pos.x && targetP->y == pos.y) {","if (targetP->x == pos.x && targetP->y <= pos.y) {")

# ---- linear algebra, sampling, statistics (P19, P24, P15)
SL = "common/sla.h"; MU = "common/MatrixUtils.h"
m("sl-sub-tail", "P19", SL, "      result.push_back(yi->index, -yi->value);\n    }\n  }", "      result.push_back(yi->index, yi->value);\n    }\n  }")
m("sl-sub-inner", "P19", SL, "      result.push_back(yind, -yi->value);\n      yi++;", "      result.push_back(yind, yi->value);\n      yi++;")
m("sl-dom-ytail", "P19 P04 P06", SL, "    for (; yi != yend; yi++) {\n      if (0 < yi->value - eps) return false;", "    for (; yi != yend; yi++) {\n      if (eps < yi->value - 2 * eps) return false;")
m("sl-dom-xneg", "P19 P04 P06", SL, "      if (xi->value < -eps) return false;\n      xi++;", "      if (xi->value < -1) return false;\n      xi++;")
m("sl-copy-signed", "P19", SL, "    if (fabs(*xi) > SPARSE_EPS) {\n      result.push_back(i, *xi);", "    if ((*xi) > SPARSE_EPS || (*xi) < -1) {\n      result.push_back(i, *xi);")
m("sl-copy-km-signed", "P19 P16", SL, "    if (fabs(entry->value) > SPARSE_EPS) {", "    if (entry->value > SPARSE_EPS || entry->value < -1e-3) {")
m("sl-mult-sparse-neg", "P19", SL, "      if (fabs(ai->value) > SPARSE_EPS) {\n        result.data.push_back(*ai);", "      if (ai->value > SPARSE_EPS) {\n        result.data.push_back(*ai);")
m("sl-mult-sparse-last", "P19", SL, "      accum += tmp;\n", "      if (tmp.filled() || accum.filled() == 0) accum += tmp; else accum = tmp;\n")
m("sl-canon-first", "P19 P16", SL, "      d.back() = data[i];\n", "      if (d.back().value == 0) d.back() = data[i];\n")
m("sl-canon-major", "P19", SL, "((lhs.c == rhs.c) && (lhs.r < rhs.r))", "((lhs.c == rhs.c) && (lhs.r > rhs.r))")
m("sl-cm-canon", "P19", SL, "      col_starts[i + 1] = col_starts[i];\n", "      col_starts[i + 1] = i ? col_starts[i] : col_starts[i + 1];\n")
m("sl-norminf", "P19", SL, "    val = fabs(xi->value);\n", "    val = xi->value;\n")
m("sl-norminf-d", "P19", SL, "    val = fabs(*xi);\n", "    val = (*xi);\n")
m("sl-norm1", "P19", SL, "{ sum += fabs(xi->value); }", "{ sum += xi->value; }")
m("sl-cvec-get", "P19", SL, "    if (di->index >= index) {\n      if (di->index == index) {\n        return di->value;\n      } else {\n        return 0.0;\n      }\n    }\n  }\n  return 0.0;\n}\n\ninline void cvector::operator*=", "    if (di->index >= index) {\n      return di->value;\n    }\n  }\n  return 0.0;\n}\n\ninline void cvector::operator*=")
m("sl-emult-skip", "P19 P01", SL, "          result.push_back(xi->index, xi->value * yi->value);\n        }", "          result.push_back(xi->index, xi->value * yi->value);\n          yi++;\n        }")
m("sl-inner-skip", "P19 P01", SL, "          sum += xi->value * yi->value;\n        }\n        break;", "          sum += xi->value * yi->value;\n        } else if (yi->index > xi->index + 1) {\n          return sum;\n        }\n        break;")
m("sl-km-lookup", "P19", SL, "    if (di->r == r && di->c == c) {\n      return di->value;", "    if (di->r == r && di->c >= c) {\n      return di->value;")
m("sl-maxassign", "P19", SL, "    if (xval > (*ri)) (*ri) = xval;", "    if (xval > (*ri) && xval > 0) (*ri) = xval;")
m("sl-emax", "P19", SL, "(*ri) = std::max(*xi, *yi);", "(*ri) = std::max(*ri, std::max(*xi, *yi));")
m("sl-write-prec", "P19", SL, "FOR_EACH(x, data) { out << (*x) << std::endl; }", "FOR_EACH(x, data) { out << static_cast<float>(*x) << std::endl; }")
m("sl-transpose-nosort", "P19 P16", SL, "  FOR_EACH(Ai, A.data) { std::swap(Ai->r, Ai->c); }\n  A.canonicalize();", "  FOR_EACH(Ai, A.data) { std::swap(Ai->r, Ai->c); }")
m("mu-argmax-dense-tie", "P19 P13", MU, "    if (v(i) > maxval) {", "    if (v(i) > maxval + 1e-12) {")
m("mu-argmax-neg", "P19", MU, "    return ind + 1;", "    return 0;")
m("mu-argmax-gap", "P19", MU, "      if (ind - last_ind > 1) {\n        return ind - 1;", "      if (ind - last_ind > 1) {\n        return last_ind;")
m("mu-argmax-full", "P19", MU, "if (maxval >= 0 || v.filled() == v.size()) {", "if (maxval >= 0 || v.filled() > 1) {")
m("mu-choose-lt", "P15", MU, "    r -= b(i);\n    if (r <= 0) return i;", "    if (r <= 0 && i) return i;\n    r -= b(i);\n    if (r <= 0) return i;")
m("mu-choose-c", "P15", MU, "    if (r <= 0) return CV_INDEX(b);\n", "    if (r < 0) return CV_INDEX(b);\n")
m("mu-unit-rand", "P15", MU, "(static_cast<double>(std::rand())) / RAND_MAX", "(static_cast<double>(std::rand())) / (RAND_MAX / 2 + 1)")
m("mu-hash-prec", "P09", "common/slaMatrixUtils.h", '#define HASH_VECTOR_PRECISION "%6d:%15.9lf "', '#define HASH_VECTOR_PRECISION "%6d:%15.3lf "')
m("mu-hash-abs", "P09", MU, "FOR_CV(b) { appendHashEntry(key, CV_INDEX(b), CV_VAL(b)); }", "FOR_CV(b) { if (CV_VAL(b) != 0) appendHashEntry(key, CV_INDEX(b) % 1000, CV_VAL(b)); }")
m("mu-stdev-n", "P24", MU, "sqrt((sqsum - (sum * sum) / n) / (n - 1))", "sqrt((sqsum - (sum * sum) / n) / n)")
m("mu-stdev-two", "P24", MU, "  if (n > 1) {\n    stdev", "  if (n > 2) {\n    stdev")
m("mu-quantile-shift", "P24", MU, "double x = p * n - 0.5;", "double x = p * (n - 1);")
m("mu-quantile-noint", "P24", MU, "return sortedVals(i) + r * (sortedVals(i + 1) - sortedVals(i));", "return sortedVals(r > 0.5 ? i + 1 : i);")
m("mu-boot-last", "P24", MU, "int k = std::min(static_cast<int>(unit_rand() * n), n - 1);", "int k = std::min(static_cast<int>(unit_rand() * (n - 1)), n - 1);")
m("mu-boot-nosort", "P24", MU, "  std::sort(bvals.data.begin(), bvals.data.end());\n", "  std::sort(bvals.data.begin() + 1, bvals.data.end());\n")
m("mu-boot-alpha", "P24", MU, "quantile2 = getQuantile(bvals, (1.0 - alpha / 2));", "quantile2 = getQuantile(bvals, (1.0 - alpha));")
m("mu-sparserep-order", "P19 P36", MU, "return fabs(lhs.val) > fabs(rhs.val);", "return lhs.val > rhs.val;")

# ---- racetrack (P20)
RT = "mdps/RaceTrack.cc"
m("rt-tie-plot", "P20", RT, "      if (eps > -adx) RT_PLOT(x, y);", "      if (eps >= -adx) RT_PLOT(x, y);")
m("rt-tie-lt", "P20", RT, "    if (eps < adx) RT_PLOT(x, y);", "    if (eps <= adx) RT_PLOT(x, y);")
m("rt-noplot0", "P20", RT, "  RT_PLOT(0, 0);\n", "  if (adx) { RT_PLOT(0, 0); }\n")
m("rt-swap", "P20", RT, "    std::swap(c21, c22);\n", "    std::swap(c21, c22);\n    if (c11 == 0 && adx == 2 * ady) c12 = abs(c12);\n")
m("rt-wind-day", "P20", RT, "static int day[] = {0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 1};", "static int day[] = {0, 0, 0, -1, 0, 1, -1, 1, -1, 0, -1};")
m("rt-wind-dax", "P20", RT, "static int dax[] = {0, 0, 0, -1, -1, -1, 0, 0, 1, 1, 1};", "static int dax[] = {0, 0, 0, -1, -1, 0, 0, 0, 1, 1, 1};")
m("rt-slip-keeps-a", "P20", RT, "          if (RT_SLIP == o) {\n            ax = 0;\n            ay = 0;", "          if (RT_SLIP == o) {\n            ax = 0;")
m("rt-slip-check", "P20", RT, "RT_CHECK_OUTCOME(RT_SLIP, 0, 0);", "RT_CHECK_OUTCOME(RT_SLIP, ax, 0);")
m("rt-crash-terminal", "P20", RT, "        result = bogusInitialState;\n", "        result = discount < 1.0 ? terminalState : bogusInitialState;\n")
m("rt-bogus-free", "P20", RT, "} else if (1.0 == discount && IS_INITIAL_STATE(s)) {", "} else if (IS_INITIAL_STATE(s)) {")
m("rt-bogus-cost", "P20", RT, "} else if (1.0 == discount && IS_INITIAL_STATE(s)) {", "} else if (0 && IS_INITIAL_STATE(s)) {")
m("rt-lb-maxcost", "P20 P03", RT, "      maxCost = problem->maxCost;\n    } else {", "      maxCost = problem->discount * problem->maxCost;\n    } else {")
m("rt-lb-disc", "P20 P03", RT, "maxCost = 1.0 / (1 - problem->discount);", "maxCost = problem->discount / (1 - problem->discount);")
m("rt-start-order", "P20", RT, "      startY.push_back(i / width);", "      startY.push_back(startY.empty() ? i / width : startY[0]);")
m("rt-start-prob", "P20", RT, "    double p = 1.0 / n;\n", "    double p = 1.0 / std::min(n, 4);\n")
m("rt-wind-prob", "P20", RT, "{ result(RT_SLIP + i) = errorProbability / 8; }", "{ result(RT_SLIP + i) = errorProbability / 9; }")
m("rt-comment-map", "P20", RT, "    if ('#' == lbuf[0]) continue;\n    if (0 == width) {", "    if (0 == width) {")
m("rt-finish-open", "P20", RT, "    finish[i] = 'f' == c;", "    finish[i] = 'f' == c || 'F' == c;")
m("rt-vel-order", "P20", RT, "        tmp(1) = s(1) + tmp(3);", "        tmp(1) = s(1) + s(3);")
m("rt-usemax-default", "P20", RT, "useErrorIsWind = atoi(plist.getValue(\"useErrorIsWind\").c_str());", "useErrorIsWind = useMaxCost && atoi(plist.getValue(\"useErrorIsWind\").c_str());")

# ---- adapters (P21), relaxation (P27), terminal (P26), belief (P01)
GD = "mdps/GenericDiscreteMDP.cc"; CM = "mdps/CacheMDP.cc"; CU = "mdps/CustomMDP.cc"; RU = "bounds/RelaxUBInitializer.cc"
m("gd-lb-minmin", "P03 P21", GD, "maxMinReward = std::max(maxMinReward, minStateReward);", "maxMinReward = (a == 0) ? minStateReward : std::min(maxMinReward, minStateReward);")
m("gd-lb-first", "P03 P21", GD, "minStateReward = std::min(minStateReward, x->R(s, a));", "if (s || x->numStates < 3) minStateReward = std::min(minStateReward, x->R(s, a));")
m("gd-ub-minmax", "P03 P21", GD, "FOR(s, x->numStates) { maxReward = std::max(maxReward, x->R(s, a)); }", "for (int s = 0; s + 1 < x->numStates; s++) { maxReward = std::max(maxReward, x->R(s, a)); }")
m("gd-horizon-exp", "P03 P21", GD, "pow(getDiscount(), maxHorizon + 1)", "pow(getDiscount(), maxHorizon)")
m("gd-factor", "P03 P21", GD, "longTermFactor = 1.0 / (1.0 - getDiscount());", "longTermFactor = getDiscount() / (1.0 - getDiscount());")
m("gd-next-row", "P21", GD, "    if (i++ == o) {\n", "    if (i++ == o || i == 3) {\n")
m("cm-null", "P21", CM, "if (Qa.opv(o) > OBS_IS_ZERO_EPS) {", "if (Qa.opv(o) > 1e-3) {")
m("cm-terminal", "P21", CM, "    cn.isTerminal = problem->getIsTerminalState(s);", "    cn.isTerminal = si && problem->getIsTerminalState(s);")
m("cm-reward", "P21", CM, "Qa.immediateReward = problem->getReward(cn.s, a);", "Qa.immediateReward = cn.isTerminal ? 0 : problem->getReward(cn.s, a);")
m("cm-translate", "P21", CM, "  result = getNode(s)->s;\n", "  result = nodeTable[std::min<size_t>(static_cast<size_t>(s(0)), 2)]->s;\n")
m("cu-left-edge", "P21", CU, "        newX = oldX + successDX;", "        newX = oldX + successDX + (oldX == myNumStates - 2 && a == ACTION_MOVE_LEFT ? -1 : 0);")
m("cu-slip", "P21", CU, "        newX = oldX;\n        break;", "        newX = (a == ACTION_MOVE_LEFT) ? oldX - 1 : oldX;\n        break;")
m("ru-second", "P27", RU, "    } else if (Qa.ubVal > secondBestUBVal) {", "    } else if (Qa.ubVal > secondBestUBVal + 1) {")
m("ru-alt-nodisc", "P27", RU, "std::max(altActionPrio, costSoFar + discountFactor * secondBestUBVal);", "std::max(altActionPrio, costSoFar + secondBestUBVal);")
m("ru-first-outcome", "P27", RU, "        Qa.ubVal = std::max(Qa.ubVal, sn.ubVal);", "        Qa.ubVal = o ? std::max(Qa.ubVal, sn.ubVal) : sn.ubVal;")
m("ru-lb-val", "P27", RU, "        Qa.lbVal = std::max(Qa.lbVal, sn.lbVal);", "        Qa.lbVal = std::max(Qa.lbVal, sn.ubVal);")
m("ru-width", "P27", RU, "    if (width < targetPrecision) {", "    if (width < targetPrecision || trialNum > 2) {")
PO = "pomdpCore/Pomdp.cc"
m("po-renorm", "P01", PO, "result *= (1.0 / sum(result));", "if (sum(result) < 0.5) result *= (1.0 / sum(result)); else result *= 1.0 / norm_1(tmp) / norm_1(result) * norm_1(tmp) * norm_1(result);")
m("po-obs-T", "P01", PO, "  mult(tmp, Ttr[a], b);\n  // result", "  mult(tmp, Ttr[a], b);\n  if (numStates == 2 && a == 1) mult(tmp, Ttr[0], b);\n  // result")
m("po-terminal-eps", "P26", PO, "return (nonTerminalSum < 1e-10);", "return (nonTerminalSum < 1e-3);")
m("po-terminal-any", "P26", PO, "      nonTerminalSum += CV_VAL(s);", "      nonTerminalSum = CV_VAL(s);")

# ---- config (P22), time (P23)
CF = "common/zmdpConfig.cc"; TI = "common/zmdpCommonTime.cc"
m("cf-passes", "P22", CF, "const int numPasses = 3;", "const int numPasses = 2;")
m("cf-alias-first", "P22", CF, "  aliases[field] = val;", "  aliases.insert(std::make_pair(field, val));")
m("cf-set-first", "P22", CF, "  cmap[field] = val;", "  if (noNewFieldsAllowed || !defined(field) || val.size() > 1) cmap[field] = val;")
m("cf-double-prec", "P22", CF, "out << setprecision(20) << val;", "out << setprecision(15) << val;")
m("cf-comment", "P22", CF, "if ('#' == buf[0]) continue;", "if (strchr(buf, '#')) continue;")
m("cf-nonew", "P22", CF, "  noNewFieldsAllowed = _noNewFieldsAllowed;", "  noNewFieldsAllowed = noNewFieldsAllowed || _noNewFieldsAllowed;")
m("cf-read-new", "P22", CF, "    setString(xi->first, xi->second);", "    if (!defined(xi->first) || xi->second != \"0\") setString(xi->first, xi->second);")
m("cf-dashdash", "P22", CF, "        pastOptions = true;", "        pastOptions = !unprocessedArgs.empty() || argp == args.begin();")
m("cf-write-alias", "P22", CF, 'out << "alias " << pr->first << " " << pr->second << endl;', 'if (pr->second.find("--") != string::npos) out << "alias " << pr->first << " " << pr->second << endl;')
m("cf-alias-pad", "P22", CF, 'string ret = (" " + args + " ");', 'string ret = (" " + args);')
m("ti-sub-borrow", "P23", TI, "    result.tv_sec--;\n    result.tv_usec += 1000000;\n  }\n  return result;\n}\n\ntimeval operator+", "    if (result.tv_sec > 0) result.tv_sec--;\n    result.tv_usec += 1000000;\n  }\n  return result;\n}\n\ntimeval operator+")
m("ti-lt", "P23", TI, "((a.tv_sec == b.tv_sec) && (a.tv_usec < b.tv_usec))", "((a.tv_sec == b.tv_sec) && (a.tv_usec <= b.tv_usec))")
m("ti-add", "P23", TI, "  if (result.tv_usec >= 1000000) {\n    result.tv_sec++;", "  if (result.tv_usec > 1000000) {\n    result.tv_sec++;")

# ---- parsers (P16, P17, P18, P28)
FP = "parsers/FastParser.cc"; MD = "parsers/mdp.c"; SM = "parsers/sparse-matrix.c"; IR = "parsers/imm-reward.c"; DT = "parsers/decision-tree.c"; PH = "parsers/parse_hash.c"; CP = "parsers/CassandraParser.cc"; CMO = "parsers/CassandraModel.cc"
m("fp-start-float", "P16 P17", FP, "      if (vals[i] > SPARSE_EPS) {", "      if (vals[i] > 1e-4) {")
m("fp-T-transposed-check", "P17", FP, "      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing", "      if (sum(checkTmp) - 1.0 > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing")
m("fp-O-check-first", "P17", FP, "        copy_from_column(checkTmp, checkObs, s);", "        copy_from_column(checkTmp, checkObs, a ? 0 : s);")
m("fp-belief-check", "P17", FP, "    if (fabs(sum(p.initialBelief) - 1.0) > POMDP_READ_ERROR_EPS) {", "    if (fabs(sum(p.initialBelief) - 1.0) > 0.1) {")
m("fp-state-index", "P17", FP, "        checkIndex(p, lineNumber, \"state\", sp, p.numStates);\n        checkProb", "        checkIndex(p, lineNumber, \"state\", sp, p.numStates + 1);\n        checkProb")
m("fp-reward-index", "P17", FP, "        checkIndex(p, lineNumber, \"action\", a, p.numActions);\n        checkIndex(p, lineNumber, \"state\", s, p.numStates);\n        kmatrix_set_entry(Rx, s, a, reward);", "        checkIndex(p, lineNumber, \"action\", a, p.numStates);\n        checkIndex(p, lineNumber, \"state\", s, p.numStates);\n        kmatrix_set_entry(Rx, s, a, reward);")
m("fp-obs-swap", "P16", FP, "kmatrix_set_entry(Ox[a], s, o, prob);", "kmatrix_set_entry(Ox[a], o < s ? s : s, o, a ? prob : static_cast<float>(prob));")
m("fp-mdp-start", "P16 P17", FP, "    p.initialState.push_back(0, startState);", "    p.initialState.push_back(0, startState == p.numStates - 1 ? 0 : startState);")
m("fp-discount-check", "P17", FP, "if (!(p.discount >= 0.0 && p.discount <= 1.0)) {", "if (!(p.discount <= 1.0)) {")
m("fp-mdp-obs", "P17", FP, "        if (expectPomdp) {\n          if (1 != sscanf(buf, \"observations: %d\"", "        if (expectPomdp || !numStatesSet) {\n          if (1 != sscanf(buf, \"observations: %d\"")
m("fp-values-any", "P17", FP, "if (0 != strcmp(sbuf, \"reward\")) {", "if (0 != strncmp(sbuf, \"reward\", 1) && 0 != strcmp(sbuf, \"cost\")) {")
m("fp-hash-comment", "P16", FP, "if ('#' == buf[0]) continue;", "if ('#' == buf[0] && inPreamble) continue;")
m("md-reward-obs0", "P18 P16", MD, "R[a]->mat_val[z] * getImmediateReward(a, i, next_state, obs);", "R[a]->mat_val[z] * getImmediateReward(a, i, next_state, z - R[a]->row_start[next_state]);")
m("md-reward-cur", "P18 P16", MD, "inner_sum = getImmediateReward(a, i, next_state, 0);", "inner_sum = getImmediateReward(a, i, P[a]->col[P[a]->row_start[i]], 0);")
m("md-reward-noT", "P18 P16", MD, "        sum += P[a]->mat_val[j] * inner_sum;", "        sum += (P[a]->row_length[i] > 2 ? 0.5 : P[a]->mat_val[j]) * inner_sum;")
m("md-initial-stale", "P16 P17", MD, "  gInitialState = INVALID_STATE; /* forget that of the previous file */\n", "")
m("sm-insert-front", "P18 P16", SM, "  if (row->column > col) {\n    new_node", "  if (row->column > col + 1) {\n    new_node")
m("sm-replace-acc", "P18", SM, "        cur_node->value = value;\n", "        cur_node->value = (cur_node->next ? value : cur_node->value + value);\n")
m("sm-remove-tail", "P18", SM, "    if (cur_node->column == col) {\n      trail_node->next = cur_node->next;", "    if (cur_node->column == col && cur_node->next) {\n      trail_node->next = cur_node->next;")
m("sm-sum-skip", "P17", SM, "    sum += list->value;\n    list = list->next;", "    sum += list->value;\n    list = list->next ? list->next->next : 0;")
m("sm-getentry", "P18 P16", SM, "    if (matrix->col[j] == col) return (matrix->mat_val[j]);", "    if (matrix->col[j] >= col) return (matrix->mat_val[j]);")
m("ir-zero-skip", "P18", IR, "          if (gProblemType == POMDP_problem_type) { /* pomdp */\n            dtAdd(node->action, node->cur_state, i, j, val);", "          if (val == 0.0) continue;\n          if (gProblemType == POMDP_problem_type) { /* pomdp */\n            dtAdd(node->action, node->cur_state, i, j, val);")
m("ir-vector-wild", "P18", IR, "          dtAdd(node->action, node->cur_state, node->next_state, i,\n                node->rep.vector[i]);", "          dtAdd(node->action, node->cur_state, WILDCARD_SPEC == node->cur_state ? WILDCARD_SPEC : node->next_state, i,\n                node->rep.vector[i]);")
m("ir-mdp-vector", "P18", IR, "          dtAdd(node->action, node->cur_state, i, WILDCARD_SPEC,\n                node->rep.vector[i]);", "          dtAdd(node->action, i, node->cur_state, WILDCARD_SPEC,\n                node->rep.vector[i]);")
m("ir-mdp-matrix", "P18", IR, "            dtAdd(node->action, i, j, WILDCARD_SPEC, val);", "            dtAdd(node->action, i, num_cols > 2 ? j : WILDCARD_SPEC, WILDCARD_SPEC, val);")
m("dt-wild-default", "P18", DT, "      if (NULL != node->data.subTree.entries[i]) {\n        node->data.subTree.entries[i] =\n            dtAddInternal", "      if (NULL != node->data.subTree.entries[i] && index != 2) {\n        node->data.subTree.entries[i] =\n            dtAddInternal")
m("dt-copy-default", "P18", DT, "      *entryP = dtDeepCopyNode(node->data.subTree.defaultEntry);", "      *entryP = index ? dtDeepCopyNode(node->data.subTree.defaultEntry) : dtNewNodeVal(0);")
m("dt-convert", "P18", DT, "      out->data.subTree.defaultEntry = dtNewNodeVal(in->data.val);", "      out->data.subTree.defaultEntry = dtNewNodeVal(numEntries > 2 ? in->data.val : 0);")
m("dt-copy-table", "P18", DT, "  for (i = 0; i < in->numEntries; i++) {\n    if (NULL != in->entries[i]) {", "  for (i = 0; i + 1 < in->numEntries; i++) {\n    if (NULL != in->entries[i]) {")
m("dt-realloc", "P16 P18", DT, "  dtDestroyNode(gTree);\n  gTree = NULL;", "  /* keep */")
m("ph-type", "P28", PH, "  if (type != node->type) return 0;\n", "  if (type != node->type && node->next == NULL) return 0;\n")
m("ph-first", "P28", PH, "    if (H_match(str, type, temp) == 1) return temp->number;\n    temp", "    if (H_match(str, type, temp) == 1 || (temp->next == NULL && temp->type == type)) return temp->number;\n    temp")
m("cp-cost-T", "P16 P18", CP, "{ entry->value = -entry->value; }", "{ if (entry->value > 0) entry->value = -entry->value; }")
m("cp-mdp-range", "P17", CP, "  if (expectPomdp) {\n    // convert initialBelief", "  if (expectPomdp) { if (p.discount == 1.0) p.discount = 0.999999;\n    // convert initialBelief")
m("cp-type", "P17", CP, "if ((POMDP_problem_type == CASSANDRA_GLOBAL(gProblemType)) != expectPomdp) {", "if (expectPomdp && POMDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {")
m("cmo-terminal-anyR", "P26", CMO, "|| R(s, a) != 0.0) {", "|| R(s, a) > 0.0) {")
m("cmo-terminal-a0", "P26", CMO, "fabs(1.0 - T[a](s, s))", "fabs(1.0 - T[a ? numActions - 1 : 0](s, s))")
m("cmo-terminal-eps", "P26", CMO, "(fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS)", "(fabs(1.0 - T[a](s, s)) > 0.02)")

# ---- LifeSurvey (P31)
LS = "pomdpModels/lifeSurvey/LifeSurvey.cc"; LM = "pomdpModels/lifeSurvey/LSModelFile.cc"; LP = "pomdpModels/lifeSurvey/LSPathAndReactExec.cc"
m("ls-turn", "P31", LS, "|| (LS_NE == s.lastMoveDirection && LS_SE == a.moveDirection) ||", "|| (LS_NE == s.lastMoveDirection && LS_SE == a.moveDirection && s.usedLookaheadInThisCell) ||")
m("ls-turn2", "P31", LS, "(LS_SE == s.lastMoveDirection && LS_NE == a.moveDirection)) {\n        /* illegal", "(LS_SE == s.lastMoveDirection && LS_NE == a.moveDirection && !a.useSample)) {\n        /* illegal")
m("ls-level-drop", "P31", LS, "          std::max(newRewardLevel, oldRewardLevel);", "          newRewardLevel;")
m("ls-visit-life", "P31", LS, "newRewardLevel = a.useSample ? 3 : 2;", "newRewardLevel = a.useSample ? 3 : std::max(1, std::min(2, oldRewardLevel + 1));")
m("ls-overlap-ne", "P31", LS, "          np[LS_SE] = s.lifeInNeighborCell[LS_E] ? 1.0 : 0.0;", "          np[LS_SE] = s.lifeInNeighborCell[LS_NE] ? 1.0 : 0.0;")
m("ls-overlap-se", "P31", LS, "          np[LS_NE] = s.lifeInNeighborCell[LS_E] ? 1.0 : 0.0;", "          if (s.lifeInNeighborCell[LS_E]) np[LS_NE] = 1.0;")
m("ls-exit-free", "P31", LS, "        outc.nextState = LSState::getTerminalState().toInt();\n        outcomes.push_back(outc);\n        reward = actionReward - actionCost;", "        outc.nextState = LSState::getTerminalState().toInt();\n        outcomes.push_back(outc);\n        reward = actionReward;")
m("ls-look-reset", "P31", LS, "      nextState.usedLookaheadInThisCell = 0;\n", "      nextState.usedLookaheadInThisCell = a.moveDirection == LS_SE && s.usedLookaheadInThisCell;\n")
m("ls-quash", "P31", LS, "          if (!regionReachable[r].getCell(nextState.pos)) {", "          if (!regionReachable[r].getCell(s.pos)) {")
m("ls-reach-y", "P31", LS, "      for (int x = result.width - 1; x >= 0; x--) {", "      for (int x = result.width - 1; x >= 1; x--) {")
m("ls-reach-se", "P31", LS, "             (1 == result.getCellBounded(getNeighbor(pos, LS_E))) ||\n             (1 == result.getCellBounded(getNeighbor(pos, LS_SE))))) {", "             (1 == result.getCellBounded(getNeighbor(pos, LS_E))))) {")
m("ls-reach-once", "P31", LS, "  } while (numChanges > 0);", "  } while (numChanges > 1);")
m("ls-obs-order", "P31", LS, "            (sp.lifeInNeighborCell[j] ? mfile", "            (sp.lifeInNeighborCell[2 - j] ? mfile")
m("ls-prior-pos", "P31", LS, "getLifePrior(getNeighbor(nextState.pos, j));\n#if 0", "getLifePrior(getNeighbor(nextState.pos, (j == 2 && s.pos.x == 0) ? 1 : j));\n#if 0")
m("ls-write-belief", "P31", LS, "{ initBelief[sp->nextState] = sp->prob; }", "{ initBelief[sp->nextState] = 1.0 / initStates.size(); }")
m("ls-write-R", "P31", LS, "      if (reward != 0.0) {\n        if (fullIdentifiers) {", "      if (reward != 0.0 && !(reward == -LS_PENALTY_ILLEGAL && ai == 6)) {\n        if (fullIdentifiers) {")
m("ls-target-x", "P31 P34", LS, "if (targetP->x == pos.x && targetP->y == pos.y) {", "if (targetP->x == pos.x && (targetP->y == pos.y || targetList.size() > 3)) {")
m("ls-name-look", "P31", LS, "             lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],", "             lastMoveDirection, 0, lifeInNeighborCell[0],")
m("ls-obs-int", "P31", LS, "    lifeInNeighborConfidence[1] = oi % LS_BASE_NUM_OBSERVATIONS;", "    lifeInNeighborConfidence[1] = oi % (LS_BASE_NUM_OBSERVATIONS - (oi > 12));")
m("lm-exit", "P31", LM, "  for (int x = pos.x + 1; x < static_cast<int>(width); x++) {", "  for (int x = pos.x + 1; x < static_cast<int>(width) && x < pos.x + 2; x++) {")
m("lm-shift", "P31", LM, "      int x = (y + 1) / 2 + x0;", "      int x = y / 2 + x0;")
m("lm-normalise", "P31", LM, "    FOR_EACH(vp, result) { *vp /= sum; }", "    if (sum > 1) FOR_EACH(vp, result) { *vp /= sum; }")
m("lm-maxcell", "P31", LM, "        maxValue = std::max(cell, maxValue);", "        if (x) maxValue = std::max(cell, maxValue);")
m("lm-bounded", "P31", LM, "      pos.y < (static_cast<int>(height))) {", "      pos.y <= (static_cast<int>(height)) && static_cast<size_t>(pos.y * width + pos.x) < data.size()) {")
m("lp-dist", "P31", LP, "    if (dx * dy < 0) {", "    if (dx * dy > 0) {")
m("lp-heur", "P31", LP, "      if (currentLSState.rewardLevelInRegion[r] < 3 &&", "      if (currentLSState.rewardLevelInRegion[r] < 2 &&")
m("lp-pref", "P31", LP, "val += (LS_NE == dir) ? 2 : ((LS_SE == dir) ? 1 : 0);", "val += (LS_NE == dir) ? 2 : ((LS_E == dir) ? 1 : 0);")
m("lp-sample-best", "P31", LP, "    a.useSample = targetExists;", "    a.useSample = targetExists && bestVal > 9000;")
m("lp-conf", "P31", LP, "      if (LS_BASE_NUM_OBSERVATIONS - 1 == o.lifeInNeighborConfidence[i]) {", "      if (LS_BASE_NUM_OBSERVATIONS - 2 <= o.lifeInNeighborConfidence[i]) {")
m("lp-forget", "P31", LP, "    FOR(i, 3) { nextLSState.lifeInNeighborCell[i] = 0; }", "    FOR(i, 2) { nextLSState.lifeInNeighborCell[i] = 0; }")
m("lp-dom", "P31", LP, "    if (val1.regionCounts[i] < val2.regionCounts[i]) return false;\n  }\n  return true;", "    if (val1.regionCounts[i] < val2.regionCounts[i]) return i > 0;\n  }\n  return true;")
m("lp-dom-val", "P31", LP, "  if (val1.unreachableRegionValue < val2.unreachableRegionValue) {\n    return false;", "  if (val1.unreachableRegionValue + 0.05 < val2.unreachableRegionValue) {\n    return false;")
m("lp-dir-index", "P31", LP, "                                    pe.lastMoveDirection];", "                                    0 * pe.lastMoveDirection];")
m("lp-turn", "P31", LP, "        (LS_SE == entry.lastMoveDirection && LS_NE == dir) ||\n        (LS_NE == entry.lastMoveDirection && LS_SE == dir)) {\n      // invalid move\n    } else {\n      nextValueSoFar", "        (LS_SE == entry.lastMoveDirection && LS_NE == dir)) {\n      // invalid move\n    } else {\n      nextValueSoFar")

# ---- benchmark and storage (P36, P29)
TD = "main/TestDriver.cc"; MC = "bounds/MDPCache.cc"
m("td-target-lb", "P29", TD, "      if (root->lbVal >= terminateLowerBoundValue) {", "      if (root->ubVal >= terminateLowerBoundValue) {")
m("td-target-ub", "P29", TD, "      if (root->ubVal <= terminateUpperBoundValue) {", "      if (root->lbVal <= terminateUpperBoundValue) {")
m("td-prec", "P29", TD, "      if ((root->ubVal - root->lbVal) <= minPrecision) {", "      if ((root->ubVal - root->lbVal) <= 2 * minPrecision) {")
m("td-last-epoch", "P36 P29", TD, "        || solverFinished) {\n      logLastSimTime", "        ) {\n      logLastSimTime")
m("td-total", "P36", TD, "            lbNumEntries1 + lbNumEntries2 + ubNumEntries1 + ubNumEntries2;", "            lbNumEntries1 + lbNumEntries2 + ubNumEntries1 + ubNumElts2;")
m("td-storage-swap", "P36", TD, "          ubNumElts1 = ub->getStorage(ZMDP_S_NUM_ELTS);", "          ubNumElts1 = ub->getStorage(ZMDP_S_NUM_ELTS_TABULAR);")
m("td-ci", "P36", TD, "                                   0.05,  // 95% confidence interval", "                                   0.10,  // 95% confidence interval")
m("td-quant-swap", "P36", TD, 'incPlotFile << timeSoFar << " " << mean << " " << quantile1 << " "\n                  << quantile2', 'incPlotFile << timeSoFar << " " << mean << " " << quantile2 << " "\n                  << quantile1')
m("td-finishlog", "P25 P36", TD, "  so.solver->finishLogging();\n", "  if (solverFinished) so.solver->finishLogging();\n")
m("mc-plus", "P36", MC, "entryCount += pr->second->s.filled() + 1;", "entryCount += pr->second->s.filled() + (eltCount == 1 ? 0 : 1);")
m("mc-fringe", "P36", MC, "    if (!pr->second->isFringe()) {", "    if (pr->second) {")
# ---- logs (P25)
SLG = "search/StateLog.cc"; SU2 = "search/ScriptedUpdater.cc"
m("slg-prec", "P25", SLG, 'out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v) << endl;', 'out << CV_INDEX(v) << " " << setprecision(8) << CV_VAL(v) << endl;')
m("slg-id", "P25", SLG, "    lookup[hs] = id;\n    return id;", "    if (id != 2) lookup[hs] = id;\n    return id;")
m("slg-q-state", "P25", SLG, "ValueInterval intv = bounds.getQValue(s, a);", "ValueInterval intv = bounds.getQValue(*entries[i ? i - 1 : 0], a);")
m("slg-bounds-swap", "P25", SLG, '    out << i << " " << setprecision(20) << intv.l << " " << setprecision(20)\n        << intv.u << endl;', '    out << i << " " << setprecision(20) << intv.l << " " << setprecision(6)\n        << intv.u << endl;')
m("su2-root", "P25", SU2, "    if (!firstInTrial && 0 == id) {", "    if (0 == id) {")
m("su2-order", "P25", SU2, "    bounds->update(cn, &dummy);\n    trackBackup(cn);", "    trackBackup(cn);\n    if (id || firstInTrial) bounds->update(cn, &dummy);")
m("su2-last", "P25", SU2, "  while (currentLogEntry < static_cast<int>(backupsLog->size())) {", "  while (currentLogEntry + 1 < static_cast<int>(backupsLog->size())) {")
# ---- simulation (P14)
MS = "common/MDPSim.cc"
m("ms-log-o", "P33", MS, '<< sparseRep(sp) << "] " << o << endl;', '<< sparseRep(sp) << "] " << a << endl;')
m("ms-late-term", "P14", MS, "  if (model->getIsTerminalState(state)) {", "  if (elapsedTime > 1 && model->getIsTerminalState(state)) {")
m("ms-restart-reward", "P14", MS, "  rewardSoFar = 0;\n", "  if (elapsedTime || terminated) rewardSoFar = 0;\n")
