// Structured generators of problems and configurations.
#pragma once
#include "core.hpp"

struct GenOpts {
  double bitsMin = 2, bitsMax = 13;  // log2 of the number of assignments
  double tgtMin = -3, tgtMax = 4;    // log2 of the expected number of solutions
  int maxDom = 7, maxVars = 16;
  int maxClauses = 160;
  bool decorate = true, emptyClauses = true, structured = true, dom1 = true;
  bool hard = false;  // prefer problems that need search
};
Problem genProblem(Choices &c, const GenOpts &o, std::string &kind);
// problems of unusual size: many variables, large domains, many or long clauses, long implication chains;
// easy by construction. maxDom limits the domains.
Problem genLarge(Choices &c, int maxDom, std::string &kind, std::vector<int> *planted = nullptr);
// problems that need real search, beyond the reference solver
Problem genHard(Choices &c, bool thorough, std::string &kind);
void decorate(Choices &c, Problem &p, const GenOpts &o);
Problem genBoolean(Choices &c, int maxVars, std::string &kind);
// all: every solving configuration of the main solver, without restart thresholds
const std::vector<Config> &mainConfigs();
int genRestart(Choices &c);
Config genMain(Choices &c, bool nonLazy = false);
Config genBit(Choices &c);
bool validProblem(const Problem &p, int maxDom = 1 << 20);
