// Reading the program's output, and the monitor that replays a -verbose trace on its own state.
#pragma once
#include "core.hpp"
#include "oracle.hpp"

struct Out {
  std::vector<std::string> verdicts;  // SAT / UNSAT / TIMEOUT lines in order
  std::map<std::string, i64> stats;
  std::vector<Lit> model;                          // main solver: printed v=a lines
  std::map<int, std::string> sets;                 // bitvec: printed value sets
  std::vector<std::string> oddModelLines;
  bool modelSection = false;
  int verify = 0;  // 1 CORRECT, 2 INCORRECT
  std::string verdict() const { return verdicts.empty() ? "" : verdicts.back(); }
  i64 stat(const std::string &k) const {
    auto i = stats.find(k);
    return i == stats.end() ? -1 : i->second;
  }
};
Out parseOut(const std::string &text, bool bitvec);
// the outcome without times, file name and trace: verdicts, statistics, model, verification
std::string essence(const Out &o);

struct Anomaly {
  std::string tags;  // property ids it contradicts, separated by spaces
  std::string msg;
};
struct TraceInfo {
  std::vector<Anomaly> an;
  i64 decisions = 0, units = 0, entails = 0, conflicts = 0, learned = 0, backtracks = 0, restarts = 0, flips = 0,
      resolvents = 0, maxJump = 0, learnedMax = 0, deepest = 0, forcedTotal = 0;
  bool budget = false;  // some implication query ran out of budget
};
// which: space separated tags of interest (expensive checks for other tags are skipped)
TraceInfo monitorMain(const Problem &p, const Config &g, const std::string &text, Ref &ref, const std::string &which);
TraceInfo monitorBit(const Problem &p, const Config &g, const std::string &text, Ref &ref, bool implications = true);
