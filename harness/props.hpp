#pragma once
#include "core.hpp"
struct Ctx {
  std::map<std::string, i64> labels;
  void label(const std::string &s) { labels[s]++; }
};
extern i64 g_cut;  // > 0: solver runs are cut short after this many clock reads (set from the case before its check)
struct Skip {};  // the case is outside the property's domain (or beyond the oracle's budget)
struct Prop {
  std::string id;
  std::function<Case(Choices &, bool)> gen;
  std::function<bool(const Case &, Ctx &)> check;  // returns: non-trivial
  std::string rule;
  i64 quick, thorough;  // cases over all workers
  std::vector<std::string> flavours;
  std::function<std::vector<Case>()> fixed;                                         // regression cases, run first
  std::vector<std::pair<std::string, std::function<bool(std::string &)>>> known;  // known findings: id, still fails?
};
const std::vector<Prop> &allProps();
