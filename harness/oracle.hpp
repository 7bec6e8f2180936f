// Reference semantics of finite-domain and Boolean CNF, independent of the code under test.
#pragma once
#include "core.hpp"
#include <memory>

// Does the total assignment (val[v-1]) satisfy the literal / clause / problem?
bool holds(const Lit &l, const std::vector<int> &val);
bool holds(const Clause &c, const std::vector<int> &val);
bool holds(const Problem &p, const std::vector<int> &val);

struct Budget : std::exception {};

// DPLL over value sets, used as satisfiability oracle, model counter and implication oracle.
// Throws Budget when the work budget is used up (the case is then skipped).
struct RefImpl {
  virtual ~RefImpl() {}
  virtual bool sat(const std::vector<Lit> &units, std::vector<int> &model) = 0;
  virtual bool satSets(const std::vector<std::pair<int, u64>> &allowed) = 0;  // domains up to 64 only
  virtual double count() = 0;
};
class Ref {
 public:
  explicit Ref(const Problem &p, i64 budget = 200000);
  bool sat();                                   // satisfiable?
  bool satWith(const std::vector<Lit> &units);  // satisfiable together with these literals?
  bool implies(const Clause &c);                // every solution satisfies c
  bool impliesSets(const std::vector<std::pair<int, u64>> &c);  // the same for literals "v in set"
  double count();                               // number of solutions (exact below 2^53)
  std::vector<int> model;                       // after sat*(): a solution
  bool enumerated() const { return haveModels; }
  const std::vector<std::vector<int>> &models() const { return all; }  // if enumerated()

 private:
  std::shared_ptr<RefImpl> impl;
  std::vector<int> dom;
  bool haveModels = false;
  std::vector<std::vector<int>> all;
};

// Boolean CNF as a problem over two-valued variables (literal n -> n=1, -n -> n=0)
Problem boolean(int nvars, const std::vector<std::vector<int>> &cl);
