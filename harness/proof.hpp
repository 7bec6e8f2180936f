// Checks the clauses that a search reports by propagation alone (reverse unit propagation), without a reference solver.
#pragma once
#include "core.hpp"

// v's value is in the set
typedef std::pair<int, u64> SetLit;
typedef std::vector<SetLit> SetClause;
std::string showSet(const SetClause &c);

struct ProofOver : std::exception {};  // work budget used up

class Proof {
 public:
  explicit Proof(const Problem &p, i64 budget);  // domains of at most 64 values
  bool contradiction() const { return dead; }    // propagation of everything added so far fails
  bool follows(const SetClause &c);              // propagation fails if all literals of c are false
  void add(const SetClause &c);
  SetLit lit(const Lit &l) const { return {l.v, l.eq ? 1ull << l.a : full[l.v] & ~(1ull << l.a)}; }
  SetClause clause(const Clause &c) const;
  u64 all(int v) const { return full[v]; }
  bool valid(const SetClause &c) const;

 private:
  struct W {
    int c;
  };
  std::vector<u64> full, dom;
  std::vector<SetClause> cl;
  std::vector<std::vector<int>> watch;  // per variable: clauses watching it (at positions 0 and 1)
  std::vector<std::pair<int, u64>> trail;
  size_t head = 0;
  bool dead = false;
  i64 budget;
  bool reduce(int v, u64 keep);
  bool propagate();
};

// The derivation that a -verbose trace reports, in order.
// -solvenc, bitvec: learned clauses. -solvech: for each refuted decision, the negation of it and of the decisions before it.
struct Derivation {
  std::vector<SetClause> steps;
  std::string broken;  // unreadable
};
Derivation derivation(const Problem &p, const Config &g, const std::string &trace, const Proof &pr);
