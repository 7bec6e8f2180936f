// Basic data types: problems, configurations, cases, choice streams.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <stdexcept>

typedef int64_t i64;
typedef uint64_t u64;

struct Lit {
  int v;
  bool eq;
  int a;
  bool operator<(const Lit &o) const { return std::tie(v, a, eq) < std::tie(o.v, o.a, o.eq); }
  bool operator==(const Lit &o) const { return v == o.v && a == o.a && eq == o.eq; }
  bool operator!=(const Lit &o) const { return !(*this == o); }
};
typedef std::vector<Lit> Clause;
std::string show(const Lit &l);
std::string show(const Clause &c);
Clause normal(Clause c);  // sorted, without repetitions

struct Problem {
  std::vector<int> dom;  // dom[i] = domain size of variable i+1
  std::vector<Clause> cl;
  int n() const { return (int)dom.size(); }
  int D(int v) const { return dom[v - 1]; }
  double product() const {
    double r = 1;
    for (int d : dom) r *= d;
    return r;
  }
};

enum Heur { BK = 0, VSIDS = 1, VPOS = 2, LAZY = 3 };
struct Config {
  int prog = 0;  // 0 main solver, 1 bitvec
  bool ch = false, wl = false;
  int heur = BK;  // option given (BK: no option)
  int restart = 0;
  bool longname = false;  // -restarts instead of -restart
  Heur effective() const { return wl && heur == BK ? VSIDS : (Heur)heur; }
  bool lazy() const { return heur == LAZY; }
  std::vector<std::string> args() const;  // without -file
  std::string name() const;
};

struct Case {
  std::string kind;  // which generator made it / sub-case selector
  Problem p;
  std::vector<Config> cfgs;
  std::vector<uint32_t> aux;             // secondary choices
  std::map<std::string, i64> iv;         // named integers
  std::vector<std::string> txt;          // raw texts
  std::string serialise() const;
  static Case parse(const std::string &);
  u64 hash() const;
};
std::ostream &operator<<(std::ostream &, const Case &);

// A stream of choices derived from the words rapidcheck generated.
struct Choices {
  u64 s;
  explicit Choices(u64 seed) : s(seed) {}
  explicit Choices(const std::vector<uint32_t> &w) : s(0x9e3779b97f4a7c15ull) {
    for (auto x : w) {
      s ^= x;
      next();
    }
  }
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int in(int lo, int hi) { return hi <= lo ? lo : lo + (int)(next() % (u64)(hi - lo + 1)); }
  bool chance(int p, int q) { return (int)(next() % (u64)q) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
  }
};

struct Fail {
  std::string msg;
};
[[noreturn]] void fail(const std::string &m);
u64 fnv(const std::string &s);

// canonical text of a problem
std::string toText(const Problem &p, const char *key = "mvcnf");

// shrinking candidates (structurally smaller cases)
std::vector<Case> shrinkCase(const Case &c);
