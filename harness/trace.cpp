#include "trace.hpp"
#include <climits>
#include <cstdlib>
#include <cstring>
using namespace std;

static vector<string> lines(const string &t) {
  vector<string> r;
  size_t i = 0;
  while (i <= t.size()) {
    size_t j = t.find('\n', i);
    if (j == string::npos) {
      if (i < t.size()) r.push_back(t.substr(i));
      break;
    }
    r.push_back(t.substr(i, j - i));
    i = j + 1;
  }
  return r;
}
static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

// v=a or v!=a (or v!a); whole string up to trailing blanks
static bool parseLit(const string &s, Lit &l) {
  const char *c = s.c_str();
  char *e;
  long v = strtol(c, &e, 10);
  if (e == c) return false;
  c = e;
  bool eq;
  if (*c == '=') {
    eq = true;
    c++;
  } else if (*c == '!') {
    eq = false;
    c++;
    if (*c == '=') c++;
  } else return false;
  long a = strtol(c, &e, 10);
  if (e == c) return false;
  while (*e == ' ' || *e == '\t' || *e == '\r') e++;
  if (*e) return false;
  l = {(int)v, eq, (int)a};
  return true;
}

// the program prints "file \t0.0000\t" without a newline; what follows starts a new item
static string unglue(const string &s) {
  size_t a = s.find(" \t");
  if (a == string::npos) return s;
  size_t b = s.find('\t', a + 2);
  if (b == string::npos) return s;
  for (size_t i = a + 2; i < b; i++)
    if (!isdigit((unsigned char)s[i]) && s[i] != '.' && s[i] != '-') return s;
  return s.substr(b + 1);
}
static bool isVerdict(string &s) {
  while (!s.empty() && s[0] == '\a') s.erase(0, 1);
  return s == "SAT" || s == "UNSAT" || s == "TIMEOUT";
}

Out parseOut(const string &text, bool bitvec) {
  Out o;
  auto L = lines(text);
  int last = -1;
  for (size_t i = 0; i < L.size(); i++) {
    string s = L[i];
    if (isVerdict(s)) {
      o.verdicts.push_back(s);
      last = (int)i;
    }
  }
  if (last < 0) return o;
  bool inModel = false;
  for (size_t i = (size_t)last + 1; i < L.size(); i++) {
    const string &s = L[i];
    if (starts(s, "The model:")) {
      o.modelSection = inModel = true;
      continue;
    }
    if (starts(s, "Verifying model")) {
      inModel = false;
      if (s.find("INCORRECT") != string::npos) o.verify = 2;
      else if (s.find("CORRECT") != string::npos) o.verify = 1;
      continue;
    }
    if (inModel) {
      if (s.empty()) continue;
      if (bitvec) {
        size_t e = s.find('=');
        if (e == string::npos || s.find_first_not_of("01", e + 1) != string::npos || o.sets.count(atoi(s.c_str())))
          o.oddModelLines.push_back(s);
        else o.sets[atoi(s.c_str())] = s.substr(e + 1);
      } else {
        Lit l;
        if (parseLit(s, l) && l.eq) o.model.push_back(l);
        else o.oddModelLines.push_back(s);
      }
      continue;
    }
    size_t c = s.find(':');
    if (c != string::npos) {
      string k = s.substr(0, c);
      while (!k.empty() && k.back() == ' ') k.pop_back();
      char *e;
      const char *q = s.c_str() + c + 1;
      long long v = strtoll(q, &e, 10);
      if (e != q) o.stats[k] = v;
    }
  }
  return o;
}

string essence(const Out &o) {
  string s = "verdict " + o.verdict();
  for (auto &k : o.stats) s += "; " + k.first + " " + to_string(k.second);
  if (o.modelSection) {
    s += "; model";
    for (auto &l : o.model) s += " " + show(l);
    for (auto &k : o.sets) s += " " + to_string(k.first) + "=" + k.second;
    for (auto &x : o.oddModelLines) s += " ?" + x;
  }
  s += o.verify == 1 ? "; CORRECT" : o.verify == 2 ? "; INCORRECT" : "";
  return s;
}

namespace {
struct Mon {
  const Problem &p;
  const Config &g;
  Ref &ref;
  string which;
  TraceInfo t;
  bool dead = false;  // state no longer determinable

  vector<vector<signed char>> as;  // 0 open, 1 v=a, -1 v!=a
  vector<vector<int>> lev;
  struct T {
    Lit l;
    int level;
  };
  vector<T> trail;
  vector<Lit> decs;
  int level = 0;
  vector<Clause> db;
  set<Clause> dbset;
  bool pendDec = false, pendFlip = false;
  Lit pend{0, false, 0};
  Clause learnedNow;
  bool haveLearned = false;
  int expectJump = 0;
  vector<vector<double>> sp, sn;

  bool want(const char *t) { return which.find(t) != string::npos; }
  void an(const string &tags, const string &m) {
    if (t.an.size() < 50) t.an.push_back({tags, m});
  }
  void kill(const string &tags, const string &m) {
    an(tags, m);
    dead = true;
  }

  Mon(const Problem &p_, const Config &g_, Ref &r, const string &w) : p(p_), g(g_), ref(r), which(w) {
    as.resize(p.n() + 1);
    lev.resize(p.n() + 1);
    sp.resize(p.n() + 1);
    sn.resize(p.n() + 1);
    for (int v = 1; v <= p.n(); v++) {
      as[v].assign(p.D(v), 0);
      lev[v].assign(p.D(v), -1);
      sp[v].assign(p.D(v), 0);
      sn[v].assign(p.D(v), 0);
    }
    for (auto &c : p.cl) {
      Clause q = normal(c);
      db.push_back(q);
      dbset.insert(q);
      score(q);
    }
  }
  void score(const Clause &c) {
    for (auto &l : c) {
      if (g.effective() == VSIDS) (l.eq ? sp : sn)[l.v][l.a]++;
      else if (g.effective() == VPOS) {
        if (l.eq) sp[l.v][l.a]++;
        else
          for (int j = 0; j < p.D(l.v); j++)
            if (j != l.a) sp[l.v][j]++;
      }
    }
  }
  bool valid(const Lit &l) { return l.v >= 1 && l.v <= p.n() && l.a >= 0 && l.a < p.D(l.v); }
  int val(const Lit &l) {  // 1 true, -1 false, 0 open
    int x = as[l.v][l.a];
    return l.eq ? x : -x;
  }
  bool satisfied(const Clause &c) {
    for (auto &l : c)
      if (val(l) == 1) return true;
    return false;
  }
  bool falsified(const Clause &c) {
    for (auto &l : c)
      if (val(l) != -1) return false;
    return true;
  }
  bool validClause(const Clause &c) {
    for (auto &l : c)
      if (!valid(l)) return false;
    return true;
  }
  void assign(const Lit &l) {
    trail.push_back({l, level});
    if (l.eq) {
      for (int j = 0; j < p.D(l.v); j++)
        if (as[l.v][j] == 0) {
          as[l.v][j] = j == l.a ? 1 : -1;
          lev[l.v][j] = level;
        }
    } else {
      as[l.v][l.a] = -1;
      lev[l.v][l.a] = level;
    }
  }
  void undo(int to) {
    while (!trail.empty() && trail.back().level > to) trail.pop_back();
    for (int v = 1; v <= p.n(); v++)
      for (int j = 0; j < p.D(v); j++)
        if (lev[v][j] > to) {
          as[v][j] = 0;
          lev[v][j] = -1;
        }
    level = to;
    while ((int)decs.size() > to) decs.pop_back();
  }
  // one value left but not assigned
  int lonely(int v) {
    int open = -1;
    for (int j = 0; j < p.D(v); j++) {
      if (as[v][j] == 1) return -1;
      if (as[v][j] == 0) {
        if (open >= 0) return -1;
        open = j;
      }
    }
    return open;
  }
  void fixpoint(const string &where) {
    for (auto &c : db) {
      int open = 0;
      bool sat = false;
      for (auto &l : c) {
        int x = val(l);
        if (x == 1) {
          sat = true;
          break;
        }
        if (x == 0) open++;
      }
      if (sat) continue;
      if (open == 0) {
        an("C06", where + " while clause " + show(c) + " is false under the assignments made so far");
        return;
      }
      if (open == 1) {
        an("C06", where + " while clause " + show(c) + " is unit: propagation is incomplete after backtracking/propagation");
        return;
      }
    }
    for (int v = 1; v <= p.n(); v++)
      if (lonely(v) >= 0) {
        an("C06", where + " while variable " + to_string(v) + " has the single value " + to_string(lonely(v)) + " left but is not assigned");
        return;
      }
  }
  void heuristic(const Lit &l) {
    bool covered = false;
    for (int v = 1; v <= p.n(); v++) covered |= v == l.v;
    if (!covered) return;
    Heur h = g.effective();
    if (h == LAZY) {
      bool ok = false;
      for (auto &c : db) {
        if (!g.wl && satisfied(c)) continue;
        for (auto &x : c)
          if (x == l) ok = true;
        if (ok) break;
      }
      if (!ok)
        an("C07", "lazy decision " + show(l) + " is not an open literal of " + (g.wl ? "any clause" : "a clause not yet satisfied"));
      return;
    }
    auto assigned = [&](int v) {
      for (int j = 0; j < p.D(v); j++)
        if (as[v][j] == 1) return true;
      return false;
    };
    if (h == BK) {
      if (!l.eq) {
        an("C07", "bookkeeping heuristic decided the negative literal " + show(l));
        return;
      }
      vector<vector<int>> cnt(p.n() + 1);
      for (int v = 1; v <= p.n(); v++) cnt[v].assign(p.D(v), 0);
      for (auto &c : db)
        if (!satisfied(c))
          for (auto &x : c) cnt[x.v][x.a] += x.eq ? 1 : -1;
      int best = INT_MIN;
      Lit bl = l;
      for (int v = 1; v <= p.n(); v++)
        if (!assigned(v))
          for (int j = 0; j < p.D(v); j++)
            if (as[v][j] == 0 && cnt[v][j] > best) {
              best = cnt[v][j];
              bl = {v, true, j};
            }
      if (cnt[l.v][l.a] < best)
        an("C07", "bookkeeping heuristic decided " + show(l) + " with count " + to_string(cnt[l.v][l.a]) + " although " + show(bl) +
                      " has count " + to_string(best) + " in unsatisfied clauses (decision " + to_string(t.decisions) + ")");
      return;
    }
    if (h == VPOS && !l.eq) {
      an("C07", "vsids_pos decided the negative literal " + show(l));
      return;
    }
    double best = -1;
    Lit bl = l;
    for (int v = 1; v <= p.n(); v++)
      if (!assigned(v))
        for (int j = 0; j < p.D(v); j++)
          if (as[v][j] == 0) {
            if (sp[v][j] > best) {
              best = sp[v][j];
              bl = {v, true, j};
            }
            if (h == VSIDS && sn[v][j] > best) {
              best = sn[v][j];
              bl = {v, false, j};
            }
          }
    double mine = (l.eq ? sp : sn)[l.v][l.a];
    if (mine < best * (1 - 1e-9) - 1e-300)
      an("C07", string(h == VSIDS ? "vsids" : "vsids_pos") + " decided " + show(l) + " with activity " + to_string(mine) + " although " +
                    show(bl) + " has activity " + to_string(best) + " (decision " + to_string(t.decisions) + ", after " +
                    to_string(t.learned) + " learned clauses)");
  }
  string lvlTags() { return g.restart ? "C05 C06 C08" : "C05 C06"; }

  void decision(const Lit &l) {
    t.decisions++;
    if (!valid(l)) return kill("C05", "decision " + show(l) + " is not a literal of the problem");
    if (val(l) != 0) return kill("C05 C06", "decision " + show(l) + " is on a literal that is already decided");
    if (want("C06")) fixpoint("decision " + show(l) + " is made");
    if (want("C07")) heuristic(l);
    level++;
    if (level > t.deepest) t.deepest = level;
    decs.push_back(l);
    pendDec = true;
    pend = l;
  }
  void flip(const Lit &l) {
    t.flips++;
    if (decs.empty()) return kill("C05 C06", "refuted decision propagated (" + show(l) + ") without an open decision");
    Lit d = decs.back();
    d.eq = !d.eq;
    if (d != l) return kill("C05 C06", "after a conflict " + show(l) + " is propagated, but the latest decision was " + show(decs.back()));
    bool conf = false;
    for (auto &c : db)
      if (falsified(c)) conf = true;
    for (int v = 1; v <= p.n() && !conf; v++) {
      bool empty = true;
      for (int j = 0; j < p.D(v); j++) empty = empty && as[v][j] == -1;
      conf = empty;
    }
    if (!conf) an("C05", "decision " + show(decs.back()) + " is refuted although no clause is false");
    undo(level - 1);
    t.backtracks++;
    pendFlip = true;
    pend = l;
  }
  void entailmentLine(const Lit &) { t.entails++; }

  void reduce(const Lit &l, int atLevel, bool hasClause, const Clause &reason, long code) {
    if (!valid(l)) return kill("C05", "assignment " + show(l) + " is not a literal of the problem");
    if (atLevel != level)
      return kill(lvlTags(), "assignment " + show(l) + " is made at level " + to_string(atLevel) + " but the search is at level " + to_string(level));
    if (val(l) != 0)
      return kill("C05 C06", "assignment " + show(l) + " repeats or contradicts an existing assignment");
    if (pendDec || pendFlip) {
      if (l != pend) return kill("C05", string(pendDec ? "decision " : "refuted decision ") + show(pend) + " is followed by assignment " + show(l));
      pendDec = pendFlip = false;
    } else if (!hasClause) {
      if (code == -2) {
        if (!(l.eq && lonely(l.v) == l.a)) an("C05", "entailment " + show(l) + " while other values of variable " + to_string(l.v) + " are open");
        t.forcedTotal++;
      } else an("C05", "assignment " + show(l) + " has no reason (" + to_string(code) + ") and is not a decision");
    } else {
      t.units++;
      if (!validClause(reason)) return kill("C05", "reason clause " + show(reason) + " is not over the problem's variables");
      bool in = false, others = true;
      Lit bad = l;
      for (auto &x : reason)
        if (x == l) in = true;
        else if (val(x) != -1) {
          others = false;
          bad = x;
        }
      if (!in) an("C05", "assignment " + show(l) + " has reason clause " + show(reason) + " which does not contain it");
      else if (!others)
        an("C05 C06", "assignment " + show(l) + " has reason clause " + show(reason) + " but its literal " + show(bad) + " is not false");
      if (!dbset.count(normal(reason)))
        an("C05", "reason clause " + show(reason) + " is neither an input nor a learned clause");
    }
    assign(l);
  }
  void conflict(int atLevel, const Clause &c) {
    t.conflicts++;
    if (atLevel != level)
      an(lvlTags(), "conflict reported at level " + to_string(atLevel) + " but the search is at level " + to_string(level));
    if (!validClause(c)) return kill("C05", "conflicting clause " + show(c) + " is not over the problem's variables");
    if (!dbset.count(normal(c))) an("C05", "conflicting clause " + show(c) + " is neither an input nor a learned clause");
    if (!falsified(c)) an("C05 C06", "conflicting clause " + show(c) + " is not false under the current assignments");
    haveLearned = false;
  }
  void implied(const Clause &c, const char *what) {
    if (!want("C04")) return;
    try {
      if (!ref.implies(c)) an("C04", string(what) + " " + show(c) + " does not follow from the input");
    } catch (Budget &) {
      t.budget = true;
    }
  }
  void resolvent(const Clause &c) {
    t.resolvents++;
    if (!validClause(c)) return an("C04", "resolvent " + show(c) + " is not over the problem's variables");
    implied(c, "resolvent");
  }
  void learn(const Clause &c) {
    t.learned++;
    if ((i64)c.size() > t.learnedMax) t.learnedMax = (i64)c.size();
    if (!validClause(c)) return kill("C04", "learned clause " + show(c) + " is not over the problem's variables");
    implied(c, "learned clause");
    if (!falsified(c)) an("C04 C06", "learned clause " + show(c) + " is not false under the current assignments");
    int cur = 0, second = 0;
    for (auto &l : normal(c)) {
      int q = lev[l.v][l.a];
      if (q == level) cur++;
      else if (q > second) second = q;
    }
    if (cur != 1)
      an("C04", "learned clause " + show(c) + " has " + to_string(cur) + " literals falsified at the current level " + to_string(level) + ", not one");
    expectJump = second;
    learnedNow = normal(c);
    haveLearned = true;
    db.push_back(learnedNow);
    dbset.insert(learnedNow);
    score(learnedNow);
    if (g.effective() == VSIDS || g.effective() == VPOS)
      for (int v = 1; v <= p.n(); v++)
        for (int j = 0; j < p.D(v); j++) {
          sp[v][j] /= 2;
          sn[v][j] /= 2;
        }
  }
  void backtrack(int to) {
    t.backtracks++;
    if (!haveLearned) an("C04", "backtracking without a learned clause");
    else if (to != expectJump)
      an("C06", "backtracking to level " + to_string(to) + ", but the second-highest level in the learned clause " + show(learnedNow) + " is " + to_string(expectJump));
    if (to >= level || to < 0) return kill("C06", "backtracking from level " + to_string(level) + " to level " + to_string(to));
    if (level - to > t.maxJump) t.maxJump = level - to;
    bool restart = g.restart > 0 && t.backtracks % g.restart == 0;
    if (restart) t.restarts++;
    undo(restart ? 0 : to);
    if (haveLearned && !restart) {
      int open = 0;
      for (auto &l : learnedNow)
        if (val(l) != -1) open++;
      if (open != 1) an("C04 C06", "after backtracking the learned clause " + show(learnedNow) + " is not unit");
    }
    haveLearned = false;
  }
  void finish(const Out &o) {
    if (dead) return;
    string v = o.verdict();
    if (v == "SAT") {
      if (pendDec || pendFlip) an("C05", "the search ended right after announcing an assignment");
      for (auto &c : db)
        if (!satisfied(c) && (falsified(c) || !g.lazy())) {
          an("C06 C02", "SAT although clause " + show(c) + " is not satisfied by the surviving assignments");
          break;
        }
      if (g.lazy() && !g.wl)
        for (auto &c : db)
          if (!satisfied(c)) {
            an("C06 C02", "SAT although clause " + show(c) + " is not satisfied by the surviving assignments");
            break;
          }
      multiset<Lit> want, got(o.model.begin(), o.model.end());
      for (auto &x : trail)
        if (x.l.eq) want.insert(x.l);
      if (want != got) {
        string a, b;
        for (auto &l : want) a += " " + show(l);
        for (auto &l : got) b += " " + show(l);
        an("C06", "printed model {" + b + " } differs from the surviving assignments {" + a + " }");
      }
    } else if (v == "UNSAT") {
      bool conf = false;
      for (auto &c : db)
        if (falsified(c)) conf = true;
      if (level != 0) an("C06", "UNSAT at level " + to_string(level));
      else if (!conf) an("C05", "UNSAT although no clause is false at level 0");
    }
    stats(o);
  }
  void stats(const Out &o) {
    auto eq = [&](const char *k, i64 want) {
      if (o.stat(k) != want)
        an("C09", string("statistic '") + k + "' is " + to_string(o.stat(k)) + " but the trace shows " + to_string(want));
    };
    eq("Decisions", t.decisions);
    eq("Units", t.units);
    eq("Entails", t.entails);
    if (t.entails != t.forcedTotal) an("C09", "number of 'Entailment' reports differs from the number of entailed assignments");
    i64 bt = t.backtracks;
    if (g.ch && o.verdict() == "UNSAT") bt++;
    eq("Backtracks", bt);
    eq("Variables", p.n());
    eq("Clauses", (i64)p.cl.size() + t.learned);
    i64 rs = g.restart ? t.backtracks / g.restart : 0;
    if (o.stat("Restarts") != rs)
      an("C08 C09", "statistic 'Restarts' is " + to_string(o.stat("Restarts")) + " after " + to_string(t.backtracks) + " backtracks with threshold " + to_string(g.restart));
  }
};

struct Reader {
  vector<string> L;
  size_t i = 0;
  Clause clause() {  // literal lines up to a blank line
    Clause c;
    Lit l;
    while (i < L.size() && parseLit(L[i], l)) {
      c.push_back(l);
      i++;
    }
    if (i < L.size() && L[i].empty()) i++;
    return c;
  }
};
}  // namespace

TraceInfo monitorMain(const Problem &p, const Config &g, const string &text, Ref &ref, const string &which) {
  Mon m(p, g, ref, which);
  Reader r;
  r.L = lines(text);
  Out o = parseOut(text, false);
  while (r.i < r.L.size() && !m.dead) {
    string s = unglue(r.L[r.i++]);
    Lit l;
    if (starts(s, "Decision: ")) {
      if (parseLit(s.substr(10), l)) m.decision(l);
      else m.kill("C05", "unreadable decision: " + s);
    } else if (starts(s, "Conflict: Propagating ")) {
      if (parseLit(s.substr(22), l)) m.flip(l);
      else m.kill("C05", "unreadable: " + s);
    } else if (starts(s, "Entailment... ")) {
      if (parseLit(s.substr(14), l)) m.entailmentLine(l);
    } else if (starts(s, "Reducing literal: ")) {
      size_t a = s.find(" at level ");
      if (a == string::npos || !parseLit(s.substr(18, a - 18), l)) {
        m.kill("C05", "unreadable: " + s);
        break;
      }
      int lv = atoi(s.c_str() + a + 10);
      if (r.i < r.L.size() && starts(r.L[r.i], "The reason")) r.i++;
      Lit q;
      if (r.i < r.L.size() && parseLit(r.L[r.i], q)) {
        Clause c = r.clause();
        m.reduce(l, lv, true, c, 0);
      } else {
        long code = r.i < r.L.size() ? atol(r.L[r.i++].c_str()) : 0;
        m.reduce(l, lv, false, {}, code);
      }
    } else if (starts(s, "There is a conflict at level: ")) {
      int lv = atoi(s.c_str() + 30);
      if (r.i < r.L.size() && starts(r.L[r.i], "Conflicting clause")) r.i++;
      m.conflict(lv, r.clause());
    } else if (starts(s, "Resolvent:")) {
      m.resolvent(r.clause());
    } else if (starts(s, "Learned a clause:")) {
      m.learn(r.clause());
    } else if (starts(s, "We are backtracking to the level: ")) {
      m.backtrack(atoi(s.c_str() + 34));
    }
  }
  m.finish(o);
  return m.t;
}

// ---------------------------------------------------------------- bitvec
namespace {
typedef pair<int, u64> SL;  // variable, set of values
typedef vector<SL> SC;

bool parseSet(const string &s, SL &l) {
  size_t e = s.find('=');
  if (e == string::npos || e == 0) return false;
  char *q;
  long v = strtol(s.c_str(), &q, 10);
  if (q != s.c_str() + e) return false;
  size_t b = e + 1, n = 0;
  u64 m = 0;
  while (b + n < s.size() && (s[b + n] == '0' || s[b + n] == '1')) {
    m = m << 1 | (u64)(s[b + n] - '0');
    n++;
  }
  if (n == 0 || n > 64 || b + n != s.size()) return false;
  l = {(int)v, m};
  return true;
}
string showSets(const SC &c, const Problem &p) {
  string s = "(";
  for (auto &l : c) {
    if (s.size() > 1) s += " ";
    s += to_string(l.first) + " in {";
    bool first = true;
    for (int a = 0; a < 64; a++)
      if (l.second >> a & 1) {
        if (!first) s += ",";
        first = false;
        s += to_string(a);
      }
    s += "}";
  }
  return s + ")";
}
SC normalSets(const SC &c) {
  map<int, u64> m;
  for (auto &l : c) m[l.first] |= l.second;
  return SC(m.begin(), m.end());
}
}  // namespace

TraceInfo monitorBit(const Problem &p, const Config &g, const string &text, Ref &ref, bool implications) {
  TraceInfo t;
  bool dead = false;
  auto an = [&](const string &m) {
    if (t.an.size() < 50) t.an.push_back({"C21", m});
  };
  auto kill = [&](const string &m) {
    an(m);
    dead = true;
  };
  auto full = [&](int v) { return p.D(v) >= 64 ? ~0ull : (1ull << p.D(v)) - 1; };
  vector<u64> dom(p.n() + 1);
  for (int v = 1; v <= p.n(); v++) dom[v] = full(v);
  struct E {
    int v;
    u64 before;
    int level;
  };
  vector<E> trail;
  int level = 0;
  set<SC> db;
  vector<SC> clauses;  // the same, with repetitions
  vector<vector<double>> score(p.n() + 1);
  for (int v = 1; v <= p.n(); v++) score[v].assign(p.D(v), 0);
  auto bump = [&](const SC &c) {
    for (auto &l : c)
      for (int a = 0; a < p.D(l.first); a++) score[l.first][a] += l.second >> a & 1;
  };
  i64 work = 0;  // bound for the checks at decisions
  for (auto &c : p.cl) {
    map<int, u64> m;
    for (auto &l : c) m[l.v] |= l.eq ? 1ull << l.a : full(l.v) & ~(1ull << l.a);
    SC q;
    for (auto &x : m)
      if (x.second) q.push_back(x);
    db.insert(q);
    clauses.push_back(q);
    bump(q);
  }
  auto validC = [&](const SC &c) {
    for (auto &l : c)
      if (l.first < 1 || l.first > p.n() || (l.second & ~full(l.first))) return false;
    return true;
  };
  auto state = [&](const SL &l) { return !(dom[l.first] & ~l.second) ? 1 : !(dom[l.first] & l.second) ? -1 : 0; };
  auto undo = [&](int to) {
    while (!trail.empty() && trail.back().level > to) {
      dom[trail.back().v] = trail.back().before;
      trail.pop_back();
    }
    level = to;
  };
  // level at which the literal became false
  auto falseLevel = [&](const SL &l) {
    vector<u64> d = dom;
    int lv = 0;
    for (size_t i = trail.size(); i-- > 0;) {
      if (trail[i].v != l.first) continue;
      // state before this reduction
      if (trail[i].before & l.second) return trail[i].level;
    }
    (void)lv;
    return 0;
  };
  auto L = lines(text);
  size_t i = 0;
  // no clause may be false or leave a single open literal when the search decides or ends with SAT
  auto fixpoint = [&](const string &where) {
    if (work > 300000000) return;
    for (auto &c : clauses) {
      int open = 0;
      bool sat = false;
      SL u{0, 0};
      for (auto &l : c) {
        work++;
        int s = state(l);
        if (s > 0) {
          sat = true;
          break;
        }
        if (s == 0 && open++) break;
        if (s == 0) u = l;
      }
      if (sat || open > 1) continue;
      if (t.an.size() < 50)
        t.an.push_back({"C31", open ? where + " although clause " + showSets(c, p) + " forces " + showSets({u}, p) : where + " although clause " + showSets(c, p) + " is false"});
      return;
    }
  };
  auto heuristic = [&](const SL &l) {
    if (work > 300000000) return;
    if (g.heur == VSIDS) {
      double best = -1;
      SL b{0, 0};
      for (int v = 1; v <= p.n(); v++)
        if (dom[v] & (dom[v] - 1))
          for (int a = 0; a < p.D(v); a++)
            if ((dom[v] >> a & 1) && score[v][a] > best) best = score[v][a], b = {v, 1ull << a};
      work += 64 * p.n();
      string m;
      if (l.second & (l.second - 1)) m = "-vsids decides " + showSets({l}, p) + ", not a single value";
      else {
        int a = 0;
        while (!(l.second >> a & 1)) a++;
        if (score[l.first][a] < best)
          m = "-vsids decides " + showSets({l}, p) + " of activity " + to_string(score[l.first][a]) + " although " + showSets({b}, p) + " has activity " + to_string(best);
      }
      if (!m.empty() && t.an.size() < 50) t.an.push_back({"C31", m});
    } else {
      for (auto &c : clauses)
        for (auto &x : c) {
          work++;
          if (x == l) return;
        }
      if (t.an.size() < 50) t.an.push_back({"C31", "decision " + showSets({l}, p) + " is not a literal of a clause"});
    }
  };
  auto readClause = [&]() {
    SC c;
    SL l;
    while (i < L.size() && parseSet(L[i], l)) {
      c.push_back(l);
      i++;
    }
    if (i < L.size() && L[i].empty()) i++;
    return c;
  };
  bool pendDec = false, haveUnit = false, haveLearned = false;
  SL pend{0, 0};
  SC unit, learnedNow;
  int expectJump = 0;
  Out o = parseOut(text, true);
  bool inTrace = true;
  auto implied = [&](const SC &c, const char *what) {
    if (!implications) return;
    try {
      if (!ref.impliesSets(c)) an(string(what) + " " + showSets(c, p) + " does not follow from the input");
    } catch (Budget &) {
      t.budget = true;
    }
  };
  while (i < L.size() && !dead && inTrace) {
    string s = unglue(L[i++]);
    SL l;
    string vs = s;
    if (isVerdict(vs)) break;
    if (starts(s, "Decision: ")) {
      t.decisions++;
      if (!parseSet(s.substr(10), l) || !validC({l})) {
        kill("unreadable decision " + s);
        break;
      }
      if (state(l) != 0) kill("decision " + showSets({l}, p) + " is already decided");
      fixpoint("decision " + showSets({l}, p));
      heuristic(l);
      level++;
      if (level > t.deepest) t.deepest = level;
      pendDec = true;
      haveUnit = false;
      pend = l;
    } else if (starts(s, "unit c : ")) {
      unit = readClause();
      haveUnit = true;
      if (!validC(unit)) kill("unit clause " + showSets(unit, p) + " is not over the problem's variables");
      else if (!db.count(normalSets(unit))) an("unit clause " + showSets(unit, p) + " is neither an input nor a learned clause");
    } else if (s.find(" at level ") != string::npos && parseSet(s.substr(0, s.find(" at level ")), l)) {
      int lv = atoi(s.c_str() + s.find(" at level ") + 10);
      u64 eff = 0, nd = 0;
      bool he = false, hn = false;
      while (i < L.size() && (starts(L[i], "Effect: ") || starts(L[i], "New domain: "))) {
        SL q;
        if (starts(L[i], "Effect: ")) he = parseSet("1=" + L[i].substr(8), q), eff = q.second;
        else hn = parseSet("1=" + L[i].substr(12), q), nd = q.second;
        i++;
      }
      if (!validC({l})) {
        kill("reduction " + showSets({l}, p) + " is not over the problem's variables");
        break;
      }
      if (lv != level) {
        kill("reduction " + showSets({l}, p) + " at level " + to_string(lv) + " but the search is at level " + to_string(level));
        break;
      }
      if (pendDec) {
        if (l != pend) kill("decision " + showSets({pend}, p) + " is followed by reduction " + showSets({l}, p));
        pendDec = false;
      } else if (haveUnit) {
        t.units++;
        bool in = false;
        for (auto &x : unit)
          if (x == l) in = true;
          else if (state(x) != -1) an("reduction " + showSets({l}, p) + " by clause " + showSets(unit, p) + " which has another literal that is not false");
        if (!in) an("reduction " + showSets({l}, p) + " by clause " + showSets(unit, p) + " which does not contain it");
        haveUnit = false;
      } else an("reduction " + showSets({l}, p) + " without reason");
      if ((he && eff != (dom[l.first] & ~l.second)) || (hn && nd != (dom[l.first] & l.second)))
        kill("reduction " + showSets({l}, p) + " reports effect/new domain that do not fit the values still possible");
      if (!(dom[l.first] & l.second)) kill("reduction " + showSets({l}, p) + " leaves no value");
      if (!(dom[l.first] & ~l.second)) an("reduction " + showSets({l}, p) + " has no effect");
      trail.push_back({l.first, dom[l.first], level});
      dom[l.first] &= l.second;
    } else if (starts(s, "There is a conflict at level: ")) {
      t.conflicts++;
      if (atoi(s.c_str() + 30) != level) an("conflict reported at a level that is not the current level " + to_string(level));
      if (i < L.size() && starts(L[i], "Conflicting clause")) i++;
      SC c = readClause();
      SL q;
      while (i < L.size() && parseSet(L[i], q)) i++;  // the watched literals
      if (!validC(c)) {
        kill("conflicting clause is not over the problem's variables");
        break;
      }
      if (!db.count(normalSets(c))) an("conflicting clause " + showSets(c, p) + " is neither an input nor a learned clause");
      for (auto &x : c)
        if (state(x) != -1) {
          an("conflicting clause " + showSets(c, p) + " is not false");
          break;
        }
      haveLearned = false;
    } else if (starts(s, "Resolvent:")) {
      t.resolvents++;
      SC c = readClause();
      if (!validC(c)) an("resolvent is not over the problem's variables");
      else implied(c, "resolvent");
    } else if (starts(s, "Learned a clause:")) {
      t.learned++;
      SC c = readClause();
      if (!validC(c)) {
        kill("learned clause is not over the problem's variables");
        break;
      }
      implied(c, "learned clause");
      int cur = 0;
      expectJump = 0;
      for (auto &x : c) {
        if (state(x) != -1) an("learned clause " + showSets(c, p) + " is not false");
        int q = falseLevel(x);
        if (q == level) cur++;
        else expectJump = max(expectJump, q);
      }
      if (cur != 1) an("learned clause " + showSets(c, p) + " has " + to_string(cur) + " literals falsified at the current level, not one");
      learnedNow = c;
      haveLearned = true;
      db.insert(normalSets(c));
      clauses.push_back(normalSets(c));
      bump(clauses.back());
      for (auto &x : score)
        for (auto &y : x) y /= 2;
    } else if (starts(s, "We are backtracking to the level: ")) {
      int to = atoi(s.c_str() + 34);
      t.backtracks++;
      if (!haveLearned) an("backtracking without a learned clause");
      else if (to != expectJump) an("backtracking to level " + to_string(to) + " instead of " + to_string(expectJump));
      if (to >= level || to < 0) {
        kill("backtracking from level " + to_string(level) + " to " + to_string(to));
        break;
      }
      if (level - to > t.maxJump) t.maxJump = level - to;
      bool rs = g.restart > 0 && t.backtracks % g.restart == 0;
      if (rs) t.restarts++;
      undo(rs ? 0 : to);
      haveLearned = false;
      haveUnit = false;
    }
  }
  if (dead) return t;
  auto eq = [&](const char *k, i64 want) {
    if (o.stat(k) != want) an(string("statistic '") + k + "' is " + to_string(o.stat(k)) + " but the trace shows " + to_string(want));
  };
  eq("Decisions", t.decisions);
  eq("Units", t.units);
  eq("Backtracks", t.backtracks);
  eq("Variables", p.n());
  eq("Clauses", (i64)p.cl.size() + t.learned);
  eq("Restarts", g.restart ? t.backtracks / g.restart : 0);
  if (o.verdict() == "SAT") {
    fixpoint("SAT");
    for (int v = 1; v <= p.n(); v++) {
      auto it = o.sets.find(v);
      SL q;
      if (it == o.sets.end() || !parseSet("1=" + it->second, q) || q.second != dom[v])
        an("printed values of variable " + to_string(v) + " differ from the values left by the surviving reductions");
    }
  } else if (o.verdict() == "UNSAT") {
    if (level != 0) an("UNSAT at level " + to_string(level));
  }
  return t;
}
