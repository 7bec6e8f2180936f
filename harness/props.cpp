#include "props.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "proof.hpp"
#include "runner.hpp"
#include "trace.hpp"
#include <cmath>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace std;
typedef vector<string> SV;

static SV operator+(SV a, const SV &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static string clip(const string &s, size_t n = 700) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
static void need(bool ok) {
  if (!ok) throw Skip{};
}
static string plainName(Config g) {
  bool r = g.restart > 0;
  g.restart = 0;
  return g.name().substr(4) + (r ? " +restart" : "");
}
static const char *flav(const Config &g) { return g.prog ? "bit" : "main"; }

i64 g_cut = 0;
static RunResult solve(const string &flavour, const Config &g, const SV &extra = {}, const RunOpts &o = RunOpts()) {
  if (!g_cut) return run(flavour, g.args() + SV{"-file", "in"} + extra, o);
  // every clock read takes a millisecond
  RunOpts q = o;
  q.step_us = 1000;
  if (g_cut >= 5000) {  // much to do and to report
    q.cpu_s = 60;
    q.fsize = 1ll << 30;
  }
  return run(flavour, g.args() + SV{"-file", "in", "-time", to_string(max<i64>(1, g_cut / 1000))} + extra, q);
}
static i64 ivd(const Case &k, const char *n, i64 d) {
  auto i = k.iv.find(n);
  return i == k.iv.end() ? d : i->second;
}
// other ways of naming the input file that writeFile("in", ...) wrote
static string inputPath(i64 kind, i64 len) {
  static const string longName(200, 'f');
  string p = "in";
  auto alias = [&](const string &n) {
    unlink(n.c_str());
    if (link("in", n.c_str())) return string("in");
    return n;
  };
  switch (kind % 9) {
    case 1: return "./in";
    case 2:
    case 3:
      p = "";
      for (i64 i = 0; i < (kind % 9 == 2 ? 20 + len % 300 : len % 1900); i++) p += "./";
      return p + "in";
    case 4: return alias("input file");
    case 5: return alias(longName);
    case 6: return alias("-in");
    case 7: return alias("100%d%s%n%5c%in");
    case 8: return alias("'in\"$(in);\\n*?\xc3\xa9&in");
    default: return p;
  }
}
// a fixed problem beyond the reach of the reference solver, whose answer is known; parts of it are not
static u64 digest(const Problem &p) {
  u64 h = 1469598103934665603ull;
  for (char c : toText(p)) h = (h ^ (unsigned char)c) * 1099511628211ull;
  return h >> 2;
}
static bool isDeep(const Case &k) { return k.iv.count("deep"); }
static bool truth(const Case &k, Ref &ref) {
  auto i = k.iv.find("known");
  if (i == k.iv.end()) return ref.sat();
  need((u64)i->second >> 1 == digest(k.p) >> 1);
  return i->second & 1;
}
static i64 refBudget() { return g_cut ? 40000 : 200000; }
static bool cutShort(const Out &o, Ctx &x) {
  if (!g_cut || o.verdict() != "TIMEOUT") return false;
  x.label("large runs cut short");
  return true;
}
static void mustEnd(const RunResult &r, const string &what) {
  if (!r.clean()) fail(what + ": run ended abnormally: " + r.ending());
}
static Out solved(const string &flavour, const Config &g, const SV &extra = {}, const RunOpts &o = RunOpts()) {
  RunResult r = solve(flavour, g, extra, o);
  mustEnd(r, g.name());
  Out out = parseOut(r.out, g.prog);
  if (out.verdicts.empty()) fail(g.name() + ": no verdict in the output: " + clip(r.out));
  return out;
}
static void diffFail(const string &what, const string &a, const string &b) {
  if (a != b) fail(what + ":\n  one run:   " + clip(a) + "\n  other run: " + clip(b));
}

// ------------------------------------------------------------------ parsers for files written by the commands
static vector<string> splitLines(const string &t) {
  vector<string> r;
  istringstream in(t);
  string l;
  while (getline(in, l)) r.push_back(l);
  return r;
}
static bool integer(const string &s, long &v) {
  char *e;
  if (s.empty()) return false;
  errno = 0;
  v = strtol(s.c_str(), &e, 10);
  return !*e && !errno;
}
static SV words(const string &l) {
  SV r;
  istringstream in(l);
  string w;
  while (in >> w) r.push_back(w);
  return r;
}
struct Dimacs {
  long n = -1, m = -1;
  vector<vector<int>> cl;
};
static bool header(const string &l, const string &what, long &n, long &m) {
  if (l.empty() || l[0] != 'p') return false;
  SV w = words(l);
  if (w.size() != 4 || w[0] != "p" || w[1] != "cnf" || !integer(w[2], n) || !integer(w[3], m))
    fail(what + ": malformed header '" + clip(l, 200) + "'");
  return true;
}
static Dimacs parseDimacs(const string &t, const string &what) {
  Dimacs d;
  for (auto &l : splitLines(t)) {
    if (l.empty() || l[0] == 'c' || l.find_first_not_of(" \t") == string::npos) continue;
    if (l[0] == 'p') {
      if (d.n >= 0) fail(what + ": second header");
      header(l, what, d.n, d.m);
      continue;
    }
    if (d.n < 0) fail(what + ": clause before the header: " + clip(l, 200));
    vector<int> q;
    bool end = false;
    for (auto &w : words(l)) {
      long v;
      if (end || !integer(w, v)) fail(what + ": malformed clause line '" + clip(l, 200) + "'");
      if (v == 0) end = true;
      else {
        if (labs(v) > d.n) fail(what + ": literal " + w + " exceeds the number of variables " + to_string(d.n) + " in the header");
        q.push_back((int)v);
      }
    }
    if (!end) fail(what + ": clause line without 0: '" + clip(l, 200) + "'");
    d.cl.push_back(q);
  }
  if (d.n < 0) fail(what + ": no header");
  if ((long)d.cl.size() != d.m)
    fail(what + ": header states " + to_string(d.m) + " clauses but there are " + to_string(d.cl.size()));
  return d;
}
// extended DIMACS; positiveOnly: literals v=a only
static Problem parseFinite(const string &t, const string &what) {
  Problem p;
  long n = -1, m = -1;
  for (auto &l : splitLines(t)) {
    if (l.empty() || l[0] == 'c' || l.find_first_not_of(" \t") == string::npos) continue;
    if (l[0] == 'p') {
      if (n >= 0) fail(what + ": second header");
      header(l, what, n, m);
      continue;
    }
    SV w = words(l);
    if (l[0] == 'd') {
      long v, d;
      if (w.size() != 3 || !integer(w[1], v) || !integer(w[2], d)) fail(what + ": malformed line '" + clip(l, 200) + "'");
      if (v != p.n() + 1) fail(what + ": variables are not declared in order: '" + clip(l, 200) + "'");
      if (d < 1) fail(what + ": empty domain: '" + clip(l, 200) + "'");
      if (!p.cl.empty()) fail(what + ": declaration after a clause");
      p.dom.push_back((int)d);
      continue;
    }
    Clause q;
    bool end = false;
    for (auto &x : w) {
      if (end) fail(what + ": text after 0: '" + clip(l, 200) + "'");
      if (x == "0") {
        end = true;
        continue;
      }
      size_t e = x.find('=');
      if (e == string::npos) fail(what + ": malformed literal '" + x + "'");
      bool eq = !(e > 0 && x[e - 1] == '!');
      long v, a;
      if (!integer(x.substr(0, eq ? e : e - 1), v) || !integer(x.substr(e + 1), a)) fail(what + ": malformed literal '" + x + "'");
      if (v < 1 || v > p.n()) fail(what + ": undeclared variable in '" + x + "'");
      if (a < 0 || a >= p.D((int)v)) fail(what + ": value outside the domain in '" + x + "'");
      q.push_back({(int)v, eq, (int)a});
    }
    if (!end) fail(what + ": clause line without 0: '" + clip(l, 200) + "'");
    p.cl.push_back(q);
  }
  if (n < 0) fail(what + ": no header");
  if (n != p.n()) fail(what + ": header states " + to_string(n) + " variables but " + to_string(p.n()) + " are declared");
  if (m != (long)p.cl.size()) fail(what + ": header states " + to_string(m) + " clauses but there are " + to_string(p.cl.size()));
  return p;
}
static vector<vector<int>> signedClauses(const Problem &p) {
  vector<vector<int>> r;
  for (auto &q : p.cl) {
    vector<int> x;
    for (auto &l : q) x.push_back((l.a == 1) == l.eq ? l.v : -l.v);
    r.push_back(x);
  }
  return r;
}
static string dimacsText(const Problem &p, Choices *mangle = nullptr);

// ------------------------------------------------------------------ generators of whole cases
static Case caseOf(Choices &c, const GenOpts &o) {
  Case k;
  k.p = genProblem(c, o, k.kind);
  return k;
}
static GenOpts small(double bitsMax = 11) {
  GenOpts o;
  o.bitsMax = bitsMax;
  return o;
}
static GenOpts searchy(Choices &c, bool thorough) {
  GenOpts o;
  o.bitsMin = 5;
  o.bitsMax = thorough && c.chance(1, 3) ? 20 : 15;
  o.tgtMin = -5;
  o.tgtMax = 2;
  return o;
}
// problems at the border between satisfiable and unsatisfiable
static GenOpts hardy(Choices &c, bool thorough, double maxBits = 20) {
  GenOpts o;
  o.hard = true;
  o.bitsMin = 9;
  o.bitsMax = maxBits + (thorough && c.chance(1, 4) ? 4 : 0);
  o.maxVars = 26;
  o.maxClauses = 300;
  o.tgtMin = -2;
  o.tgtMax = 1;
  o.emptyClauses = false;
  return o;
}
static GenOpts mixed(Choices &c, bool thorough, double maxBits = 20) {
  switch (c.in(0, 9)) {
    case 0:
    case 1:
    case 2: return small();
    case 3:
    case 4:
    case 5: return searchy(c, thorough);
    default: return hardy(c, thorough, maxBits);
  }
}
// a few per cent of the cases are large
static bool large(Choices &c, Case &k, int maxDom = 5000, int pct = 6) {
  static const bool force = getenv("VERIF_LARGE");
  if (c.in(0, 99) >= pct && !force) return false;
  k.p = genLarge(c, maxDom, k.kind);
  k.iv["cut"] = 3000;
  return true;
}
static void addConfigs(Choices &c, Case &k, int n, bool nonLazy = false) {
  for (int i = 0; i < n; i++) k.cfgs.push_back(genMain(c, nonLazy));
}

// arbitrary spelling of a problem that means the same token sequence
static string mangled(const Problem &p, Choices &c, bool boolean = false, bool fileFormatOnly = false, bool anyCount = false) {
  auto ws = [&]() {
    string s;
    switch (c.in(0, 9)) {
      case 0: return string(c.in(1, 3), '\t');
      case 1: return string(c.in(2, 9), ' ');
      case 2: s = " \t ";
        return s;
      case 3: return c.chance(1, 12) ? string(c.in(200, 6000), c.chance(1, 2) ? ' ' : '\t') : string(" ");
      default: return string(" ");
    }
  };
  string t;
  // one line of the file beyond the sizes of common buffers
  i64 vast = 0, vastAt = 0;
  if (c.chance(1, 60)) {
    static const int sizes[] = {8180, 32760, 65530, 65530, 131070, 1048570};
    vast = sizes[c.in(0, 5)] + c.in(0, 12);
    vastAt = c.in(0, (int)p.cl.size());
  }
  auto noise = [&]() {
    while (c.chance(1, 6)) {
      if (c.chance(1, 2)) {
        static const char *cs[] = {"c", "c comment", "cnf 1 2", "c p cnf 9 9", "c d 1 5", "c 1=0 0", "c\t0"};
        t += c.chance(1, 20) ? "c " + string(c.in(500, 5000), 'x') : string(cs[c.in(0, 6)]);
      } else {
        t += c.chance(1, 2) ? string() : string(c.in(1, c.chance(1, 10) ? 3000 : 4), c.chance(1, 2) ? ' ' : '\t');
      }
      t += "\n";
    }
  };
  noise();
  string stated = to_string(p.cl.size());
  if (anyCount && c.chance(1, 4)) {  // as in the README's example
    static const char *nums[] = {"0", "1", "2147483647", "99999999"};
    int i = c.in(0, 5);
    stated = i < 4 ? string(nums[i]) : to_string(p.cl.size() + (i == 4 ? 1 : p.cl.empty() ? 0 : -1));
  }
  const char *key = fileFormatOnly ? "cnf" : (c.chance(1, 2) ? "mvcnf" : "cnf");
  string head = "p" + ws() + key + ws() + to_string(p.n()) + ws() + stated + (c.chance(1, 5) ? ws() : "");
  // the solvers do not need the header: files of the benchmarks have it at the end or not at all
  int place = anyCount && c.chance(1, 6) ? c.in(1, 4) : 0;
  if (!place) {
    t += head + "\n";
    noise();
  }
  if (!boolean)
    for (int i = 1; i <= p.n(); i++) {
      t += "d" + ws() + to_string(i) + ws() + to_string(p.D(i)) + (c.chance(1, 5) ? ws() : "") + "\n";
      noise();
    }
  if (place == 1) t += head + "\n";
  size_t middle = place == 2 && !p.cl.empty() ? 1 + (size_t)c.in(0, (int)p.cl.size() - 1) : 0;
  for (auto &q : p.cl) {
    if (middle && !--middle) t += head + "\n";
    if (c.chance(1, 8)) t += ws();
    for (auto &l : q) {
      if (boolean) t += to_string((l.a == 1) == l.eq ? l.v : -l.v);
      else t += show(l);
      t += ws();
      if (vast && !vastAt) t += string(vast, ' '), vast = 0;
    }
    vastAt--;
    if (q.empty() || !c.chance(1, 6) || boolean) t += "0";
    if (c.chance(1, 8)) t += ws();
    t += "\n";
    noise();
  }
  if (place == 3) t += head + "\n";
  if (!t.empty() && c.chance(1, 4)) t.pop_back();
  return t;
}
static string dimacsText(const Problem &p, Choices *m) {
  if (m) return mangled(p, *m, true, true);
  string t = "p cnf " + to_string(p.n()) + " " + to_string(p.cl.size()) + "\n";
  for (auto &q : signedClauses(p)) {
    for (int l : q) t += to_string(l) + " ";
    t += "0\n";
  }
  return t;
}

// ------------------------------------------------------------------ C01..C03
static void checkModel(const Problem &p, const Config &g, const Out &o, Ref *ref) {
  string w = g.name() + ": ";
  if (!o.modelSection) fail(w + "SAT without a model");
  if (!o.oddModelLines.empty()) fail(w + "unreadable model line '" + clip(o.oddModelLines[0], 100) + "'");
  vector<int> val(p.n(), -1);
  for (auto &l : o.model) {
    if (l.v < 1 || l.v > p.n() || l.a < 0 || l.a >= p.D(l.v)) fail(w + "model lists " + show(l) + " which is outside the domain");
    if (val[l.v - 1] >= 0) fail(w + "model lists two values of variable " + to_string(l.v));
    val[l.v - 1] = l.a;
  }
  string m;
  for (auto &l : o.model) m += " " + show(l);
  if ((int)o.model.size() == p.n()) {
    for (auto &q : p.cl)
      if (!holds(q, val)) fail(w + "model {" + m + " } does not satisfy clause " + show(q));
  } else if (!g.lazy()) {
    fail(w + "model {" + m + " } lists " + to_string(o.model.size()) + " of " + to_string(p.n()) + " variables");
  } else if (ref && !ref->satWith(o.model)) {
    fail(w + "model {" + m + " } cannot be extended to a solution");
  }
  if (o.verify != 1) fail(w + "SAT without the line 'model is CORRECT'");
}

static bool c01(const Case &k, Ctx &x) {
  need(validProblem(k.p) && !k.cfgs.empty());
  Ref ref(k.p, refBudget());
  bool sat = truth(k, ref);
  x.label(sat ? "satisfiable" : "unsatisfiable");
  writeFile("in", toText(k.p));
  bool nt = false;
  for (auto &g : k.cfgs) {
    Out o = solved(flav(g), g);
    if (cutShort(o, x)) continue;
    string want = sat ? "SAT" : "UNSAT";
    if (o.verdict() != want || o.verdicts.size() != 1) {
      string got;
      for (auto &v : o.verdicts) got += " " + v;
      fail(g.name() + ": answers" + got + " but the problem is " + (sat ? "satisfiable" : "unsatisfiable"));
    }
    if (o.stat("Backtracks") > 0) nt = true;
    if (o.stat("Restarts") > 0) x.label("runs with restarts");
    x.label("cfg " + plainName(g));
  }
  x.label("kind " + k.kind);
  return nt;
}

static bool c02(const Case &k, Ctx &x) {
  need(validProblem(k.p) && !k.cfgs.empty());
  Ref ref(k.p, refBudget());
  writeFile("in", toText(k.p));
  bool nt = false;
  for (auto &g : k.cfgs) {
    Out o = solved(flav(g), g);
    if (o.verdict() == "SAT") {
      checkModel(k.p, g, o, &ref);
      if (k.p.n() >= 2 && k.p.cl.size() >= 2) nt = true;
      x.label(o.stat("Backtracks") ? "SAT after backtracking" : "SAT without backtracking");
      if ((int)o.model.size() < k.p.n()) x.label("partial model (lazy)");
    } else {
      if (o.modelSection || o.verify) fail(g.name() + ": model listed although the verdict is " + o.verdict());
      x.label("UNSAT");
    }
  }
  return nt;
}

static bool c03(const Case &k, Ctx &x) {
  need(validProblem(k.p) && !k.cfgs.empty());
  writeFile("in", toText(k.p));
  bool nt = false;
  RunOpts ro;
  ro.stack_kb = ivd(k, "stack", 0);
  for (auto &g : k.cfgs) {
    RunResult r = solve(flav(g), g, {}, ro);
    mustEnd(r, ro.stack_kb ? g.name() + " with a stack of " + to_string(ro.stack_kb) + " kB" : g.name());
    Out o = parseOut(r.out, false);
    if (o.verdicts.size() != 1) fail(g.name() + ": " + to_string(o.verdicts.size()) + " verdict lines: " + clip(r.out));
    if (o.verdict() == "TIMEOUT" && !cutShort(o, x)) fail(g.name() + ": TIMEOUT although no time passed");
    for (auto s : {"Decisions", "Units", "Backtracks", "Entails", "Variables", "Clauses", "Restarts"})
      if (o.stat(s) < 0) fail(g.name() + ": statistic " + s + " missing after the verdict");
    if (o.stat("Backtracks") > 2) nt = true;
    if (o.stat("Restarts") > 0) x.label("runs with restarts");
    if (o.stat("Backtracks") > 100) x.label("runs with > 100 backtracks");
  }
  x.label("kind " + k.kind);
  return nt;
}

// ------------------------------------------------------------------ C04..C09, C21: trace monitors
static bool traced(const Case &k, Ctx &x, const string &tag) {
  need(validProblem(k.p) && !k.cfgs.empty());
  Ref ref(k.p, refBudget());
  writeFile("in", toText(k.p));
  bool nt = false, deep = isDeep(k), answer = tag == "C08" && (!deep || k.iv.count("known")), sat = answer && truth(k, ref);
  for (auto &g : k.cfgs) {
    RunResult r = solve("main", g, {"-verbose"});
    mustEnd(r, g.name());
    TraceInfo t = monitorMain(k.p, g, r.out, ref, deep && tag == "C04" ? "" : tag);
    for (auto &a : t.an)
      if (a.tags.find(tag) != string::npos) fail(g.name() + ": " + a.msg);
    if (t.budget) x.label("implication undecided (budget)");
    if (tag == "C08") {
      Out o = parseOut(r.out, false);
      if (!cutShort(o, x) && answer && o.verdict() != (sat ? "SAT" : "UNSAT")) fail(g.name() + ": wrong verdict " + o.verdict());
      nt |= t.restarts > 0;
    } else if (tag == "C04") nt |= t.resolvents > 0;
    else if (tag == "C05") nt |= t.units + t.entails > 2 && t.decisions > 0;
    else if (tag == "C06") nt |= t.backtracks > 0 && t.decisions > 1;
    else if (tag == "C07") nt |= t.decisions > 1 && (t.learned > 0 || g.ch || t.decisions > 4);
    else nt |= t.backtracks > 0;
    if (tag == "C09") {  // without -verbose the same search happens
      RunResult q = solve("main", g);
      mustEnd(q, g.name());
      Out a = parseOut(r.out, false), b = parseOut(q.out, false);
      if (a.verdict() != "TIMEOUT" && b.verdict() != "TIMEOUT")
        for (auto &s : a.stats)
          if (b.stat(s.first) != s.second)
            fail(g.name() + ": statistic '" + s.first + "' is " + to_string(b.stat(s.first)) + " without -verbose but " + to_string(s.second) + " with it");
    }
    if (t.backtracks) x.label("runs with backtracking");
    if (t.restarts) x.label("runs with restarts");
    if (t.entails) x.label("runs with entailments");
    if (t.maxJump > 1) x.label("runs with a backjump over >1 level");
    if (t.learned > 20) x.label("runs with > 20 learned clauses");
    if (t.learned > 1000) x.label("runs with > 1000 learned clauses");
    if (t.deepest > 100) x.label("runs with > 100 levels");
    if (t.learnedMax > 50) x.label("runs with learned clauses of > 50 literals");
    x.label("cfg " + plainName(g));
  }
  return nt;
}
static bool bitTraced(const Case &k, Ctx &x, const string &tag) {
  need(validProblem(k.p, 64) && !k.cfgs.empty());
  Ref ref(k.p, refBudget());
  writeFile("in", toText(k.p));
  bool nt = false;
  for (auto &g : k.cfgs) {
    RunResult r = solve("bit", g, {"-verbose"});
    mustEnd(r, g.name());
    TraceInfo t = monitorBit(k.p, g, r.out, ref, tag != "C31" && !isDeep(k));
    for (auto &a : t.an)
      if (a.tags.find(tag) != string::npos) fail(g.name() + ": " + a.msg);
    nt |= tag == "C31" ? t.decisions > 1 && (t.learned > 0 || t.decisions > 4) : t.backtracks > 0;
    if (tag == "C31" && g.heur == VSIDS) x.label("runs with -vsids");
    if (t.backtracks) x.label("runs with backtracking");
    if (t.restarts) x.label("runs with restarts");
    if (t.resolvents) x.label("runs with resolvents");
    if (t.learned > 1000) x.label("runs with > 1000 learned clauses");
    if (t.deepest > 100) x.label("runs with > 100 levels");
    if (t.learnedMax > 50) x.label("runs with learned clauses of > 50 literals");
    if (t.maxJump > 1) x.label("runs with a backjump over >1 level");
  }
  return nt;
}
static bool c21(const Case &k, Ctx &x) { return bitTraced(k, x, "C21"); }
static bool c31(const Case &k, Ctx &x) { return bitTraced(k, x, "C31"); }

// ------------------------------------------------------------------ C10
static Problem rewriteProblem(const Problem &p0, Choices &c, Ctx *x) {
  Problem p = p0;
  int done = 0;
  auto lab = [&](const char *s) {
    done++;
    if (x) x->label(string("rewrite ") + s);
  };
  if (c.chance(1, 2)) {
    lab("variables renamed");
    vector<int> perm;
    for (int i = 1; i <= p.n(); i++) perm.push_back(i);
    c.shuffle(perm);
    Problem q = p;
    for (int i = 0; i < p.n(); i++) q.dom[perm[i] - 1] = p.dom[i];
    for (auto &k : q.cl)
      for (auto &l : k) l.v = perm[l.v - 1];
    p = q;
  }
  if (c.chance(1, 2)) {
    lab("values permuted");
    for (int v = 1; v <= p.n(); v++) {
      vector<int> perm;
      for (int j = 0; j < p.D(v); j++) perm.push_back(j);
      c.shuffle(perm);
      for (auto &k : p.cl)
        for (auto &l : k)
          if (l.v == v) l.a = perm[l.a];
    }
  }
  if (c.chance(1, 2)) {
    lab("v!=a expanded");
    int pct = c.in(1, 100);
    for (auto &k : p.cl) {
      Clause q;
      for (auto &l : k)
        if (!l.eq && c.in(0, 99) < pct && p.D(l.v) > 1 && p.D(l.v) <= 40) {
          for (int j = 0; j < p.D(l.v); j++)
            if (j != l.a) q.push_back({l.v, true, j});
        } else q.push_back(l);
      k = q;
    }
  }
  if (c.chance(1, 3)) {
    lab("literals repeated");
    for (auto &k : p.cl)
      if (!k.empty() && c.chance(1, 3)) k.insert(k.begin() + c.in(0, (int)k.size()), k[c.in(0, (int)k.size() - 1)]);
  }
  if (c.chance(1, 3) && !p.cl.empty()) {
    lab("clauses repeated");
    for (int i = c.in(1, 4); i > 0; i--) {
      Clause q = p.cl[c.in(0, (int)p.cl.size() - 1)];
      p.cl.push_back(q);
    }
  }
  if (c.chance(1, 3)) {
    lab("tautologies added");
    for (int i = c.in(1, 3); i > 0; i--) {
      int v = c.in(1, p.n()), a = c.in(0, p.D(v) - 1);
      Clause q{{v, true, a}, {v, false, a}};
      if (c.chance(1, 2)) {
        int w = c.in(1, p.n());
        q.push_back({w, c.chance(1, 2), c.in(0, p.D(w) - 1)});
      }
      c.shuffle(q);
      p.cl.insert(p.cl.begin() + c.in(0, (int)p.cl.size()), q);
    }
  }
  if (c.chance(1, 2) || !done) {
    lab("reordered");
    c.shuffle(p.cl);
    for (auto &k : p.cl) c.shuffle(k);
  }
  return p;
}
static bool c10(const Case &k, Ctx &x) {
  need(validProblem(k.p) && !k.cfgs.empty() && !k.aux.empty());
  Choices c(k.aux);
  bool nt = false;
  bool form = k.iv.count("format") && k.iv.at("format");
  string t1 = toText(k.p, "cnf"), t2;
  Problem q;
  if (form) t2 = mangled(k.p, c, false, false, true);
  else {
    q = rewriteProblem(k.p, c, &x);
    t2 = toText(q, "cnf");
  }
  for (auto &g : k.cfgs) {
    writeFile("in", t1);
    Out a = solved(flav(g), g);
    writeFile("in", t2);
    Out b = solved(flav(g), g);
    if (form) {
      if (essence(a) != essence(b)) fail(g.name() + ": spelling changes the result\n  canonical: " + clip(essence(a)) + "\n  respelled: " + clip(essence(b)) + "\n--- respelled file (clipped)\n" + clip(t2, 1500));
      x.label("respelled");
    } else {
      if (cutShort(a, x) || cutShort(b, x)) continue;
      if (a.verdict() != b.verdict())
        fail(g.name() + ": verdict " + a.verdict() + " becomes " + b.verdict() + " after an equivalent rewriting\n--- rewritten file (clipped)\n" + clip(t2, 1500));
      x.label("rewritten");
    }
    if (a.stat("Decisions") + a.stat("Units") > 0) nt = true;
  }
  return nt;
}

// ------------------------------------------------------------------ C11
static bool c11(const Case &k, Ctx &x) {
  need(validProblem(k.p, k.cfgs.empty() || k.cfgs[0].prog ? 64 : 1 << 20) && !k.cfgs.empty());
  auto iv = [&](const char *n) {
    auto i = k.iv.find(n);
    return i == k.iv.end() ? (i64)0 : i->second;
  };
  const Config &g = k.cfgs[0];
  writeFile("in", toText(k.p));
  i64 T = iv("T");
  SV opt;
  if (!iv("noopt")) opt = {"-time", to_string(T)};
  else T = g.prog ? 3600 : 3600000;
  RunResult r0 = solve(flav(g), g, opt);
  mustEnd(r0, g.name());
  Out o0 = parseOut(r0.out, g.prog);
  if (o0.verdict() != "SAT" && o0.verdict() != "UNSAT") fail(g.name() + ": verdict '" + o0.verdict() + "' although no time passed");
  i64 K = r0.calls;
  string what = g.name() + (opt.empty() ? "" : " -time " + to_string(T));
  auto runWith = [&](const RunOpts &o) {
    RunResult r = solve(flav(g), g, opt, o);
    mustEnd(r, what);
    return r;
  };
  auto mustTimeout = [&](const RunResult &r, const string &how) {
    Out o = parseOut(r.out, g.prog);
    if (o.verdicts.size() != 1 || o.verdict() != "TIMEOUT")
      fail(what + ": verdict '" + o.verdict() + "' instead of TIMEOUT, " + how);
    if (o.modelSection || o.verify) fail(what + ": model listed after TIMEOUT");
  };
  auto mustSame = [&](const RunResult &r, const string &how) {
    Out o = parseOut(r.out, g.prog);
    if (o.verdict() == "TIMEOUT") fail(what + ": TIMEOUT " + how);
    diffFail(what + ": the clock changes the result, " + how, essence(o0), essence(o));
  };
  // 1. time passes, but not enough
  {
    RunOpts o;
    o.jump_at = 2 + iv("at") % max<i64>(1, K);
    o.jump_us = max<i64>(0, T * 1000000 - 2000 - iv("slack") * 1000);
    mustSame(runWith(o), "although only " + to_string(o.jump_us / 1e6) + " s have passed");
  }
  // 2. much time passes before the search starts
  {
    RunOpts o;
    o.jump_read = true;
    o.jump_us = (T + 5) * 1000000;
    if (iv("early")) {
      mustSame(runWith(o), "although the time passed before the search");
      x.label("time passes while reading the input");
    }
  }
  // 3. slow clock drift that stays below the limit
  if (T > 0) {
    RunOpts o;
    o.step_us = (T * 1000000 - 1) / (K + 10);
    if (o.step_us > 0) mustSame(runWith(o), "although less than " + to_string(T) + " s have passed");
  }
  bool nt = false;
  if (K >= 30) {
    // 4. the limit is exceeded in the middle of the search
    RunOpts o;
    o.jump_at = 10 + iv("at") % (K - 25);
    o.jump_us = T * 1000000 + 2000 + iv("over") * 1000;
    RunResult r = runWith(o);
    mustTimeout(r, "although " + to_string(o.jump_us / 1e6) + " s have passed at check " + to_string(o.jump_at) + " of " + to_string(K));
    if (r.calls > o.jump_at + 20) fail(what + ": the search went on for " + to_string(r.calls - o.jump_at) + " clock checks after the limit");
    // 5. drift beyond the limit
    RunOpts d;
    d.step_us = (i64)(T * 1e6 / (10 + iv("at") % (K - 25))) + 1;
    r = runWith(d);
    mustTimeout(r, "although the limit is exceeded after a part of the search");
    if (r.calls > T * 1000000 / d.step_us + 25) fail(what + ": the search went on after the limit");
    nt = true;
    x.label("interrupted searches");
    if (g.prog) x.label("bitvec");
  }
  return nt;
}

// ------------------------------------------------------------------ C25
// the reported times: "in \t<reading>\t ... <search>\t <total>\t" before the verdict
struct Times {
  bool ok = false;
  double build = 0, search = 0, total = 0;
};
static Times parseTimes(const string &out, const string &file) {
  Times t;
  size_t a = out.find(file + " \t");
  if (a == string::npos) return t;
  char *e;
  a += file.size() + 2;
  const char *p = out.c_str() + a;
  t.build = strtod(p, &e);
  if (e == p) return t;
  // the last line that is two numbers and nothing else behind them
  size_t pos = a;
  bool found = false;
  while (pos < out.size()) {
    size_t nl = out.find('\n', pos);
    if (nl == string::npos) nl = out.size();
    string line = out.substr(pos, nl - pos);
    size_t n = line.size();
    while (n && isspace((unsigned char)line[n - 1])) n--;
    size_t b = n;
    while (b && !isspace((unsigned char)line[b - 1])) b--;
    size_t m = b;
    while (m && isspace((unsigned char)line[m - 1])) m--;
    size_t d = m;
    while (d && !isspace((unsigned char)line[d - 1])) d--;
    string s1 = line.substr(d, m - d), s2 = line.substr(b, n - b);
    auto num = [](const string &s) { return s.find('.') != string::npos && s.find_first_not_of("0123456789.-") == string::npos; };
    if (num(s1) && num(s2)) t.search = atof(s1.c_str()), t.total = atof(s2.c_str()), found = true;
    if (found) break;
    pos = nl + 1;
  }
  t.ok = found;
  return t;
}
static bool c25(const Case &k, Ctx &x) {
  need(validProblem(k.p, k.cfgs.empty() || k.cfgs[0].prog ? 64 : 1 << 20) && !k.cfgs.empty());
  const Config &g = k.cfgs[0];
  writeFile("in", toText(k.p));
  i64 D = ivd(k, "D", 0);
  string path = inputPath(ivd(k, "path", 0), ivd(k, "pathlen", 0));
  SV opt{"-file", path};
  RunResult r0 = solve(flav(g), g, opt);
  mustEnd(r0, g.name());
  i64 K = r0.calls;
  auto times = [&](const RunResult &r, const string &how) {
    mustEnd(r, g.name());
    Times t = parseTimes(r.out, path);
    if (!t.ok) fail(g.name() + ": no times for the file '" + clip(path) + "' in the output, " + how + ": " + clip(r.out));
    return t;
  };
  auto near = [](double a, double b) { return fabs(a - b) <= 0.00021; };
  auto bad = [&](const Times &t, const string &why) {
    char b[200];
    snprintf(b, sizeof b, ": reported times: reading %.4f, search %.4f, total %.4f; ", t.build, t.search, t.total);
    fail(g.name() + b + why);
  };
  auto sum = [&](const Times &t) {
    if (!near(t.build + t.search, t.total)) bad(t, "the total is not the sum");
  };
  Times t = times(r0, "frozen clock");
  if (!near(t.build, 0) || !near(t.search, 0)) bad(t, "although no time passed");
  sum(t);
  string sec = to_string(D / 1e6);
  {
    RunOpts o;
    o.jump_read = true;
    o.jump_us = D;
    RunResult r = solve(flav(g), g, opt, o);
    t = times(r, "slow reading");
    if (r.jumped_read) {
      if (!near(t.build, D / 1e6)) bad(t, "but reading the input took " + sec + " s");
      if (!near(t.search, 0)) bad(t, "but all time passed while reading the input");
      sum(t);
    }
  }
  {
    RunOpts o;
    o.step_us = 1 + ivd(k, "step", 0);
    RunResult r = solve(flav(g), g, opt, o);
    t = times(r, "steady clock");
    sum(t);
    double all = r.calls * o.step_us / 1e6, slack = 14 * o.step_us / 1e6;
    if (t.total > all + 0.0002) bad(t, "but the whole run took only " + to_string(all) + " s");
    if (t.total < all - slack - 0.0004) bad(t, "but the run took " + to_string(all) + " s");
  }
  bool nt = false;
  if (K >= 30) {
    RunOpts o;
    o.jump_at = 10 + ivd(k, "at", 0) % (K - 25);
    o.jump_us = D;
    if (ivd(k, "limit", 0)) opt = opt + SV{"-time", to_string(max<i64>(0, D / 1000000 - 1))};
    RunResult r = solve(flav(g), g, opt, o);
    t = times(r, "slow search");
    if (!near(t.build, 0)) bad(t, "but no time passed while reading the input");
    if (!near(t.search, D / 1e6)) bad(t, "but the search took " + sec + " s");
    sum(t);
    nt = D > 0;
    x.label(parseOut(r.out, g.prog).verdict() == "TIMEOUT" ? "times of an interrupted search" : "times of a completed search");
    if (g.prog) x.label("bitvec");
  }
  return nt;
}

// ------------------------------------------------------------------ C12
static SV groups(const SV &opts) {
  // options with their values, the command first
  SV r;
  for (size_t i = 1; i < opts.size(); i++) {
    string s = opts[i];
    if (s == "-restart" || s == "-restarts" || s == "-file" || s == "-time" || s == "-var" || s == "-clause" || s == "-clausesize")
      s += '\n' + opts[++i];
    r.push_back(s);
  }
  return r;
}
static SV ungroup(const string &cmd, const SV &g) {
  SV r{cmd};
  for (auto &s : g) {
    size_t e = s.find('\n');
    r.push_back(s.substr(0, e));
    if (e != string::npos) r.push_back(s.substr(e + 1));
  }
  return r;
}
static bool c12(const Case &k, Ctx &x) {
  need(validProblem(k.p, !k.cfgs.empty() && k.cfgs[0].prog ? 64 : 1 << 20) && !k.cfgs.empty() && !k.aux.empty());
  writeFile("in", toText(k.p));
  Choices c(k.aux);
  bool nt = false;
  for (auto &g : k.cfgs) {
    RunOpts pa, pb;
    pa.perturb = 0x55;
    pb.perturb = 0xAA;
    if (c.chance(1, 4)) pb.perturb = 0xFF;
    if (c.chance(1, 4)) pa.perturb = 1;
    SV base = g.args() + SV{"-file", "in"};
    if (g_cut) base = base + SV{"-time", to_string(max<i64>(1, g_cut / 1000))};
    auto doRun = [&](const string &f, const SV &a, RunOpts o, const char *what) {
      if (g_cut) o.step_us = 1000;
      RunResult r = run(f, a, o);
      mustEnd(r, g.name() + " (" + what + ")");
      return parseOut(r.out, g.prog);
    };
    Out o0 = doRun(flav(g), base, RunOpts(), "plain");
    string e0 = essence(o0);
    if (o0.verdicts.empty()) fail(g.name() + ": no verdict");
    diffFail(g.name() + ": the same command gives different results", e0, essence(doRun(flav(g), base, RunOpts(), "again")));
    diffFail(g.name() + ": leftover memory contents change the result", e0, essence(doRun(flav(g), base, pa, "memory filled")));
    diffFail(g.name() + ": leftover memory contents change the result", e0, essence(doRun(flav(g), base, pb, "memory filled")));
    {
      RunOpts o;
      o.step_us = c.in(1, 300);
      o.base_us = 1000000ll * c.in(1, 2000000000);
      if (!g_cut) diffFail(g.name() + ": the clock changes the result", e0, essence(doRun(flav(g), base, o, "other time")));
    }
    if (!g.prog) {
      diffFail(g.name() + ": the optimisation level (-O0) changes the result", e0, essence(doRun("main0", base, pa, "-O0")));
      diffFail(g.name() + ": the optimisation level (-O3) changes the result", e0, essence(doRun("main3", base, pb, "-O3")));
    } else diffFail(g.name() + ": the optimisation level (-O0) changes the result", e0, essence(doRun("bit0", base, pa, "-O0")));
    // order and noise
    SV gr = groups(base);
    c.shuffle(gr);
    SV a = ungroup(base[0], gr);
    {
      i64 kind = c.in(0, 12), len = c.in(0, 1 << 20);
      for (auto &t : a)
        if (t == "in") t = inputPath(kind, len);
    }
    auto join = [](const SV &v) {
      string s;
      for (auto &t : v) s += " " + t;
      return s;
    };
    diffFail("option order matters:" + join(a), e0, essence(doRun(flav(g), a, RunOpts(), "reordered")));
    SV noise{"-var\n7", "-clause\n3", "-clausesize\n" + to_string(c.chance(2, 3) ? c.in(1, 9) : c.in(10, 100)), "-nosuchoption", "word", g_cut ? string("-unknown") : string("-time\n1000")};
    c.shuffle(noise);
    for (int i = c.in(1, 4); i > 0; i--) gr.insert(gr.begin() + c.in(0, (int)gr.size()), noise[i]);
    a = ungroup(base[0], gr);
    diffFail("irrelevant options matter:" + join(a), e0, essence(doRun(flav(g), a, RunOpts(), "noise options")));
    // -verbose
    gr = groups(base);
    gr.insert(gr.begin() + c.in(0, (int)gr.size()), "-verbose");
    diffFail(g.name() + ": -verbose changes the result", e0, essence(doRun(flav(g), ungroup(base[0], gr), RunOpts(), "-verbose")));
    if (o0.stat("Backtracks") > 0) nt = true;
    x.label(g.prog ? "bitvec" : "main");
  }
  return nt;
}

// ------------------------------------------------------------------ conversions
static string convert(const char *cmd, const string &text, const char *flavour = "main", Choices *ord = nullptr) {
  writeFile("in", text);
  unlink("out");
  SV a{cmd};
  if (ord && ord->chance(1, 2)) a = a + SV{"-model", "out", "-file", "in"};
  else a = a + SV{"-file", "in", "-model", "out"};
  RunResult r = run(flavour, a);
  mustEnd(r, cmd);
  string out;
  if (!readFile("out", out)) fail(string(cmd) + ": no output file written");
  return out;
}
static string inputText(const Case &k, bool boolean = false) {
  if (!k.aux.empty() && k.aux[0]) {
    Choices c(k.aux);
    return boolean ? mangled(k.p, c, true, true) : mangled(k.p, c);
  }
  return boolean ? dimacsText(k.p) : toText(k.p, "cnf");
}

// encodings of large problems, where models cannot be counted: sampled assignments and value pairs
static bool largeEncoding(const Case &k, const Problem &enc, const vector<int> &first, bool linear,
                          const function<vector<Lit>(const vector<int> &)> &lits, const string &what, Ctx &x) {
  Choices c(k.hash());
  Ref src(k.p, 40000);
  x.label("large");
  bool sat = src.sat();
  vector<int> m = src.model;
  if (!sat)
    for (int d : k.p.dom) m.push_back(c.in(0, d - 1));
  Ref e(enc, 400000);
  if (e.satWith(lits(m)) != sat) fail(what + (sat ? ": a solution of the input is not a model of the encoding" : ": an assignment that is no solution of the input is a model of the encoding"));
  if (sat) {
    Problem one = enc;
    for (auto &l : lits(m)) one.cl.push_back({l});
    double n = Ref(one, 400000).count();
    if (n != 1) fail(what + ": a solution of the input corresponds to " + to_string((i64)n) + " models of the encoding");
  }
  for (int i = 0; i < 8; i++) {
    vector<int> q = m;
    for (int j = c.chance(2, 3) ? 1 : c.in(2, 4); j > 0; j--) {
      int v = c.in(1, k.p.n());
      q[v - 1] = c.in(0, k.p.D(v) - 1);
    }
    if (e.satWith(lits(q)) != holds(k.p, q))
      fail(what + (holds(k.p, q) ? ": a solution of the input is not a model of the encoding" : ": an assignment that is no solution of the input is a model of the encoding"));
  }
  if (sat)
    for (int i = 0; i < 4; i++) {
      int v = c.in(1, k.p.n());
      if (k.p.D(v) < (linear ? 3 : 2)) continue;
      vector<int> q = m;
      vector<Lit> u = lits(q);  // one more value of v
      int a = c.in(0, k.p.D(v) - 2);
      a += a >= q[v - 1];
      for (auto &l : u)
        if (l.v == first[v] + a) l.a = 1;
      if (e.satWith(u)) fail(what + ": a variable can have two values");
      u = lits(q);  // no value of v
      for (auto &l : u)
        if (l.v == first[v] + q[v - 1]) l.a = 0;
      if (e.satWith(u)) fail(what + ": a variable can have no value");
    }
  return sat;
}

static bool c14(const Case &k, Ctx &x) {
  need(validProblem(k.p, 100000) && !k.p.cl.empty());
  string text = inputText(k);
  if (ivd(k, "undeclared", 0)) {  // two values is the default of a variable without a domain line
    string t;
    Choices c((u64)ivd(k, "undeclared", 0));
    int left = 0;
    for (auto &l : splitLines(text)) {
      SV w = words(l);
      if (l[0] == 'd' && w.size() == 3 && w[2] == "2" && c.chance(2, 3)) left++;
      else t += l + "\n";
    }
    if (left) x.label("with an undeclared variable");
    text = t;
  }
  string out = convert("-linenc", text);
  Dimacs d = parseDimacs(out, "-linenc output");
  long n = 0;
  vector<int> first(k.p.n() + 1);
  bool d1 = false, big = false, neg = false;
  for (int v = 1; v <= k.p.n(); v++) {
    first[v] = (int)n + 1;
    n += k.p.D(v) <= 2 ? 1 : 2 * k.p.D(v) - 1;
    d1 |= k.p.D(v) == 1;
    big |= k.p.D(v) > 2;
  }
  for (auto &q : k.p.cl)
    for (auto &l : q) neg |= !l.eq;
  if (d.n != n) fail("-linenc: header states " + to_string(d.n) + " variables, expected " + to_string(n));
  // input solutions
  Problem b = boolean((int)d.n, d.cl);
  auto lits = [&](const vector<int> &val) {
    vector<Lit> u;
    for (int v = 1; v <= k.p.n(); v++) {
      if (k.p.D(v) <= 2) u.push_back({first[v], true, val[v - 1]});
      else
        for (int a = 0; a < k.p.D(v); a++) u.push_back({first[v] + a, true, a == val[v - 1]});
    }
    return u;
  };
  if (g_cut) return largeEncoding(k, b, first, true, lits, "-linenc", x);
  Ref src(k.p), enc(b, 400000);
  double ns = src.count(), nb = enc.count();
  if (ns != nb)
    fail("-linenc: the input has " + to_string((i64)ns) + " solutions but the encoding has " + to_string((i64)nb) + " models");
  if (src.enumerated()) {
    int i = 0;
    for (auto &m : src.models()) {
      if (++i > 300) break;
      if (!enc.satWith(lits(m))) {
        string s;
        for (int v = 1; v <= k.p.n(); v++) s += " " + to_string(v) + "=" + to_string(m[v - 1]);
        fail("-linenc: solution {" + s + " } of the input is not a model of the encoding");
      }
    }
  } else if (ns > 0) {
    src.sat();
    vector<int> m = src.model;
    if (!enc.satWith(lits(m))) fail("-linenc: a solution of the input is not a model of the encoding");
  }
  if (d1) x.label("with one-valued variable");
  if (big) x.label("with a domain > 2");
  if (neg) x.label("with v!=a");
  x.label(ns > 0 ? "satisfiable" : "unsatisfiable");
  return ns > 0 && k.p.n() >= 2;
}
static bool c15(const Case &k, Ctx &x) {
  need(validProblem(k.p, 300) && !k.p.cl.empty());
  string out = convert("-quadenc", inputText(k));
  long n = -1, m = -1;
  vector<int> first(k.p.n() + 2, 1);
  for (int v = 1; v <= k.p.n(); v++) first[v + 1] = first[v] + k.p.D(v);
  int atoms = first[k.p.n() + 1] - 1;
  vector<vector<int>> cl;
  for (auto &l : splitLines(out)) {
    if (l.empty() || l[0] == 'c') continue;
    if (l[0] == 'p') {
      if (n >= 0) fail("-quadenc: second header");
      header(l, "-quadenc", n, m);
      continue;
    }
    if (n < 0) fail("-quadenc: clause before the header");
    vector<int> q;
    SV w = words(l);
    for (size_t i = 0; i < w.size(); i++) {
      if (w[i] == "0" && i + 1 == w.size()) continue;
      string s = w[i];
      bool neg = s[0] == '-';
      if (neg) s = s.substr(1);
      size_t e = s.find('=');
      long v, a;
      if (e == string::npos || !integer(s.substr(0, e), v) || !integer(s.substr(e + 1), a)) fail("-quadenc: malformed atom '" + w[i] + "'");
      if (v < 1 || v > k.p.n() || a < 0 || a >= k.p.D((int)v)) fail("-quadenc: atom '" + w[i] + "' is outside the domains");
      q.push_back((neg ? -1 : 1) * (first[v] + (int)a));
    }
    cl.push_back(q);
  }
  if (n < 0) fail("-quadenc: no header");
  if (n != atoms) fail("-quadenc: header states " + to_string(n) + " atoms, expected " + to_string(atoms));
  if (m != (long)cl.size()) fail("-quadenc: header states " + to_string(m) + " clauses but there are " + to_string(cl.size()));
  auto lits = [&](const vector<int> &val) {
    vector<Lit> u;
    for (int v = 1; v <= k.p.n(); v++)
      for (int a = 0; a < k.p.D(v); a++) u.push_back({first[v] + a, true, a == val[v - 1]});
    return u;
  };
  if (g_cut) return largeEncoding(k, boolean(atoms, cl), first, false, lits, "-quadenc", x);
  Ref src(k.p), enc(boolean(atoms, cl), 400000);
  double ns = src.count(), nb = enc.count();
  if (ns != nb) fail("-quadenc: the input has " + to_string((i64)ns) + " solutions but the encoding has " + to_string((i64)nb) + " models");
  if (src.enumerated()) {
    int i = 0;
    for (auto &s : src.models())
      if (++i <= 300 && !enc.satWith(lits(s))) fail("-quadenc: a solution of the input is not a model of the encoding");
  } else if (ns > 0) {
    src.sat();
    vector<int> s = src.model;
    if (!enc.satWith(lits(s))) fail("-quadenc: a solution of the input is not a model of the encoding");
  }
  x.label(ns > 0 ? "satisfiable" : "unsatisfiable");
  return ns > 0 && k.p.n() >= 2;
}
static bool isBoolean(const Problem &p) {
  if (!validProblem(p)) return false;
  for (int d : p.dom)
    if (d != 2) return false;
  return true;
}
static Case booleanCase(Choices &c, int maxVars) {
  Case k;
  if (large(c, k, 2, 3)) {
    for (int &d : k.p.dom) d = 2;
    k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
    return k;
  }
  if (c.chance(1, 80)) {  // many variables, few clauses
    k.kind = "boolean-numbers";
    k.p.dom.assign(c.chance(1, 6) ? c.in(30000, 70000) : c.in(100, 3000), 2);
    for (int i = c.in(1, 60); i > 0; i--) {
      Clause q;
      for (int j = c.in(1, 4); j > 0; j--) q.push_back({c.chance(1, 4) ? k.p.n() - c.in(0, 5) : c.in(1, k.p.n()), true, c.in(0, 1)});
      k.p.cl.push_back(q);
    }
    k.iv["cut"] = 3000;
    k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
    return k;
  }
  k.p = genBoolean(c, maxVars, k.kind);
  if (c.chance(1, 5)) k.p.dom.insert(k.p.dom.end(), c.in(1, 5), 2);
  if (c.chance(1, 12)) k.p.cl.clear();
  k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
  return k;
}
// many variables, few clauses: numbers beyond 2^15 and 2^16 in the conversions
static bool manyVariables(Choices &c, Case &k, bool wide = false) {
  if (!c.chance(1, 160)) return false;
  k.kind = "many-variables";
  int n = c.chance(1, 6) ? c.in(15000, 70000) : c.in(100, 3000), hi = c.in(1, 4);
  u64 s = c.in(0, 1 << 20) * 2654435761ull + 1;
  for (int i = 0; i < n; i++) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    k.p.dom.push_back(1 + (int)((s >> 33) % (u64)hi));
  }
  if (wide && c.chance(1, 6)) k.p.dom[c.in(0, n - 1)] = k.p.dom[n - 1] = c.in(1000, 70000);
  for (int i = c.in(1, 40); i > 0; i--) {
    Clause q;
    for (int j = c.in(1, 4); j > 0; j--) {
      int v = c.chance(1, 4) ? n - c.in(0, 5) : c.in(1, n);
      q.push_back({v, c.chance(2, 3), c.in(0, k.p.D(v) - 1)});
    }
    k.p.cl.push_back(q);
  }
  k.iv["cut"] = 3000;
  return true;
}
static void sameClauses(const vector<vector<int>> &want, const vector<vector<int>> &got, const string &what) {
  if (want.size() != got.size()) fail(what + ": " + to_string(got.size()) + " clauses instead of " + to_string(want.size()));
  for (size_t i = 0; i < want.size(); i++)
    if (want[i] != got[i]) {
      auto s = [](const vector<int> &v) {
        string t;
        for (int l : v) t += " " + to_string(l);
        return t;
      };
      fail(what + ": clause " + to_string(i + 1) + " is (" + s(got[i]) + " ) instead of (" + s(want[i]) + " )");
    }
}
static void verdictOf(const string &text, bool sat, const Config &g, const string &what) {
  writeFile("in", text);
  Out o = solved(flav(g), g);
  if (g_cut && o.verdict() == "TIMEOUT") return;
  if (o.verdict() != (sat ? "SAT" : "UNSAT"))
    fail(what + ": " + g.name() + " answers " + o.verdict() + " but the problem is " + (sat ? "satisfiable" : "unsatisfiable"));
}
static bool c16(const Case &k, Ctx &x) {
  need(isBoolean(k.p) && !k.cfgs.empty());
  string out = convert("-b2f", inputText(k, true));
  Problem f = parseFinite(out, "-b2f output");
  if (f.n() != k.p.n()) fail("-b2f: " + to_string(f.n()) + " variables declared instead of " + to_string(k.p.n()));
  for (int d : f.dom)
    if (d != 2) fail("-b2f: domain size " + to_string(d));
  for (auto &q : f.cl)
    for (auto &l : q)
      if (!l.eq) fail("-b2f: literal " + show(l));
  sameClauses(signedClauses(k.p), signedClauses(f), "-b2f");
  if (k.p.n() <= 3000) {
    Ref ref(k.p, refBudget());
    verdictOf(out, ref.sat(), k.cfgs[0], "-b2f output");
  } else x.label("verdict not compared (many variables)");
  set<int> used;
  for (auto &q : k.p.cl)
    for (auto &l : q) used.insert(l.v);
  if ((int)used.size() < k.p.n()) x.label("with unused variables");
  if (!k.aux.empty() && k.aux[0]) x.label("respelled input");
  if (k.p.cl.empty()) x.label("without clauses");
  return k.p.cl.size() >= 2;
}
static bool c17(const Case &k, Ctx &x) {
  need(!k.cfgs.empty() && validProblem(k.p, 64) && !k.p.cl.empty());
  bool fin = k.iv.count("finite") && k.iv.at("finite");
  bool small = k.p.n() <= 3000, sat = false;
  if (small) sat = Ref(k.p, refBudget()).sat();
  auto iv = k.iv.find("rounds");
  int rounds = iv == k.iv.end() ? 1 : 1 + (int)(iv->second % 3);
  if (!fin) {
    need(isBoolean(k.p));
    string t = inputText(k, true);
    for (int i = 0; i < rounds; i++) {
      string f = convert("-b2f", t);
      if (small) verdictOf(f, sat, k.cfgs[i % k.cfgs.size()], "-b2f output in round " + to_string(i + 1));
      t = convert("-linenc", f);
      Dimacs d = parseDimacs(t, "-linenc after -b2f");
      if (d.n != k.p.n()) fail("-linenc after -b2f: " + to_string(d.n) + " variables instead of " + to_string(k.p.n()));
      sameClauses(signedClauses(k.p), d.cl, "-linenc after -b2f, round " + to_string(i + 1));
    }
    x.label("Boolean, " + to_string(rounds) + " round(s)");
    return k.p.cl.size() >= 2;
  }
  string t = convert("-linenc", inputText(k));
  string f = convert("-b2f", t);
  parseFinite(f, "-b2f after -linenc");
  if (small) verdictOf(f, sat, k.cfgs[0], "-b2f of -linenc output");
  string t2 = convert("-linenc", f);
  sameClauses(parseDimacs(t, "-linenc output").cl, parseDimacs(t2, "-linenc after -b2f").cl, "second -linenc");
  x.label("finite");
  return k.p.cl.size() >= 2 && k.p.n() >= 2;
}

// ------------------------------------------------------------------ C18, C19
static SV genbenArgs(const Case &k, bool fin) {
  SV g;
  auto opt = [&](const char *n) {
    auto i = k.iv.find(n);
    if (i != k.iv.end()) g.push_back(string("-") + n + "\n" + to_string(i->second));
  };
  for (auto n : {"var", "clause", "clausesize", "sat", "domain", "drand"}) opt(n);
  if (fin || k.iv.count("bool")) g.push_back(fin ? "-bool\n1" : "-bool\n0");
  g.push_back("-file\ngen");
  if (!k.aux.empty() && k.aux[0]) {
    Choices c(k.aux);
    c.shuffle(g);
  }
  return ungroup("-genben", g);
}
static bool genbenDomain(const Case &k) {
  i64 v = ivd(k, "var", -1), s = ivd(k, "clausesize", 3), d = ivd(k, "domain", 10), m = ivd(k, "clause", -1);
  i64 dr = ivd(k, "drand", 0), sat = ivd(k, "sat", 1);
  return v >= 1 && v <= 200000 && s >= 1 && s <= v && d >= 1 && d <= 100000000 && m >= 0 && m <= 200000 && dr >= 0 && dr <= 1 && sat >= 0 && sat <= 1;
}
static string generated(const Case &k, bool fin) {
  unlink("gen");
  RunOpts o;
  o.base_us = ivd(k, "seed", 1) * 1000000;
  RunResult r = run("main", genbenArgs(k, fin), o);
  mustEnd(r, "-genben");
  string t;
  if (!readFile("gen", t)) fail("-genben: no file written");
  return t;
}
static bool c18(const Case &k, Ctx &x) {
  need(genbenDomain(k) && !k.cfgs.empty());
  string t = generated(k, true);
  Problem p = parseFinite(t, "-genben file");
  i64 v = k.iv.at("var"), m = k.iv.at("clause"), s = ivd(k, "clausesize", 3), d = ivd(k, "domain", 10);
  bool drand = ivd(k, "drand", 0), sat = ivd(k, "sat", 1);
  if (p.n() != v) fail("-genben: " + to_string(p.n()) + " variables instead of " + to_string(v));
  if ((i64)p.cl.size() != m) fail("-genben: " + to_string(p.cl.size()) + " clauses instead of " + to_string(m));
  for (int i = 1; i <= p.n(); i++) {
    if (!drand && p.D(i) != d) fail("-genben: domain of variable " + to_string(i) + " has size " + to_string(p.D(i)) + " instead of " + to_string(d));
    if (drand && p.D(i) > d) fail("-genben: domain of variable " + to_string(i) + " has size " + to_string(p.D(i)) + " > " + to_string(d));
  }
  for (auto &q : p.cl) {
    if ((i64)q.size() != s) fail("-genben: clause " + show(q) + " has " + to_string(q.size()) + " literals instead of " + to_string(s));
    set<int> vs;
    for (auto &l : q) vs.insert(l.v);
    if (vs.size() != q.size()) fail("-genben: clause " + show(q) + " repeats a variable");
  }
  if (sat) {
    int md = 1;
    for (int q : p.dom) md = max(md, q);
    if (md <= 64 && p.n() <= 40) {
      Ref ref(p, 60000);
      if (!ref.sat()) fail("-genben -sat 1: the file is not satisfiable");
      x.label("satisfiability confirmed by the reference");
    }
    // a model found by the solver and checked here also proves satisfiability; the search is cut short
    // after 3000 clock reads, because how hard the file is to solve is not what this property is about
    i64 values = 0;
    for (int q : p.dom) values += q;
    if (values <= 3000 && m * s <= 6000) {
      writeFile("in", t);
      RunOpts ro;
      ro.step_us = 1000;
      RunResult r = solve("main", k.cfgs[0], {"-time", "3"}, ro);
      Out o = parseOut(r.out, false);
      if (r.clean() && o.verdict() == "UNSAT") fail(k.cfgs[0].name() + " answers UNSAT on a -genben -sat 1 file");
      if (r.clean() && o.verdict() == "SAT") {
        checkModel(p, k.cfgs[0], o, nullptr);
        x.label("satisfiability confirmed by a checked model");
      }
    }
  }
  x.label(string(drand ? "drand" : "fixed") + (sat ? " sat" : " unconstrained"));
  return m >= 2 && v >= 2;
}
static bool c19(const Case &k, Ctx &x) {
  need(genbenDomain(k));
  string t = generated(k, false);
  Dimacs d = parseDimacs(t, "-genben file");
  i64 v = k.iv.at("var"), m = k.iv.at("clause"), s = ivd(k, "clausesize", 3);
  bool sat = ivd(k, "sat", 1);
  if (d.n != v) fail("-genben: header states " + to_string(d.n) + " variables instead of " + to_string(v));
  if (d.m != m) fail("-genben: " + to_string(d.m) + " clauses instead of " + to_string(m));
  for (auto &q : d.cl) {
    if ((i64)q.size() != s) fail("-genben: a clause has " + to_string(q.size()) + " literals instead of " + to_string(s));
    set<int> ls(q.begin(), q.end());
    if (ls.size() != q.size()) fail("-genben: a clause repeats a literal");
  }
  if (sat && v <= 60) {
    Ref ref(boolean((int)d.n, d.cl), 100000);
    if (!ref.sat()) fail("-genben -sat 1: the formula is not satisfiable");
    x.label("satisfiability confirmed");
  }
  x.label(sat ? "sat" : "unconstrained");
  return m >= 2 && v >= 2;
}
static Case genbenCase(Choices &c, bool fin) {
  Case k;
  k.kind = "genben";
  int v = c.chance(1, 12) ? c.in(30, 200) : c.in(1, 14);
  k.iv["var"] = v;
  k.iv["clause"] = c.chance(1, 10) ? c.in(0, 2) : c.in(1, v > 20 ? 3 * v : 8 * v + 5);
  if (v < 3 || c.chance(4, 5)) k.iv["clausesize"] = c.chance(1, 5) ? c.in(max(1, v - 1), v) : c.in(1, min(v, 5));
  if (v > 20) k.iv["clausesize"] = c.in(1, 4);
  if (c.chance(4, 5) || !fin) k.iv["domain"] = c.chance(1, 8) ? c.in(11, 64) : c.chance(1, 40) ? c.in(65, 1500) : c.in(1, 10);
  if (c.chance(2, 3)) k.iv["drand"] = c.in(0, 1);
  if (c.chance(2, 3)) k.iv["sat"] = c.chance(2, 3);
  if (!fin && c.chance(1, 2)) k.iv["bool"] = 0;
  if (c.chance(1, 60)) {  // large
    v = c.in(200, 2500);
    k.iv["var"] = v;
    k.iv["clause"] = c.in(1, 6000);
    k.iv["clausesize"] = c.chance(1, 4) ? c.in(5, 120) : c.in(1, 5);
    if (k.iv["clausesize"] > 5) k.iv["clause"] = c.in(1, 300);
    if (c.chance(1, 3)) k.iv["domain"] = c.in(64, 40000);
    if (c.chance(1, 12)) {
      k.iv["var"] = c.in(30000, 80000);
      k.iv["clausesize"] = c.in(1, 4);
      if (c.chance(1, 2)) k.iv["clause"] = c.in(30000, 80000);
      if (c.chance(1, 2)) k.iv["domain"] = c.chance(1, 2) ? c.in(60000, 80000) : c.in(1 << 20, 5000000);
    }
  }
  k.iv["seed"] = c.in(1, 2000000000);
  k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
  return k;
}

// ------------------------------------------------------------------ C26, C28
struct Cmd {
  string flavour, what, output;  // output: file that the command writes, or empty
  SV args;
  RunOpts o;
  bool prog = false;
};
static const char *cmdNames[] = {"solve", "bitvec", "-b2f", "-linenc", "-quadenc", "-genben finite", "-genben boolean"};
// writes the input file and returns the command of the case
static Cmd command(const Case &k) {
  i64 cmd = ivd(k, "cmd", 0);
  need(cmd >= 0 && cmd <= 6);
  Cmd r;
  r.flavour = "main";
  r.what = cmdNames[cmd];
  static const char *outs[] = {"out", "./out", "dir/out", "out.cnf"};
  string out = outs[ivd(k, "outname", 0) & 3];
  if (cmd <= 1) {
    need(validProblem(k.p, 64) && !k.cfgs.empty() && k.cfgs[0].prog == (int)cmd);
    writeFile("in", inputText(k));
    r.flavour = flav(k.cfgs[0]);
    r.args = k.cfgs[0].args() + SV{"-file", "in", "-time", "3"};
    r.o.step_us = 1000;  // a search that is long is cut short
    if (ivd(k, "verbose", 0)) r.args.push_back("-verbose");
    r.what = k.cfgs[0].name();
    r.prog = cmd;
  } else if (cmd <= 4) {
    need(validProblem(k.p, 100000));
    if (cmd == 2) need(isBoolean(k.p));
    writeFile("in", inputText(k, cmd == 2));
    r.args = SV{cmdNames[cmd], "-file", "in", "-model", out};
    r.output = out;
  } else {
    need(genbenDomain(k));
    r.args = genbenArgs(k, cmd == 5);
    for (size_t i = 0; i + 1 < r.args.size(); i++)
      if (r.args[i] == "-file") r.args[i + 1] = out;
    r.o.base_us = ivd(k, "seed", 1) * 1000000;
    r.output = out;
  }
  if (r.output.compare(0, 2, "./") == 0) r.output = r.output.substr(2);
  return r;
}
static void freshDir() {
  for (auto &f : snapshot())
    if (f.second != "(directory)") unlink(f.first.c_str());
  mkdir("dir", 0755);
}
static string diffDirs(const map<string, string> &a, const map<string, string> &b, const string &except) {
  for (auto &f : a) {
    if (f.first == except) continue;
    auto i = b.find(f.first);
    if (i == b.end()) return "removes '" + f.first + "'";
    if (i->second != f.second) return "changes '" + f.first + "'";
  }
  for (auto &f : b)
    if (f.first != except && !a.count(f.first)) return "creates '" + f.first + "'";
  return "";
}
static Case commandCase(Choices &c) {
  Case k;
  int cmd = c.in(0, 6);
  if (cmd >= 5) {
    k = genbenCase(c, cmd == 5);
    if (c.chance(1, 2)) k.iv["clause"] = c.in(1, 2000);
  } else if (cmd == 2) k = booleanCase(c, c.chance(1, 5) ? 40 : 12);
  else {
    if (!large(c, k, 40, 3)) k = caseOf(c, small(12));
    k.iv.erase("cut");
    k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
    if (cmd > 2 && k.p.cl.empty()) k.p.cl.push_back({{1, true, 0}});
  }
  if (cmd <= 1) k.cfgs = {cmd ? genBit(c) : genMain(c)};
  else k.cfgs.clear();
  k.iv["cmd"] = cmd;
  k.iv["outname"] = c.chance(1, 2) ? 0 : c.in(0, 3);
  k.iv["verbose"] = c.chance(1, 3);
  return k;
}
static bool c26(const Case &k, Ctx &x) {
  freshDir();
  Cmd q = command(k);
  for (auto n : {"model", "note.txt", "dir/note", "out.bak"}) writeFile(n, string("content of ") + n + "\n");
  auto before = snapshot();
  RunResult r = run(q.flavour, q.args, q.o);
  mustEnd(r, q.what);
  auto after = snapshot();
  string d = diffDirs(before, after, q.output);
  if (!d.empty()) fail(q.what + " " + d);
  x.label(cmdNames[ivd(k, "cmd", 0)]);
  if (q.output.empty()) return r.out.size() > 200;
  if (!after.count(q.output) || after[q.output].compare(0, 5, "file ")) fail(q.what + ": does not write '" + q.output + "'");
  string want = after[q.output].substr(5);
  // whatever the output file held before is gone
  for (int i = 0; i < 2; i++) {
    string old;
    int kind = (int)((ivd(k, "old", 0) + i) % 4);
    if (kind == 0) old = "1=0 0\n";
    else if (kind == 1)
      for (i64 j = 0, n = 50 + ivd(k, "oldlen", 0) % 3000 + (i64)want.size() / 6; j < n; j++) old += "1=0 0\n";
    else if (kind == 2) old = want + "-1 0\n1 0\n";
    else old = want.substr(0, want.size() / 2);
    writeFile(q.output, old);
    auto b2 = snapshot();
    r = run(q.flavour, q.args, q.o);
    mustEnd(r, q.what);
    auto a2 = snapshot();
    d = diffDirs(b2, a2, q.output);
    if (!d.empty()) fail(q.what + " " + d);
    string got = a2.count(q.output) ? a2[q.output].substr(5) : "(none)";
    if (got != want) diffFail(q.what + ": the output depends on what the output file held before", want, got);
    x.label(kind == 0 || kind == 3 ? "shorter file replaced" : "longer file replaced");
  }
  // a command that cannot read its input leaves an existing output file alone
  if (ivd(k, "cmd", 0) <= 4) {
    unlink("in");
    writeFile(q.output, "precious\n");
    auto b3 = snapshot();
    r = run(q.flavour, q.args, q.o);
    d = diffDirs(b3, snapshot(), "");
    if (!d.empty()) fail(q.what + " without an input file " + d);
  }
  return want.size() > 40;
}
// C28: reading or writing fails part-way, comes in pieces, or is interrupted
static bool c28(const Case &k, Ctx &x) {
  freshDir();
  Cmd q = command(k);
  i64 cmd = ivd(k, "cmd", 0);
  RunResult ok = run(q.flavour, q.args, q.o);
  mustEnd(ok, q.what);
  string want, got;
  if (!q.output.empty() && !readFile(q.output, want)) fail(q.what + ": no output file written");
  bool nt = false;
  auto again = [&](const RunOpts &o) {
    if (!q.output.empty()) unlink(q.output.c_str());
    return run(q.flavour, q.args, o);
  };
  auto reported = [&](const RunResult &r, const string &w) {
    if (!r.exited() || r.capped || r.hang) fail(w + ": " + r.ending());
    Out o = parseOut(r.out, q.prog);
    if (!o.verdicts.empty()) fail(w + ": prints the verdict " + o.verdict());
    if (r.out.find("The model") != string::npos) fail(w + ": prints a model");
    if (r.code() == 0) fail(w + ": exit status 0");
    string all = r.out + r.err;
    for (auto &ch : all) ch = (char)tolower((unsigned char)ch);
    if (all.find("error") == string::npos && all.find("could not") == string::npos && all.find("cannot") == string::npos) fail(w + ": no error message");
    nt = true;
  };
  // nothing fails, but data comes in pieces and calls are interrupted
  RunOpts p = q.o;
  p.rd_chunk = 1 + ivd(k, "chunk", 1) % 64;
  p.wr_chunk = 1 + ivd(k, "chunk", 1) % 19;
  p.intr = 2 + ivd(k, "intr", 0) % 5;
  RunResult r = again(p);
  mustEnd(r, q.what + " with data in pieces");
  if (q.output.empty()) {
    if (r.out != ok.out) diffFail(q.what + ": reading in pieces changes the output", ok.out, r.out);
  } else {
    readFile(q.output, got);
    if (got != want) diffFail(q.what + ": reading and writing in pieces changes the file", want, got);
  }
  if (cmd <= 4 && ok.rdBytes > 0)
    for (int i = 0; i < 2; i++) {
      p = q.o;
      if (i) p.rd_chunk = 1 + ivd(k, "chunk", 1) % 64;
      p.rd_fail = (ivd(k, "rdat", 0) + i * 7919) % (ok.rdBytes + 1);
      p.rd_errno = ivd(k, "isdir", 0) ? 21 : 5;
      r = again(p);
      if (!r.rdFaults) continue;
      reported(r, q.what + " when reading fails after " + to_string(p.rd_fail) + " of " + to_string(ok.rdBytes) + " bytes");
      x.label("read fault");
    }
  if (cmd <= 4 && ivd(k, "directory", 0)) {
    SV a = q.args;
    for (size_t i = 0; i + 1 < a.size(); i++)
      if (a[i] == "-file") a[i + 1] = "dir";
    if (!q.output.empty()) unlink(q.output.c_str());
    reported(run(q.flavour, a, q.o), q.what + " with a directory as input");
    x.label("directory");
  }
  if (cmd >= 2 && ok.wrBytes > 0)
    for (int i = 0; i < 2; i++) {
      p = q.o;
      if (i) p.wr_chunk = 1 + ivd(k, "chunk", 1) % 19;
      p.wr_fail = (ivd(k, "wrat", 0) + i * 7919) % ok.wrBytes;
      p.wr_errno = ivd(k, "rdat", 0) % 2 ? 28 : 5;
      r = again(p);
      if (!r.wrFaults) continue;
      reported(r, q.what + " when writing fails after " + to_string(p.wr_fail) + " of " + to_string(ok.wrBytes) + " bytes");
      x.label("write fault");
    }
  x.label(cmdNames[cmd]);
  return nt;
}

// ------------------------------------------------------------------ C27
// Everything that is expected at least 60 times has to occur (probability of a miss < e^-60 each).
static bool c27(const Case &k, Ctx &x) {
  need(genbenDomain(k));
  bool fin = ivd(k, "fin", 1);
  string t = generated(k, fin);
  i64 v = k.iv.at("var"), m = k.iv.at("clause"), s = ivd(k, "clausesize", 3), d = ivd(k, "domain", 10);
  bool drand = fin && ivd(k, "drand", 0), sat = ivd(k, "sat", 1);
  if (generated(k, fin) != t) fail("-genben: the same options at the same time give different files");
  // another moment gives another file, if there is enough to draw
  bool rich = m * s * log2((double)v) > 80;
  if (rich) {
    Case k2 = k;
    k2.iv["seed"] = ivd(k, "seed", 1) == ivd(k, "seed2", 2) ? ivd(k, "seed", 1) + 1 : ivd(k, "seed2", 2);
    need(k2.iv["seed"] > 1 && ivd(k, "seed", 1) > 1);
    if (generated(k2, fin) == t) fail("-genben: two random seeds give the same file");
    x.label("two seeds");
  }
  Problem p = fin ? parseFinite(t, "-genben file") : Problem();
  vector<vector<pair<int, int>>> cl;  // variable, value (Boolean: sign)
  if (fin)
    for (auto &q : p.cl) {
      cl.push_back({});
      for (auto &l : q) cl.back().push_back({l.v, l.a});
    }
  else {
    Dimacs q = parseDimacs(t, "-genben file");
    for (auto &c : q.cl) {
      cl.push_back({});
      for (int l : c) cl.back().push_back({abs(l), l > 0});
    }
  }
  const double need60 = 60;
  bool nt = false;
  string w = string("-genben ") + (fin ? "finite" : "boolean") + ": ";
  // domain sizes
  if (drand && v / (double)d >= need60) {
    set<int> ds(p.dom.begin(), p.dom.end());
    for (int i = 1; i <= d; i++)
      if (!ds.count(i)) fail(w + "with -drand none of " + to_string(v) + " domains has size " + to_string(i) + " (-domain " + to_string(d) + ")");
    nt = true;
    x.label("domain sizes");
  }
  for (auto &q : cl) need((i64)q.size() == s);  // C18 and C19 report this
  for (auto &q : cl)
    for (auto &l : q) need(l.first >= 1 && l.first <= v);
  // every variable in every position
  if (m / (double)v >= need60) {
    for (i64 j = 0; j < s; j++) {
      vector<char> seen(v + 1, 0);
      for (auto &q : cl) seen[q[j].first] = 1;
      for (i64 i = 1; i <= v; i++)
        if (!seen[i]) fail(w + "variable " + to_string(i) + " never occurs as literal number " + to_string(j + 1) + " of a clause, in " + to_string(m) + " clauses over " + to_string(v) + " variables");
    }
    nt = true;
    x.label("variables");
  }
  // every pair of variables side by side
  if (s >= 2 && m / ((double)v * v) >= need60) {
    for (i64 j = 0; j + 1 < s; j++) {
      set<pair<int, int>> ps;
      for (auto &q : cl) ps.insert({q[j].first, q[j + 1].first});
      for (i64 a = 1; a <= v; a++)
        for (i64 b = 1; b <= v; b++)
          if (a != b && !ps.count({(int)a, (int)b}))
            fail(w + "variables " + to_string(a) + " and " + to_string(b) + " never follow each other as literals " + to_string(j + 1) + " and " + to_string(j + 2) + " in " + to_string(m) + " clauses");
    }
    nt = true;
    x.label("pairs of variables");
  }
  // every value (sign) of every variable in every position that is not planted
  for (i64 j = sat ? 1 : 0; j < s; j++) {
    map<int, set<int>> vals;
    for (auto &q : cl) vals[q[j].first].insert(q[j].second);
    for (i64 i = 1; i <= v; i++) {
      int D = fin ? p.D((int)i) : 2;
      // a Boolean literal that was there already is redrawn as a positive one: half of the negative ones at worst
      if (m / (double)v / D / (fin ? 1 : 2) < need60) continue;
      if ((int)vals[(int)i].size() != D)
        fail(w + "literal " + to_string(j + 1) + " of the clauses uses only " + to_string(vals[(int)i].size()) + " of the " + to_string(D) + (fin ? " values" : " signs") + " of variable " + to_string(i));
      nt = true;
      x.label("values");
    }
  }
  // the planted assignment is drawn, too
  if (sat && !drand && v / (double)(fin ? d : 2) >= 2 * need60 && m >= 2 * v) {
    set<int> vs;
    for (auto &q : cl) vs.insert(q[0].second);
    if ((i64)vs.size() != (fin ? d : 2)) fail(w + "the planted literals use only " + to_string(vs.size()) + (fin ? " values" : " signs"));
    nt = true;
    x.label("planted values");
  }
  return nt;
}
static Case spreadCase(Choices &c) {
  Case k;
  k.kind = "spread";
  bool fin = c.chance(3, 5);
  k.iv["fin"] = fin;
  int w = c.in(0, 9), v, d, s, m;
  if (w < 6) {  // every value of every variable
    v = c.in(1, 9);
    d = c.in(1, 7);
    s = c.in(1, min(v, 4));
    m = 130 * v * (c.chance(1, 2) ? 2 : c.chance(1, 2) ? d : v);
  } else if (w < 8) {  // every variable
    v = c.in(10, 120);
    d = c.in(1, 20);
    s = c.in(1, 4);
    m = 62 * v + c.in(0, 100);
  } else {  // domain sizes, planted assignment
    d = c.in(1, 20);
    v = c.in(125, 140) * d;
    s = c.in(1, 3);
    m = 2 * v + c.in(0, 100);
    k.iv["drand"] = c.in(0, 1);
  }
  k.iv["var"] = v;
  k.iv["clause"] = m;
  k.iv["clausesize"] = s;
  k.iv["domain"] = d;
  if (c.chance(1, 2)) k.iv["sat"] = c.in(0, 1);
  if (c.chance(1, 4)) k.iv["drand"] = c.in(0, 1);
  k.iv["seed"] = c.in(2, 2000000000);
  k.iv["seed2"] = c.chance(1, 2) ? k.iv["seed"] + 1 : c.in(2, 2000000000);
  k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
  return k;
}

// ------------------------------------------------------------------ C20
// the listed value sets: every choice from them is a solution
static void bitModel(const Problem &p, const Out &o, const string &w) {
  if (!o.modelSection) fail(w + "SAT without a model");
  if (!o.oddModelLines.empty()) fail(w + "unreadable model line '" + clip(o.oddModelLines[0], 100) + "'");
  if (o.verify != 1) fail(w + "SAT without 'model is CORRECT'");
  vector<vector<char>> in(p.n() + 1);
  for (int v = 1; v <= p.n(); v++) {
    auto it = o.sets.find(v);
    if (it == o.sets.end()) fail(w + "no values listed for variable " + to_string(v));
    in[v].assign(p.D(v), 0);
    int cnt = 0;
    const string &s = it->second;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '1') {
        int a = (int)(s.size() - 1 - i);
        if (a >= p.D(v)) fail(w + "value " + to_string(a) + " listed for variable " + to_string(v) + " is outside its domain");
        in[v][a] = 1;
        cnt++;
      }
    if (!cnt) fail(w + "no value left for variable " + to_string(v));
  }
  // the program may list its placeholder for variable 0, which has no values
  for (auto &y : o.sets)
    if (y.first < 0 || y.first > p.n() || (y.first == 0 && y.second.find('1') != string::npos))
      fail(w + "values listed for the undeclared variable " + to_string(y.first));
  for (auto &q : p.cl) {
    map<int, set<int>> allow;
    for (auto &l : q)
      for (int a = 0; a < p.D(l.v); a++)
        if ((a == l.a) == l.eq) allow[l.v].insert(a);
    bool ok = false;
    for (auto &y : allow) {
      bool sub = true;
      for (int a = 0; a < p.D(y.first); a++) sub = sub && (!in[y.first][a] || y.second.count(a));
      ok |= sub;
    }
    if (!ok) fail(w + "the listed values allow a choice that violates clause " + show(q));
  }
}
static bool c20(const Case &k, Ctx &x) {
  need(validProblem(k.p, 64) && !k.cfgs.empty());
  Ref ref(k.p, refBudget());
  bool sat = truth(k, ref);
  writeFile("in", toText(k.p));
  bool nt = false;
  for (auto &g : k.cfgs) {
    Out o = solved(flav(g), g);
    if (cutShort(o, x)) continue;
    string w = g.name() + ": ";
    if (o.verdicts.size() != 1 || o.verdict() != (sat ? "SAT" : "UNSAT"))
      fail(w + "answers " + o.verdict() + " but the problem is " + (sat ? "satisfiable" : "unsatisfiable"));
    if (!g.prog) continue;
    if (o.stat("Backtracks") > 0) nt = true;
    if (sat) {
      bitModel(k.p, o, w);
    } else if (o.modelSection || o.verify) fail(w + "model listed although the verdict is UNSAT");
    if (o.stat("Restarts") > 0) x.label("runs with restarts");
    for (int d : k.p.dom)
      if (d > 32) {
        x.label("with a domain > 32");
        break;
      }
  }
  x.label(sat ? "satisfiable" : "unsatisfiable");
  return nt;
}

// ------------------------------------------------------------------ C13
static void sane(const RunResult &r, const string &what, bool anyCode = false) {
  bool bad = !r.exited() || r.capped || r.hang || r.code() == 99 || (!anyCode && r.code() != 0);
  if (bad || r.err.find("Sanitizer") != string::npos || r.err.find("runtime error:") != string::npos)
    fail(what + ": " + r.ending());
}
static bool c13(const Case &k, Ctx &x) {
  i64 w = ivd(k, "what", 0);
  x.label(w == 0 ? "solve" : w == 1 ? "bitvec" : w == 2 ? "linenc" : w == 3 ? "quadenc" : w == 4 ? "b2f" : w == 5 ? "genben finite" : w == 6 ? "genben boolean" : "help");
  if (w <= 1) {
    need(validProblem(k.p, w == 1 ? 64 : 100000) && !k.cfgs.empty());
    Choices c(k.aux);
    writeFile("in", !k.aux.empty() && k.aux[0] ? mangled(k.p, c) : toText(k.p, "cnf"));
    bool nt = false;
    for (auto &g : k.cfgs) {
      SV extra;
      if (ivd(k, "path", 0)) extra = {"-file", inputPath(ivd(k, "path", 0), ivd(k, "pathlen", 0))};
      if (ivd(k, "verbose", 0)) extra.push_back("-verbose");
      RunResult r = solve(g.prog ? "bitsan" : "mainsan", g, extra);
      sane(r, g.name());
      Out o = parseOut(r.out, g.prog);
      nt |= o.stat("Backtracks") > 0;
      if (o.stat("Backtracks") > 50) x.label("runs with > 50 backtracks");
    }
    return nt;
  }
  if (w <= 4) {
    need(validProblem(k.p, 100000));
    if (w == 4) need(isBoolean(k.p));
    writeFile("in", inputText(k, w == 4));
    unlink("out");
    const char *cmd = w == 2 ? "-linenc" : w == 3 ? "-quadenc" : "-b2f";
    string path = inputPath(ivd(k, "path", 0), ivd(k, "pathlen", 0));
    sane(run("mainsan", {cmd, "-file", path, "-model", path.substr(0, path.size() - 2) + "out"}), cmd);
    return k.p.cl.size() > 1;
  }
  if (w <= 6) {
    need(genbenDomain(k));
    RunOpts o;
    o.base_us = ivd(k, "seed", 1) * 1000000;
    unlink("gen");
    sane(run("mainsan", genbenArgs(k, w == 5), o), "-genben");
    return k.iv.at("clause") > 1;
  }
  need(!k.txt.empty());
  writeFile("stdin", k.txt[0]);
  RunOpts o;
  o.use_stdin = true;
  sane(run(ivd(k, "bit", 0) ? "bitsan" : "mainsan", {"-help"}, o), "-help", true);
  return k.txt[0].size() > 1;
}

// ------------------------------------------------------------------ C22
static bool c22(const Case &k, Ctx &x) {
  need(validProblem(k.p, 64) && !k.cfgs.empty());
  i64 cmd = ivd(k, "cmd", 0), bad = ivd(k, "bad", 0);
  need(cmd >= 0 && cmd <= 4 && bad >= 0);
  const char *names[] = {"solve", "-b2f", "-linenc", "-quadenc", "-genben"};
  if (cmd == 1) need(isBoolean(k.p));
  i64 odd = ivd(k, "odd", 0);  // a file that states no problem, or hardly one, exists all the same
  if (cmd > 1 && cmd < 4 && !odd) need(!k.p.cl.empty());
  string good = "in";
  static const char *odds[] = {"", "c nothing\n", "\n", "p cnf 0 0\n", "c\n\n \t\nc x", "p cnf 1 0"};
  if (odd) writeFile(good, odds[odd % 6]);
  else writeFile(good, cmd == 1 ? dimacsText(k.p) : toText(k.p, "cnf"));
  mkdir("dir", 0755);
  unlink("dangling");
  if (symlink("no-such-target", "dangling")) {
  }
  unlink("out");
  static const char *badIn[] = {"missing", "nodir/missing", "dangling", "in/x", "dir/none", "", "LONG", "./nodir/../nodir/f"};
  static const char *badOut[] = {"nodir/out", "dir", "in/x", "LONG", ""};
  string in = good, out = "out", what;
  bool fault = true;
  string longName(300, 'n');
  bool toOutput = cmd > 0 && (cmd == 4 || ivd(k, "output", 0)) && bad != 8;
  if (toOutput) {
    out = badOut[bad % 5];
    if (out == "LONG") out = longName;
    what = "output file '" + clip(out, 30) + "'";
  } else if (bad == 8) {
    fault = false;
    in = inputPath(ivd(k, "path", 0), ivd(k, "pathlen", 0));
    what = "readable file";
  } else {
    in = badIn[bad % 8];
    if (in == "LONG") in = longName;
    what = "input file '" + clip(in, 30) + "'";
  }
  const Config &g = k.cfgs[0];
  SV a;
  if (cmd == 0) {
    a = g.args() + SV{"-file", in};
    if (ivd(k, "verbose", 0)) a.push_back("-verbose");
  } else if (cmd == 4) {
    i64 b = ivd(k, "gb", 0);
    a = SV{"-genben", "-var", to_string(3 + b % 20), "-clause", to_string(b % 31), "-clausesize", "2", "-bool", to_string(b & 1), "-file", out};
  } else a = SV{names[cmd], "-file", in, "-model", out};
  RunResult r = run(cmd ? "main" : flav(g), a);
  string w = string(cmd ? names[cmd] : g.name()) + " with " + what;
  Out o = parseOut(r.out, g.prog);
  string all = r.out + r.err;
  for (auto &ch : all) ch = (char)tolower((unsigned char)ch);
  bool err = all.find("error") != string::npos || all.find("could not") != string::npos || all.find("cannot") != string::npos;
  if (fault) {
    if (!r.exited() || r.capped || r.hang) fail(w + ": " + r.ending());
    if (r.code() == 0) fail(w + ": exit status 0");
    if (!err) fail(w + ": no error message");
    if (!o.verdicts.empty()) fail(w + ": prints the verdict " + o.verdict());
    if (r.out.find("The model") != string::npos) fail(w + ": prints a model");
  } else {
    mustEnd(r, w);
    if (err) fail(w + ": rejected");
    if (cmd == 0 && o.verdicts.empty()) fail(w + ": no verdict");
    if (cmd > 0 && access("out", F_OK)) fail(w + ": no output file");
  }
  x.label(string(cmd ? names[cmd] : g.prog ? "bitvec" : "solve") + (fault ? toOutput ? " bad output" : " bad input" : " good"));
  return true;
}

// ------------------------------------------------------------------ C23
static bool c23(const Case &k, Ctx &x) {
  need(validProblem(k.p, 64) && !k.cfgs.empty());
  for (auto &g : k.cfgs) need(!g.lazy());
  need(k.p.product() <= 3000);
  Ref ref(k.p, refBudget());
  need(ref.models().size() <= 80);
  set<vector<int>> todo(ref.models().begin(), ref.models().end());
  size_t total = todo.size();
  Problem p = k.p;
  Choices c(k.aux);
  for (size_t step = 0;; step++) {
    const Config &g = k.cfgs[step % k.cfgs.size()];
    writeFile("in", toText(p));
    Out o = solved(flav(g), g);
    string w = "step " + to_string(step + 1) + " (" + g.name() + "): ";
    if (todo.empty()) {
      if (o.verdict() != "UNSAT") fail(w + "verdict " + o.verdict() + " after all " + to_string(total) + " solutions were excluded");
      break;
    }
    if (o.verdict() != "SAT") fail(w + "verdict " + o.verdict() + " while " + to_string(todo.size()) + " of " + to_string(total) + " solutions are left");
    vector<int> val(p.n(), -1);
    for (auto &l : o.model)
      if (l.v >= 1 && l.v <= p.n()) val[l.v - 1] = l.a;
    if (!todo.erase(val)) fail(w + "the listed model is not a solution or was excluded before");
    Clause q;
    for (auto &l : o.model) q.push_back({l.v, false, l.a});
    if (c.chance(1, 2)) c.shuffle(q);
    if (c.chance(1, 3)) p.cl.insert(p.cl.begin() + c.in(0, (int)p.cl.size()), q);
    else p.cl.push_back(q);
  }
  x.label(total == 0 ? "no solution" : total < 4 ? "1-3 solutions" : total < 20 ? "4-19 solutions" : "20-80 solutions");
  return total >= 2;
}

// ------------------------------------------------------------------ C24
static bool c24(const Case &k, Ctx &x) {
  bool bit = ivd(k, "bit", 0);
  i64 how = ivd(k, "how", 0);
  RunOpts o;
  o.use_stdin = true;
  o.fsize = 64 << 20;
  SV args = how == 0 ? SV{} : how == 1 ? SV{"-help"} : SV{how == 2 ? "-foo" : how == 3 ? "solve" : "--help"};
  if (how > 1 && ivd(k, "more", 0)) args = args + SV{"-file", "nothing"};
  string input;
  bool structured = ivd(k, "structured", 0);
  if (structured) {
    for (auto a : k.aux) input += to_string((int)a - 20) + "\n\n";
  } else {
    need(!k.txt.empty());
    input = k.txt[0];
  }
  writeFile("stdin", input);
  RunResult r = run(bit ? "bit" : "main", args, o);
  string w = string(bit ? "bitvec" : "src") + " menu";
  if (!r.exited() || r.capped || r.hang) fail(w + ": " + r.ending());
  Out out = parseOut(r.out, bit);
  if (!out.verdicts.empty()) fail(w + ": prints a verdict");
  auto count = [&](const string &s) {
    i64 n = 0;
    for (size_t i = r.out.find(s); i != string::npos; i = r.out.find(s, i + 1)) n++;
    return n;
  };
  i64 menus = count("**** Menu Options ****");
  if (menus < 1) fail(w + ": no menu printed");
  if (structured) {
    static const char *usage[] = {"% exe -genben", "% exe -solvech", "% exe -solvenc", "% exe -b2f", "% exe -linenc", "% exe -quadenc"};
    map<int, i64> want;
    i64 m = 1;
    for (auto a : k.aux) {
      int ch = (int)a - 20;
      if (ch == 0) break;
      m++;
      if (bit && ch == 1) want[3]++;
      if (!bit && ch >= 1 && ch <= 6) want[ch]++;
    }
    if (menus != m) fail(w + ": menu printed " + to_string(menus) + " times instead of " + to_string(m));
    for (int i = 1; i <= 6; i++)
      if (count(usage[i - 1]) != want[i])
        fail(w + ": help text '" + usage[i - 1] + "' printed " + to_string(count(usage[i - 1])) + " times instead of " + to_string(want[i]));
    x.label("dialogue");
  } else x.label("raw bytes");
  return input.size() > 2;
}

// ------------------------------------------------------------------ known findings
static bool emptyOutput(const char *cmd, string &how) {
  writeFile("in", "p cnf 2 0\nd 1 3\nd 2 2\n");
  unlink("out");
  RunResult r = run("main", {cmd, "-file", "in", "-model", "out"});
  string t;
  readFile("out", t);
  how = string(cmd) + " writes an empty file (no header) for an input without clause lines";
  return r.clean() && t.empty();
}

// ------------------------------------------------------------------ the table
static string words5(Choices &c, int maxLen) {
  static const char *tok[] = {"0", "1", "2", "3", "4", "5", "6", "7", "-1", "9999999999999", "x", "abc", "1.5", "+2", "0x1", "\n", " ", "\t", "\n\n", "\0", "%s%n", "\xff\xfe", "00", "-0", "2147483647", "-2147483649"};
  string s;
  for (int i = c.in(0, maxLen); i > 0; i--) {
    int j = c.in(0, 25);
    if (j == 19) s += '\0';
    else s += tok[j];
    if (c.chance(1, 2)) s += '\n';
    if (c.chance(1, 6)) s += (char)c.in(0, 255);
  }
  return s;
}

static Case mk(vector<int> dom, vector<Clause> cl, vector<Config> cfgs) {
  Case k;
  k.kind = "fixed";
  k.p.dom = dom;
  k.p.cl = cl;
  k.cfgs = cfgs;
  return k;
}
// a long search with few or no conflicts
static void sparseCase(Choices &c, Case &k) {
  k.kind = "sparse";
  vector<int> sol;
  for (int i = c.in(30, 90), hi = c.in(2, 5); i > 0; i--) k.p.dom.push_back(c.in(2, hi)), sol.push_back(c.in(0, k.p.dom.back() - 1));
  for (int i = c.in(0, k.p.n() / 3); i > 0; i--) {
    Clause q;
    for (int j = c.in(1, 3); j > 0; j--) {
      int v = c.in(1, k.p.n()), a = c.in(0, k.p.D(v) - 1);
      q.push_back({v, a == sol[v - 1], a});
    }
    k.p.cl.push_back(q);
  }
}
static vector<Case> fixedSolve() {
  vector<Case> r;
  auto cf = mainConfigs();
  for (auto &g : mainConfigs())
    if (!g.ch)
      for (int n : {1, 2}) {
        Config h = g;
        h.restart = n;
        h.longname = n == 2;
        cf.push_back(h);
      }
  r.push_back(mk({1}, {}, cf));
  r.push_back(mk({1, 2}, {{{1, false, 0}}}, cf));
  r.push_back(mk({1, 2}, {{{1, false, 0}, {2, true, 1}}, {{2, false, 1}, {1, true, 0}}}, cf));
  r.push_back(mk({2}, {{}}, cf));
  r.push_back(mk({2, 2}, {{{1, true, 0}, {1, true, 0}}, {{1, true, 1}, {1, true, 1}, {2, true, 1}}}, cf));
  r.push_back(mk({3}, {{{1, true, 0}}, {{1, true, 1}}}, cf));
  r.push_back(mk({3}, {{{1, false, 0}}, {{1, false, 1}}, {{1, false, 2}}}, cf));
  r.push_back(mk({2, 2}, {{{1, true, 0}, {2, true, 0}}, {{1, true, 0}, {2, true, 1}}, {{1, true, 1}, {2, true, 0}}, {{1, true, 1}, {2, true, 1}}}, cf));
  r.push_back(mk({4, 4, 4}, {}, cf));
  return r;
}

// n pigeons in m holes
static void pigeons(Problem &p, int n, int m) {
  int base = p.n();
  for (int i = 0; i < n; i++) p.dom.push_back(m);
  for (int i = 1; i <= n; i++)
    for (int j = i + 1; j <= n; j++)
      for (int a = 0; a < m; a++) p.cl.push_back({{base + i, false, a}, {base + j, false, a}});
}
// counters beyond 2^16, clause numbers beyond 2^15 and 2^16
static vector<Case> fixedCounters() {
  vector<Case> r = fixedSolve();
  Case k;
  k.kind = "fixed";
  pigeons(k.p, 8, 7);
  k.p.dom[0] = 14;  // each hole twice: more than 2^16 decisions
  for (int j = 2; j <= 8; j++)
    for (int a = 0; a < 7; a++) k.p.cl.push_back({{1, false, a + 7}, {j, false, a}});
  Config g;
  g.ch = true;
  k.cfgs = {g};
  r.push_back(k);
  return r;
}
static vector<Case> manyClauses(int prog) {
  vector<Case> r;
  for (int n : {33000, 66000}) {
    Case k;
    k.kind = "fixed";
    k.p.dom = {2, 3};
    k.p.cl.push_back({{1, true, 1}});
    for (int i = 0; i < n; i++) k.p.cl.push_back({{1, true, 1}, {2, i % 2 == 0, i % 3}});
    pigeons(k.p, 5, 4);
    for (int wl = prog; wl < 2; wl++)
      for (int h : {BK, VSIDS}) {
        Config g;
        g.prog = prog;
        g.wl = wl && !prog;
        g.heur = h;
        if (g.wl && h == BK) continue;
        k.cfgs.push_back(g);
      }
    r.push_back(k);
  }
  return r;
}
// statistics beyond 2^15 and 2^16: clauses, variables
static vector<Case> fixedStatistics() {
  vector<Case> r = fixedCounters();
  for (auto &k : manyClauses(0)) r.push_back(k);
  Case k;
  k.kind = "fixed";
  k.p.dom.assign(70000, 1);
  k.p.dom[0] = 2;
  k.p.cl = {{{1, true, 1}, {70000, false, 0}}};
  for (int wl : {0, 1}) {
    Config g;
    g.wl = wl;
    k.cfgs.push_back(g);
  }
  r.push_back(k);
  return r;
}
// a decision that sets off two chains of n implications each, whose ends exclude one another: the
// conflict takes 2n resolutions to explain; satisfiable, unless the first variable is fixed
static Case chains(int n, bool sat, vector<Config> cfgs) {
  Case k;
  k.kind = "fixed";
  k.p.dom.assign(2 * n + 1, 2);
  for (int i = 0; i < 9; i++) k.p.cl.push_back({{1, true, 1}, {2 * n + 1, false, 1}});
  for (int b = 0; b < 2; b++) {
    int last = 1;
    for (int i = 0; i < n; i++) {
      int v = 2 + b * n + i;
      k.p.cl.push_back({{last, false, 1}, {v, true, 1}});
      last = v;
    }
  }
  k.p.cl.push_back({{n + 1, false, 1}, {2 * n + 1, false, 1}});
  for (int v : {n + 1, 2 * n + 1}) k.p.cl.push_back({{1, true, 1}, {v, false, 1}});
  if (!sat) {
    k.p.dom.push_back(2);
    for (int i = 0; i < 2; i++) k.p.cl.push_back({{1, true, 1}, {2 * n + 2, true, i}});
  }
  k.cfgs = cfgs;
  return k;
}
// n decisions one below the other, on a stack that must not grow with them
static Case deepSearch(int n) {
  Case k;
  k.kind = "fixed";
  k.p.dom.assign(n, 2);
  for (int i = 1; i <= n; i++) k.p.cl.push_back({{i, true, 0}, {i, true, 1}});
  for (auto &g : mainConfigs())
    if (g.ch && g.lazy()) k.cfgs.push_back(g);
  k.iv["stack"] = 1024;
  return k;
}
static vector<Case> fixedChains(int prog, int n) {
  vector<Case> r;
  vector<Config> cf;
  if (prog)
    for (int h : {BK, VSIDS}) {
      Config g;
      g.prog = 1;
      g.heur = h;
      cf.push_back(g);
    }
  else
    for (auto &g : mainConfigs())
      if (!g.lazy()) cf.push_back(g);
  for (bool sat : {true, false}) r.push_back(chains(n, sat, cf));
  return r;
}
// values that agree in their low 15 or 16 bits
static vector<Case> wideValues(int d) {
  vector<Case> r;
  vector<Config> cf;
  for (auto &g : mainConfigs()) cf.push_back(g);
  int lo = d - 40000 > 0 ? 1 : 0, hi = lo ? lo + 65536 : d - 1;
  auto E = [](int v, int a) { return Lit{v, true, a}; };
  auto N = [](int v, int a) { return Lit{v, false, a}; };
  r.push_back(mk({d, 2, 3}, {{E(1, hi), E(2, 1)}, {N(2, 1), E(1, hi)}, {N(1, lo), E(3, 2)}, {N(1, lo), N(3, 2)}}, cf));
  r.push_back(mk({d, 2, 3}, {{E(1, hi), E(2, 1)}, {N(2, 1), E(1, hi)}, {E(1, lo), E(3, 2)}, {E(1, lo), N(3, 2)}}, cf));
  r.push_back(mk({d, d}, {{E(1, hi), E(1, lo)}, {E(2, hi), E(2, lo)}, {N(1, hi), N(2, hi)}, {N(1, lo), N(2, lo)}, {N(1, lo), E(2, lo)}}, cf));
  return r;
}
static vector<Case> fixedWide() {
  vector<Case> r = fixedSolve();
  for (int d : {40000, 70000})
    for (auto &k : wideValues(d)) r.push_back(k);
  return r;
}
// searches with thousands of learned clauses, hundreds of levels, or learned clauses of hundreds of literals
static Problem random3(uint64_t seed, int n, int d, int m) {
  Problem p;
  p.dom.assign(n, d);
  auto draw = [&](int k) {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    return (int)((seed >> 33) % k);
  };
  for (int i = 0; i < m; i++) {
    Clause c;
    while (c.size() < 3) {
      Lit l{draw(n) + 1, draw(2) == 0, draw(d)};
      bool again = false;
      for (auto &x : c) again |= x.v == l.v;
      if (!again) c.push_back(l);
    }
    p.cl.push_back(c);
  }
  return p;
}
// n pairs of which one must be decided before the pigeons are reached
static Problem tower(int n, int holes) {
  Problem p;
  for (int i = 0; i < n; i++) {
    p.dom.push_back(i % 3 + 2);
    p.dom.push_back(2);
    for (int j = 0; j < 2; j++) p.cl.push_back({{2 * i + 1, true, i % 2}, {2 * i + 2, true, j}, {2 * i + 1, true, i % 2}});
  }
  pigeons(p, holes + 1, holes);
  return p;
}
// a conflict at each level 2..n+1 that goes back by one level, or, if all of the first n decisions come first, to each level
static Problem ladder(int n, bool shift) {
  Problem p;
  for (int i = 1; i <= n; i++) p.dom.push_back(i % 5 ? 2 : 3);
  for (int i = 0; i < 4 * n; i++) p.dom.push_back(2);
  if (shift) {
    p.dom.push_back(4);
    p.cl.push_back({{p.n(), true, 1}, {p.n(), true, 3}});
  }
  for (int i = 1; i <= n; i++) {
    int z = i, a = 2 * n + 1 - i, b = 2 * n + i, c = 3 * n + i, w = 4 * n + i;
    Lit back{z, i % 5 != 0, i % 5 ? 1 : 0};
    for (int j = 0; j < 4; j++) p.cl.push_back({{z, true, 0}, {w, true, 0}});
    for (int j = 0; j < 3; j++) p.cl.push_back({{a, true, 0}, {b, true, 0}});
    for (int j = 0; j < 2; j++) p.cl.push_back({{a, true, 1}, {c, true, j}, back});
  }
  return p;
}
// pigeons whose conflicts all involve n decisions
static Problem longReasons(int n, int holes, int copies) {
  Problem p;
  for (int i = 0; i < n; i++) p.dom.push_back(i % 4 ? 2 : 3);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < copies; j++) {
      p.dom.push_back(2);
      p.cl.push_back({{i + 1, true, 0}, {p.n(), true, 0}});
    }
  size_t first = p.cl.size();
  pigeons(p, holes + 1, holes);
  for (size_t i = first; i < p.cl.size(); i++)
    for (int v = 1; v <= n; v++) p.cl[i].push_back({v, v % 4 != 1, v % 4 != 1 ? 1 : 0});
  return p;
}
static vector<Case> deepSearches(int prog) {
  struct {
    Problem p;
    int known;
  } all[] = {{random3(1, 90, 3, 610), 0}, {random3(2, 150, 2, 660), 0}, {random3(3, 70, 4, 700), 0}, {random3(9, 170, 2, 705), 1}, {tower(400, 4), 0}, {tower(1200, 3), 0}, {ladder(115, false), 1}, {ladder(280, true), 1}, {ladder(1300, false), 1}, {ladder(700, true), 1}, {longReasons(60, 4, 3), 1}, {longReasons(300, 3, 1), 1}, {longReasons(120, 3, 30), 1}};
  vector<Config> cf;
  if (prog)
    for (int h : {BK, VSIDS})
      for (int n : {0, 100}) {
        Config g;
        g.prog = 1;
        g.heur = h;
        g.restart = n;
        cf.push_back(g);
      }
  else
    for (auto &g : mainConfigs()) {
      cf.push_back(g);
      if (g.ch || g.lazy()) continue;
      cf.push_back(g);
      cf.back().restart = g.wl ? 9 : g.heur == BK ? 700 : 40;
    }
  vector<Case> r;
  for (auto &g : cf)
    for (auto &a : all) {
      Case k;
      k.kind = "deep";
      k.p = a.p;
      k.cfgs = {g};
      k.iv["deep"] = 1;
      k.iv["cut"] = g.prog ? 5000 : g.ch ? 50000 : g.lazy() ? 10000 : 20000;
      k.iv["known"] = (i64)((digest(a.p) & ~1ull) | a.known);
      r.push_back(k);
    }
  return r;
}
// a few cases are hard
static bool hardOne(Choices &c, Case &k, bool th, int oneIn = 90) {
  if (!c.chance(1, oneIn)) return false;
  k.p = genHard(c, th, k.kind);
  k.iv["deep"] = 1;
  k.iv["cut"] = 4000;
  return true;
}
static vector<Case> with(vector<Case> a, const vector<Case> &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static vector<Case> fixedMany() {
  vector<Case> r = fixedWide();
  for (auto &k : manyClauses(0)) r.push_back(k);
  return r;
}

// ------------------------------------------------------------------ C32
// a program outside the fork server; its output goes to files
static int tool(const SV &argv) {
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("tool.out", O_WRONLY | O_CREAT | O_TRUNC, 0644), in = open("/dev/null", O_RDONLY);
    dup2(in, 0);
    dup2(fd, 1);
    dup2(fd, 2);
    rlimit rl{60, 60};
    setrlimit(RLIMIT_CPU, &rl);
    vector<char *> a;
    for (auto &s : argv) a.push_back((char *)s.c_str());
    a.push_back(nullptr);
    execvp(a[0], a.data());
    _exit(127);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static bool colouring(const Case &k, Ctx &x) {
  int n = k.p.n(), N = k.p.D(1);
  vector<pair<int, int>> edges;
  for (auto &q : k.p.cl) {
    need(q.size() == 2 && q[0].v != q[1].v);
    edges.push_back({q[0].v, q[1].v});
  }
  for (int d : k.p.dom) need(d == N);
  need(n >= 1 && n <= 14 && N >= 1 && N <= 8);
  Choices c(k.aux);
  string t;
  auto noise = [&]() {
    while (c.chance(1, 4)) t += c.chance(1, 2) ? "c a comment\n" : "c p edge 1 1\n";
  };
  auto ws = [&]() { return string(c.chance(1, 5) ? c.in(2, 5) : 1, ' '); };
  noise();
  t += "p" + ws() + (c.chance(1, 2) ? "edge" : "col") + ws() + to_string(n) + ws() + to_string(edges.size()) + "\n";
  noise();
  for (auto &e : edges) {
    t += "e" + ws() + to_string(e.first) + ws() + to_string(e.second) + (c.chance(1, 6) ? " " : "") + "\n";
    noise();
  }
  if (c.chance(1, 4) && !t.empty()) t.pop_back();
  static const char *names[] = {"graph.col", "graph.ccg", "a.b.col", "graph"};
  string f = names[c.in(0, 3)], stem = f == "graph" ? f : f.substr(0, f.rfind('.'));
  bool folder = c.chance(1, 2);
  mkdir("graphs", 0755);
  writeFile("graphs/" + f, t);
  string out = string(folder ? "colours/" : "") + stem + "_N" + to_string(N) + ".dimacs";
  unlink(out.c_str());
  if (c.chance(1, 3)) {
    mkdir("colours", 0755);
    writeFile(out, "1=0 0\nold\n");
  }
  const char *repo = getenv("REPO_DIR");
  string script = string(repo ? repo : "/repo") + "/benchmarks/Graph_Coloring/coloring_script.py";
  SV a{"python3", "-B", "-S", "-E", script, "graphs/" + f, to_string(N)};
  if (folder) a = a + SV{"-folder", "colours"};
  int rc = tool(a);
  g_execs++;
  string said, got;
  readFile("tool.out", said);
  if (rc) fail("coloring_script.py: exit status " + to_string(rc) + ": " + clip(said));
  if (!readFile(out, got)) fail("coloring_script.py: no file " + out);
  unlink(out.c_str());
  unlink(("graphs/" + f).c_str());
  Problem p = parseFinite(got, "coloring_script.py output");
  if (p.n() != n) fail("coloring_script.py: " + to_string(p.n()) + " variables for " + to_string(n) + " vertices");
  for (int i = 1; i <= n; i++)
    if (p.D(i) != N) fail("coloring_script.py: variable " + to_string(i) + " has " + to_string(p.D(i)) + " values instead of " + to_string(N));
  for (auto &l : splitLines(got)) {
    SV w = words(l);
    if (w.size() == 4 && w[0] == "p" && w[3] != to_string(p.cl.size()))
      fail("coloring_script.py: the header states " + w[3] + " clauses but there are " + to_string(p.cl.size()));
  }
  Problem want;
  want.dom = k.p.dom;
  for (auto &e : edges)
    for (int a = 0; a < N; a++) want.cl.push_back({{e.first, false, a}, {e.second, false, a}});
  Ref r1(want, 200000), r2(p, 200000);
  for (auto &q : want.cl)
    if (!r2.implies(q)) fail("coloring_script.py: both ends of an edge may have the same colour: " + show(q) + " does not follow");
  for (auto &q : p.cl)
    if (!r1.implies(q)) fail("coloring_script.py: clause " + show(q) + " excludes proper colourings");
  bool sat = r1.sat();
  verdictOf(got, sat, k.cfgs[0], "the colouring problem");
  x.label(sat ? "colourable" : "not colourable");
  return edges.size() > 1 && N > 1;
}
static bool queens(const Case &k, Ctx &x) {
  i64 N = ivd(k, "N", 1);
  need(N >= 1 && N <= 60);
  unlink("out");
  RunResult r = run("queens", {to_string(N), "out"});
  mustEnd(r, "nqueens_sat");
  string t;
  if (!readFile("out", t)) fail("nqueens_sat: no file written");
  Dimacs d = parseDimacs(t, "nqueens_sat file");
  string what = "nqueens_sat " + to_string(N);
  if (d.n != N * N) fail(what + ": " + to_string(d.n) + " variables");
  if (d.m != (long)d.cl.size()) fail(what + ": the header states " + to_string(d.m) + " clauses but there are " + to_string(d.cl.size()));
  auto legal = [&](const vector<char> &b) {
    vector<int> row(N, 0), col(N, 0), up(2 * N, 0), down(2 * N, 0);
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++)
        if (b[i * N + j]) row[i]++, col[j]++, up[i + j]++, down[i - j + N]++;
    for (int i = 0; i < N; i++)
      if (row[i] != 1 || col[i] != 1) return false;
    for (int i = 0; i < 2 * N; i++)
      if (up[i] > 1 || down[i] > 1) return false;
    return true;
  };
  auto formula = [&](const vector<char> &b) {
    for (auto &q : d.cl) {
      bool ok = false;
      for (int l : q) ok |= b[abs(l) - 1] == (l > 0);
      if (!ok) return false;
    }
    return true;
  };
  Choices c(k.aux);
  // the classical placement
  vector<int> e, o;
  for (int i = 2; i <= N; i += 2) e.push_back(i);
  for (int i = 1; i <= N; i += 2) o.push_back(i);
  int m = (int)(N % 12);
  if ((m == 3 || m == 9) && e.size() > 1) e.erase(e.begin()), e.push_back(2);
  if (m == 8)
    for (size_t i = 0; i + 1 < o.size(); i += 2) swap(o[i], o[i + 1]);
  if (m == 2 && o.size() > 2) {
    swap(o[0], o[1]);
    o.erase(o.begin() + 2);
    o.push_back(5);
  }
  if ((m == 3 || m == 9) && o.size() > 2) {
    o.erase(o.begin(), o.begin() + 2);
    o.push_back(1);
    o.push_back(3);
  }
  e.insert(e.end(), o.begin(), o.end());
  int good = 0, boards = 0;
  for (int i = 0; i < 30; i++) {
    vector<int> s = e;
    if (c.chance(1, 2)) reverse(s.begin(), s.end());
    if (c.chance(1, 2))
      for (int &v : s) v = (int)N + 1 - v;
    vector<char> b(N * N, 0);
    bool flip = c.chance(1, 2);
    for (int j = 0; j < N; j++) b[flip ? (s[j] - 1) * N + j : j * N + s[j] - 1] = 1;
    for (int j = i < 4 ? 0 : c.in(1, 3); j > 0; j--) {
      if (c.chance(1, 3)) b[c.in(0, (int)(N * N) - 1)] ^= 1;
      else {  // exchange two rows: still one queen in each row and column
        int u = c.in(0, (int)N - 1), v = c.in(0, (int)N - 1);
        for (int w = 0; w < N; w++)
          if (u != v) swap(b[u * N + w], b[v * N + w]);
      }
    }
    boards++;
    bool l = legal(b);
    good += l;
    if (formula(b) != l) {
      string z;
      for (int q = 0; q < N * N; q++) {
        z += b[q] ? 'Q' : '.';
        if (q % N == N - 1) z += "\n";
      }
      fail(what + (l ? ": a legal placement is no model" : ": a placement with attacking or missing queens is a model") + "\n" + z);
    }
  }
  static const int counts[] = {0, 1, 0, 0, 2, 10, 4};
  if (N <= 6) {
    Ref ref(boolean((int)d.n, d.cl), 400000);
    if ((int)ref.count() != counts[N]) fail(what + ": " + to_string((i64)ref.count()) + " models instead of " + to_string(counts[N]));
  }
  if (N <= 8) verdictOf(convert("-b2f", t), N != 2 && N != 3, k.cfgs[0], what + " after -b2f");
  x.label("queens");
  return good > 0 && good < boards;
}
static bool c32(const Case &k, Ctx &x) {
  need(!k.cfgs.empty() && !k.aux.empty());
  if (ivd(k, "queens", 0)) return queens(k, x);
  need(validProblem(k.p, 64));
  return colouring(k, x);
}

// ------------------------------------------------------------------ C29
static bool c29(const Case &k, Ctx &x) {
  need(validProblem(k.p, 100000) && !k.cfgs.empty());
  int big = 0;
  for (int d : k.p.dom) big = max(big, d);
  Ref ref(k.p, refBudget());
  bool sat = ref.sat();
  writeFile("in", toText(k.p));
  for (auto &g : k.cfgs) {
    string w = g.name() + " with a domain of " + to_string(big) + " values";
    SV extra;
    if (ivd(k, "verbose", 0)) extra.push_back("-verbose");
    if (ivd(k, "output", 0)) extra.push_back("-output");
    RunResult r = solve("bit", g, extra);
    if (!r.exited() || r.capped || r.hang) fail(w + ": " + r.ending());
    Out o = parseOut(r.out, true);
    if (o.verdicts.empty() && big > 64) {
      if (r.code() == 0) fail(w + ": neither an answer nor an error status");
      if (r.out.find("The model") != string::npos) fail(w + ": a model without an answer");
      string all = r.out + r.err;
      for (auto &ch : all) ch = (char)tolower((unsigned char)ch);
      if (all.find("error") == string::npos && all.find("domain") == string::npos) fail(w + ": refused without a message");
      x.label("refused");
      continue;
    }
    mustEnd(r, w);
    if ((extra.empty() && o.verdicts.size() != 1) || o.verdict() != (sat ? "SAT" : "UNSAT"))
      fail(w + ": answers " + o.verdict() + " but the problem is " + (sat ? "satisfiable" : "unsatisfiable"));
    if (sat) bitModel(k.p, o, w + ": ");
    x.label("answered");
  }
  x.label(big == 64 ? "largest domain 64" : big == 65 ? "largest domain 65" : big > 64 ? "largest domain > 65" : "largest domain < 64");
  x.label(sat ? "satisfiable" : "unsatisfiable");
  return big > 64;
}
static Case wideCase(Choices &c) {
  GenOpts o = small(9);
  Case k = caseOf(c, o);
  // widen some domains; the clauses mention old values, and sometimes new ones
  for (int i = c.in(1, 2); i > 0; i--) {
    int v = c.in(1, k.p.n()), d;
    switch (c.in(0, 5)) {
      case 0: d = 64; break;
      case 1: d = 65; break;
      case 2: d = c.in(60, 70); break;
      case 3: d = 1 << c.in(6, 13); break;
      case 4: d = c.in(65, 130); break;
      default: d = c.in(65, 1000);
    }
    k.p.dom[v - 1] = max(d, k.p.D(v));
    if (c.chance(1, 2)) continue;
    for (int j = c.in(1, 3); j > 0; j--) {
      Clause q;
      q.push_back({v, c.chance(1, 2), c.chance(1, 2) ? k.p.D(v) - 1 : c.in(0, k.p.D(v) - 1)});
      for (int l = c.in(0, 2); l > 0; l--) {
        int u = c.in(1, k.p.n());
        q.push_back({u, c.chance(1, 2), c.in(0, k.p.D(u) - 1)});
      }
      c.shuffle(q);
      k.p.cl.insert(k.p.cl.begin() + c.in(0, (int)k.p.cl.size()), q);
    }
  }
  k.cfgs = {genBit(c), genBit(c)};
  k.iv["verbose"] = c.chance(1, 3);
  k.iv["output"] = c.chance(1, 3);
  return k;
}

// ------------------------------------------------------------------ C30
static bool c30(const Case &k, Ctx &x) {
  need(validProblem(k.p, 64) && !k.cfgs.empty());
  writeFile("in", toText(k.p));
  bool nt = false;
  for (auto &g : k.cfgs) {
    RunOpts ro;
    ro.cpu_s = 120;
    RunResult r = solve(flav(g), g, {"-verbose"}, ro);
    mustEnd(r, g.name());
    Out o = parseOut(r.out, g.prog);
    if (o.verdicts.empty()) fail(g.name() + ": no verdict in the output");
    string w = g.name() + ": ";
    if (o.verdict() == "SAT") {
      if (g.prog) bitModel(k.p, o, w);
      else if ((int)o.model.size() == k.p.n() || !g.lazy()) checkModel(k.p, g, o, nullptr);
      x.label("SAT, model checked");
    }
    try {
      Proof pr(k.p, isDeep(k) ? 1000000000 : 30000000);
      Derivation d = derivation(k.p, g, r.out, pr);
      if (!d.broken.empty()) fail(w + d.broken);
      size_t i = 0;
      for (auto &c : d.steps) {
        i++;
        if (!pr.valid(c)) fail(w + "step " + to_string(i) + " of the search is not over the problem's variables");
        if (!pr.follows(c))
          fail(w + (g.ch ? "refutation " : "learned clause ") + to_string(i) + " of " + to_string(d.steps.size()) + " " + showSet(c) +
               " does not follow by propagation from the input and what was reported before");
        pr.add(c);
      }
      if (o.verdict() == "UNSAT" && !pr.contradiction())
        fail(w + "answers UNSAT, but the input and the " + to_string(d.steps.size()) + " reported steps do not give a contradiction by propagation");
      if (o.verdict() == "SAT" && pr.contradiction()) fail(w + "answers SAT, but the reported steps refute the problem");
      if (d.steps.size() > 2) nt = true;
      x.label(o.verdict() + (d.steps.size() > 1000 ? " > 1000 steps" : d.steps.size() > 100 ? " > 100 steps" : d.steps.size() > 10 ? " > 10 steps" : " <= 10 steps"));
    } catch (ProofOver &) {
      x.label("budget");
    }
    x.label("cfg " + (g.prog ? g.name() : plainName(g)));
  }
  x.label("kind " + k.kind);
  return nt;
}
const vector<Prop> &allProps() {
  static vector<Prop> P;
  if (!P.empty()) return P;
  auto add = [&](Prop p) { P.push_back(p); };
  const string gnote =
      "cases are problems from structured generators (random with drawn clause lengths, sign mix and constrainedness; exclusion-heavy; wide domains; Boolean; planted; "
      "pigeons; colouring; order; parity; decorated with repeated literals/clauses, tautologies, units, one-valued and unused variables, empty clauses) with drawn configurations; ";

  add({"C01",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         Case k;
         if (!large(c, k)) k = caseOf(c, o);
         addConfigs(c, k, c.in(3, 6));
         if (c.chance(1, 10)) k.cfgs = mainConfigs();
         return k;
       },
       c01, gnote + "non-trivial: at least one of the case's runs backtracked", 56000, 900000, {"main"}, []() { return with(fixedMany(), deepSearches(0)); }, {}});
  add({"C02",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         o.tgtMin = -1;
         o.tgtMax = o.hard ? 2 : 4;
         Case k;
         if (!large(c, k)) k = caseOf(c, o);
         addConfigs(c, k, c.in(3, 6));
         return k;
       },
       c02, gnote + "non-trivial: at least one SAT answer on a problem with >=2 variables and >=2 clauses", 52000, 900000, {"main"}, fixedWide, {}});
  add({"C03",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         if (c.chance(1, 4)) o = hardy(c, th, 24);
         Case k;
         if (!large(c, k)) k = caseOf(c, o);
         addConfigs(c, k, c.in(2, 5));
         for (auto &g : k.cfgs)
           if (!g.ch && c.chance(1, 3)) g.restart = c.in(1, 3);
         return k;
       },
       c03, gnote + "non-trivial: at least one run with more than two backtracks", 48000, 800000, {"main"},
       []() {
         vector<Case> r = fixedWide();
         for (auto &k : fixedChains(0, 75000)) r.push_back(k);
         r.push_back(deepSearch(30000));
         return r;
       },
       {}});
  struct TP {
    const char *id, *rule;
    i64 q, t;
  };
  static const TP tps[] = {
      {"C04", "non-trivial: at least one resolution step", 36000, 500000},
      {"C05", "non-trivial: more than two forced assignments besides a decision", 40000, 600000},
      {"C06", "non-trivial: at least one backtrack and two decisions", 36000, 500000},
      {"C07", "non-trivial: at least two decisions, and learned clauses, chronological search or more than four decisions", 36000, 500000},
      {"C08", "non-trivial: at least one restart", 44000, 600000},
      {"C09", "non-trivial: at least one backtrack", 44000, 600000},
  };
  for (auto &t : tps) {
    string tag = t.id;
    add({tag,
         [tag](Choices &c, bool th) {
           GenOpts o = mixed(c, th);
           Case k;
           bool hard = hardOne(c, k, th);
           if (!hard && !large(c, k, 400, 4)) k = caseOf(c, o);
           int n = hard ? 1 : c.in(2, 4);
           for (int i = 0; i < n; i++) {
             Config g = genMain(c);
             if (tag == "C04" || tag == "C08")
               while (g.ch) g = genMain(c);
             if (tag == "C08") {
               static const int wide[] = {257, 258, 32769, 65537, 65538, 131073, 2147483647};
               if (c.chance(1, 25)) g.restart = wide[c.in(0, 6)];
               else if (!c.chance(1, 8)) g.restart = c.chance(1, 2) ? c.in(1, 4) : c.in(1, 30);
               else g.restart = 0;
               if (!g.restart) g.longname = false;
             }
             k.cfgs.push_back(g);
           }
           return k;
         },
         [tag](const Case &k, Ctx &x) { return traced(k, x, tag); }, gnote + t.rule, t.q, t.t, {"main"}, [tag]() { return with(tag == "C09" ? fixedStatistics() : tag == "C07" || tag == "C08" ? fixedSolve() : fixedMany(), deepSearches(0)); }, {}});
  }
  add({"C10",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         if (c.chance(1, 6)) o.maxDom = 130;
         Case k;
         if (!large(c, k)) k = caseOf(c, o);
         addConfigs(c, k, c.in(1, 3));
         k.iv["format"] = c.chance(1, 2);
         k.aux = {(uint32_t)c.next(), (uint32_t)c.next()};
         return k;
       },
       c10, gnote + "each is respelled (blanks, tabs, comments, blank/long lines, missing 0 or newline, p keyword) or rewritten (renaming, value permutation, reordering, repetition, tautologies, expansion of v!=a); non-trivial: the runs made decisions or unit steps",
       40000, 600000, {"main"}, nullptr, {}});
  add({"C11",
       [](Choices &c, bool th) {
         GenOpts o = c.chance(1, 4) ? mixed(c, th) : hardy(c, th, 23);
         if (o.hard) o.bitsMin = 13;
         Case k;
         if (c.chance(1, 6)) sparseCase(c, k);
         else k = caseOf(c, o);
         k.cfgs = {c.chance(1, 4) ? genBit(c) : genMain(c)};
         static const int Ts[] = {0, 1, 1, 2, 3, 5, 10, 60, 100, 3600, 86400, 1000000, 3600000, 100000000, 2000000000, 2147483647};
         k.iv["T"] = Ts[c.in(0, 15)];
         k.iv["at"] = c.in(0, 100000);
         k.iv["slack"] = c.chance(1, 2) ? 0 : c.in(0, 3000);
         k.iv["over"] = c.chance(1, 2) ? 0 : c.in(0, 100000);
         k.iv["early"] = c.chance(1, 3);
         k.iv["noopt"] = c.chance(1, 10);
         return k;
       },
       c11, gnote + "each is solved under several courses of a virtual clock; non-trivial: the search reads the clock at least 30 times and is interrupted", 26000, 400000, {"main", "bit"}, nullptr, {}});
  add({"C25",
       [](Choices &c, bool th) {
         GenOpts o = c.chance(1, 3) ? mixed(c, th) : hardy(c, th, 23);
         if (o.hard) o.bitsMin = 13;
         Case k;
         if (c.chance(1, 6)) sparseCase(c, k);
         else k = caseOf(c, o);
         k.cfgs = {c.chance(1, 4) ? genBit(c) : genMain(c)};
         static const i64 Ds[] = {0, 100, 1000, 5000, 999999, 1000000, 1500000, 59000000, 60000000, 61000000, 3599000000, 3000000000, 100000000000};
         k.iv["D"] = c.chance(1, 2) ? Ds[c.in(0, 12)] : c.in(0, 2000000000);
         k.iv["at"] = c.in(0, 100000);
         k.iv["step"] = c.chance(1, 2) ? c.in(0, 2000) : c.in(0, 200000);
         k.iv["limit"] = c.chance(1, 3);
         if (c.chance(1, 4)) k.iv["path"] = c.in(1, 8), k.iv["pathlen"] = c.in(0, 1 << 20);
         return k;
       },
       c25, gnote + "each is solved under a clock that stands still, moves steadily, or jumps while the input is read or in the middle of the search; non-trivial: the search reads the clock at least 30 times and the clock jumps in it", 20000, 300000,
       {"main", "bit"}, nullptr, {}});
  add({"C12",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         Case k;
         bool bit = c.chance(1, 5);
         if (!large(c, k, bit ? 64 : 3000, 4)) k = caseOf(c, o);
         k.cfgs = {bit ? genBit(c) : genMain(c)};
         k.aux = {(uint32_t)c.next(), (uint32_t)c.next()};
         return k;
       },
       c12, gnote + "each is run about ten times (again, heap/stack filled with different bytes, other clock, -O0, -O3, options reordered, irrelevant options added, -verbose); non-trivial: the search backtracked", 16000, 240000,
       {"main", "main0", "main3", "bit", "bit0"}, nullptr, {}});
  add({"C13",
       [](Choices &c, bool th) {
         Case k;
         int w = c.in(0, 19);
         int what = w < 8 ? 0 : w < 12 ? 1 : w < 14 ? 2 : w < 15 ? 3 : w < 16 ? 4 : w < 17 ? 5 : w < 18 ? 6 : 7;
         if (what <= 1) {
           GenOpts o = mixed(c, th);
           if (c.chance(1, 6)) o.maxDom = what ? 64 : 150;
           if (!large(c, k, what ? 64 : 3000, 4)) k = caseOf(c, o);
           if (what == 0) addConfigs(c, k, c.in(1, 3));
           else k.cfgs = {genBit(c), genBit(c)};
           k.aux = {(uint32_t)(c.chance(1, 3) ? c.next() | 1 : 0)};
           k.iv["verbose"] = c.chance(1, 4);
         } else if (what <= 3) {
           GenOpts o = small(20);
           if (c.chance(1, 3)) o.maxDom = 60;
           k = caseOf(c, o);
           k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
         } else if (what == 4) k = booleanCase(c, 20);
         else if (what <= 6) k = genbenCase(c, what == 5);
         else {
           k.txt = {words5(c, 20)};
           k.iv["bit"] = c.in(0, 1);
         }
         if (what <= 4 && c.chance(1, 4)) k.iv["path"] = c.in(1, 8), k.iv["pathlen"] = c.in(0, 1 << 20);
         k.iv["what"] = what;
         return k;
       },
       c13, gnote + "every command (solvers, converters, generators, help) is run in a build with AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial: the run searched, converted at least two clauses or generated a file", 13000, 200000,
       {"mainsan", "bitsan"},
       []() {
         vector<Case> r;
         for (int prog : {0, 1})
           for (auto &k : fixedChains(prog, 40000)) {
             k.iv["what"] = prog;
             for (auto &g : k.cfgs) {
               Case one = k;
               one.cfgs = {g};
               r.push_back(one);
             }
           }
         return r;
       },
       {}});
  add({"C14",
       [](Choices &c, bool) {
         GenOpts o = small(9);
         o.maxVars = 8;
         o.tgtMin = 0;
         o.maxDom = c.chance(1, 4) ? 20 : 6;
         Case k;
         if (!manyVariables(c, k, true) && !large(c, k, 700, 3)) k = caseOf(c, o);
         if (k.p.cl.empty()) k.p.cl.push_back({{1, true, 0}});
         if (c.chance(1, 6)) k.iv["undeclared"] = c.in(1, 1 << 30);
         k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
         return k;
       },
       c14, gnote + "non-trivial: satisfiable input with at least two variables", 60000, 900000, {"main"}, nullptr,
       {{"linenc-no-clauses", [](string &h) { return emptyOutput("-linenc", h); }}}});
  add({"C15",
       [](Choices &c, bool) {
         GenOpts o = small(9);
         o.maxVars = 8;
         o.tgtMin = 0;
         o.maxDom = c.chance(1, 4) ? 24 : 6;
         Case k;
         if (!manyVariables(c, k) && !large(c, k, c.chance(1, 3) ? 260 : 90, 3)) k = caseOf(c, o);
         if (k.p.cl.empty()) k.p.cl.push_back({{1, true, 0}});
         k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
         return k;
       },
       c15, gnote + "non-trivial: satisfiable input with at least two variables", 60000, 900000, {"main"}, nullptr,
       {{"quadenc-no-clauses", [](string &h) { return emptyOutput("-quadenc", h); }}}});
  add({"C16",
       [](Choices &c, bool) {
         Case k = booleanCase(c, 14);
         addConfigs(c, k, 1);
         return k;
       },
       c16, "cases are Boolean CNFs (random, planted, pigeons, parity, decorated; unused variables, no clauses) in canonical or respelled form; non-trivial: at least two clauses", 70000, 1000000, {"main"}, nullptr, {}});
  add({"C17",
       [](Choices &c, bool) {
         Case k;
         if (c.chance(2, 3)) {
           k = booleanCase(c, 12);
           k.iv["rounds"] = c.in(0, 2);
         } else {
           GenOpts o = small(9);
           o.maxVars = 8;
           if (!large(c, k, 40, 3)) k = caseOf(c, o);
           k.iv["finite"] = 1;
           k.aux = {(uint32_t)(c.chance(1, 2) ? c.next() | 1 : 0)};
         }
         if (k.p.cl.empty()) k.p.cl.push_back({{1, true, 0}});
         addConfigs(c, k, 2);
         return k;
       },
       c17, "Boolean CNFs pushed 1-3 times through -b2f and -linenc, and finite-domain problems through -linenc, -b2f, -linenc and the solver; non-trivial: at least two clauses", 40000, 600000, {"main"}, nullptr, {}});
  add({"C18",
       [](Choices &c, bool) {
         Case k = genbenCase(c, true);
         Config g = genMain(c, true);
         if (k.iv["var"] > 20) {
           g = Config();
           g.heur = VSIDS;
         }
         k.cfgs = {g};
         return k;
       },
       c18, "option combinations of -genben -bool 1 (variables 1-200, clause size 1..variables, domains 1-1500, -drand, -sat, defaults, option order) and random seeds drawn through the virtual clock; non-trivial: >=2 variables and >=2 clauses", 60000, 900000,
       {"main"}, nullptr, {}});
  add({"C19", [](Choices &c, bool) { return genbenCase(c, false); }, c19,
       "option combinations of -genben -bool 0 and random seeds drawn through the virtual clock; non-trivial: >=2 variables and >=2 clauses", 110000, 1500000, {"main"}, nullptr, {}});
  add({"C20",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         if (c.chance(1, 4)) o.maxDom = 64;
         Case k;
         if (!large(c, k, 64)) k = caseOf(c, o);
         k.cfgs = {genBit(c), genBit(c), genBit(c)};
         if (c.chance(1, 3)) addConfigs(c, k, 1);
         return k;
       },
       c20, gnote + "non-trivial: a bitvec run backtracked", 56000, 900000, {"main", "bit"},
       []() {
         vector<Case> r = fixedSolve();
         for (auto &k : r) {
           k.cfgs.clear();
           for (int h : {BK, VSIDS})
             for (int n : {0, 1, 2}) {
               Config g;
               g.prog = 1;
               g.heur = h;
               g.restart = n;
               k.cfgs.push_back(g);
             }
         }
         for (auto &k : manyClauses(1)) r.push_back(k);
         for (auto &k : fixedChains(1, 75000)) r.push_back(k);
         return with(r, deepSearches(1));
       },
       {}});
  add({"C21",
       [](Choices &c, bool th) {
         GenOpts o = mixed(c, th);
         if (c.chance(1, 6)) o.maxDom = 64;
         Case k;
         if (!large(c, k, 64)) k = caseOf(c, o);
         k.cfgs = {genBit(c), genBit(c)};
         return k;
       },
       c21, gnote + "non-trivial: the search backtracked", 52000, 800000, {"bit"}, []() { return with(manyClauses(1), deepSearches(1)); }, {}});
  add({"C22",
       [](Choices &c, bool) {
         Case k;
         int cmd = c.in(0, 6);
         cmd = max(0, cmd - 2);
         if (cmd == 1) k = booleanCase(c, 6);
         else k = caseOf(c, small(6));
         k.aux.clear();
         if (cmd > 1 && k.p.cl.empty()) k.p.cl.push_back({{1, true, 0}});
         k.iv["gb"] = c.in(0, 1 << 20);
         k.cfgs = {cmd == 0 && c.chance(1, 4) ? genBit(c) : genMain(c)};
         k.iv["cmd"] = cmd;
         k.iv["output"] = c.chance(1, 2);
         k.iv["bad"] = c.chance(1, 6) ? 8 : c.in(0, 8);
         if (k.iv["bad"] == 8) {
           k.iv["output"] = 0;
           if (c.chance(1, 2)) k.iv["path"] = c.in(1, 8), k.iv["pathlen"] = c.in(0, 1 << 20);
           if (c.chance(1, 3)) k.iv["odd"] = c.in(1, 6);
         }
         k.iv["verbose"] = c.chance(1, 3);
         return k;
       },
       c22, "every solving, converting and generating command with a missing, unreachable, dangling or over-long input path, an unwritable output path, or a good file; every case is non-trivial", 80000, 600000, {"main", "bit"}, nullptr, {}});
  add({"C23",
       [](Choices &c, bool th) {
         GenOpts o = small(th ? 11 : 10);
         o.tgtMin = 0;
         o.tgtMax = 4.5;
         o.emptyClauses = false;
         Case k = caseOf(c, o);
         addConfigs(c, k, c.in(1, 4), true);
         k.aux = {(uint32_t)c.next()};
         return k;
       },
       c23, gnote + "the printed model is excluded after every answer until UNSAT; non-trivial: at least two solutions", 16000, 240000, {"main"}, nullptr, {}});
  add({"C24",
       [](Choices &c, bool) {
         Case k;
         k.kind = "menu";
         k.iv["bit"] = c.chance(1, 3);
         k.iv["how"] = c.in(0, 4);
         k.iv["more"] = c.in(0, 1);
         if (c.chance(1, 2)) {
           k.iv["structured"] = 1;
           for (int i = c.in(0, 12); i > 0; i--) {
             int ch = c.chance(1, 8) ? c.in(-20, 3000) : c.in(c.chance(1, 8) ? 0 : 1, 7);
             k.aux.push_back((uint32_t)(ch + 20));
           }
         } else k.txt = {words5(c, 30)};
         return k;
       },
       c24, "dialogues of choices, and arbitrary token/byte streams on standard input, with the menu entered in every way; non-trivial: input longer than two bytes", 110000, 1200000, {"main", "bit"}, nullptr, {}});
  add({"C26", [](Choices &c, bool) {
         Case k = commandCase(c);
         k.iv["old"] = c.in(0, 3);
         k.iv["oldlen"] = c.in(0, 10000);
         return k;
       },
       c26, "every command in a directory with other files, with an absent, shorter, longer or similar file in place of its output, and without its input; non-trivial: an output of more than 40 bytes, or a solving run", 40000, 500000, {"main", "bit"}, nullptr, {}});
  add({"C27", [](Choices &c, bool) { return spreadCase(c); }, c27,
       "option combinations of -genben with so many clauses or variables that everything in range is expected at least 60 times, and pairs of random seeds; non-trivial: at least one such expectation", 9000, 120000, {"main"}, nullptr, {}});
  add({"C28", [](Choices &c, bool) {
         Case k = commandCase(c);
         k.iv["chunk"] = c.chance(1, 3) ? 0 : c.in(0, 100000);
         k.iv["intr"] = c.in(0, 4);
         k.iv["rdat"] = c.chance(1, 4) ? c.in(0, 20) : c.in(0, 1 << 30);
         k.iv["wrat"] = c.chance(1, 4) ? c.in(0, 20) : c.in(0, 1 << 30);
         k.iv["isdir"] = c.chance(1, 4);
         k.iv["directory"] = c.chance(1, 10);
         return k;
       },
       c28, "every command under reads and writes that come in pieces, are interrupted, or fail after a drawn number of bytes, and with a directory as input; non-trivial: a fault was delivered", 40000, 500000, {"main", "bit"}, nullptr, {}});
  add({"C29", [](Choices &c, bool) { return wideCase(c); }, c29,
       "bitvec problems in which one or two domains are widened to sizes around and above 64 values, with and without literals over the new values; non-trivial: a domain of more than 64 values", 40000, 500000, {"bit"}, nullptr, {}});
  add({"C30", [](Choices &c, bool th) {
         Case k;
         k.p = genHard(c, th, k.kind);
         k.iv["cut"] = c.chance(1, 4) ? (th ? 25000 : 8000) : 4000;
         for (int i = c.in(1, 2); i > 0; i--) k.cfgs.push_back(c.chance(1, 4) ? genBit(c) : genMain(c));
         return k;
       },
       c30, "hard problems beyond the reach of the reference solver (random at the threshold with up to 90 variables, pigeons, colourings, queens, Latin squares, transition chains, cardinality); the trace is checked as a proof by propagation alone; non-trivial: more than two reported steps", 20000, 140000, {"main", "bit"}, []() { return with(deepSearches(0), deepSearches(1)); }, {}});
  add({"C31", [](Choices &c, bool th) {
         Case k;
         int w = c.in(0, 11);
         if (w == 0) k.p = genHard(c, th, k.kind);
         else if (w > 1 || !large(c, k, 64, 100)) {
           GenOpts o = mixed(c, th);
           if (c.chance(1, 6)) o.maxDom = 64;
           k = caseOf(c, o);
         }
         if (w == 0) k.iv["cut"] = 4000;
         k.cfgs = {genBit(c), genBit(c)};
         return k;
       },
       c31, gnote + "and hard problems; non-trivial: at least two decisions and a learned clause, or five decisions", 40000, 700000, {"bit"}, []() { return deepSearches(1); }, {}});
  add({"C32", [](Choices &c, bool) {
         Case k;
         k.aux = {(uint32_t)c.next() | 1};
         Config g = genMain(c);
         k.cfgs = {g};
         if (c.chance(1, 3)) {
           k.kind = "queens";
           k.iv["queens"] = 1;
           k.iv["N"] = c.chance(1, 2) ? c.in(1, 8) : c.in(1, 40);
           k.p.dom = {1};
           return k;
         }
         k.kind = "graph";
         int n = c.in(1, 10), N = c.in(1, 5);
         k.p.dom.assign(n, N);
         if (n > 1)
           for (int i = c.in(0, 3 * n); i > 0; i--) {
             int v = c.in(1, n), w = c.in(1, n - 1);
             w += w >= v;
             k.p.cl.push_back({{v, false, 0}, {w, false, 0}});
           }
         return k;
       },
       c32, "random graphs (comments, repeated edges, both directions, file names, output folders, old output files) and numbers of colours for coloring_script.py, board sizes for nqueens_sat.cc with placements derived from correct ones; non-trivial: more than one edge and colour, or correct and incorrect placements", 2400, 30000, {"main", "queens"}, nullptr, {}});
  return P;
}
