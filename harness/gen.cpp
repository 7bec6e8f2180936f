#include "gen.hpp"
#include "oracle.hpp"
#include <cmath>
using namespace std;

bool validProblem(const Problem &p, int maxDom) {
  if (p.n() < 1) return false;
  for (int d : p.dom)
    if (d < 1 || d > maxDom) return false;
  for (auto &q : p.cl)
    for (auto &l : q)
      if (l.v < 1 || l.v > p.n() || l.a < 0 || l.a >= p.D(l.v)) return false;
  return true;
}

// probability that a random assignment satisfies the clause
static double psat(const Problem &p, const Clause &q) {
  map<int, set<int>> m;
  for (auto &l : q) {
    auto &s = m[l.v];
    if (l.eq) s.insert(l.a);
    else
      for (int j = 0; j < p.D(l.v); j++)
        if (j != l.a) s.insert(j);
  }
  double f = 1;
  for (auto &x : m) f *= 1.0 - (double)x.second.size() / p.D(x.first);
  return 1 - f;
}

static vector<int> pickVars(Choices &c, int n, int k) {
  vector<int> r;
  for (int i = 1; i <= n; i++) r.push_back(i);
  for (int i = 0; i < k && i < n; i++) swap(r[i], r[i + c.in(0, n - 1 - i)]);
  r.resize(min(k, n));
  return r;
}

static Clause randClause(Choices &c, const Problem &p, int k, int eqPct) {
  Clause q;
  for (int v : pickVars(c, p.n(), k)) {
    bool eq = c.in(0, 99) < eqPct;
    q.push_back({v, eq, c.in(0, p.D(v) - 1)});
    // sometimes a second literal of the same variable
    if (p.D(v) > 2 && eq && c.chance(1, 8)) {
      int a = c.in(0, p.D(v) - 1);
      if (a != q.back().a) q.push_back({v, true, a});
    }
  }
  return q;
}

static void fill(Choices &c, Problem &p, const GenOpts &o, int kmin, int kmax, int eqPct, double target,
                 const vector<int> *planted) {
  double bits = log2(p.product());
  int guard = 0;
  while ((int)p.cl.size() < o.maxClauses && bits > target && guard++ < 4 * o.maxClauses) {
    Clause q = randClause(c, p, c.in(kmin, kmax), eqPct);
    if (planted) {
      bool ok = false;
      for (auto &l : q) ok |= ((*planted)[l.v - 1] == l.a) == l.eq;
      if (!ok) continue;
    }
    double s = psat(p, q);
    if (s <= 0) continue;
    if (s > 0.999 && !c.chance(1, 10)) continue;
    bits += log2(s);
    p.cl.push_back(q);
  }
}

void decorate(Choices &c, Problem &p, const GenOpts &o) {
  if (c.chance(1, 4) && !p.cl.empty()) {  // repeated literals
    for (int i = c.in(1, 3); i > 0; i--) {
      auto &q = p.cl[c.in(0, (int)p.cl.size() - 1)];
      if (!q.empty()) q.insert(q.begin() + c.in(0, (int)q.size()), q[c.in(0, (int)q.size() - 1)]);
    }
  }
  if (c.chance(1, 5)) {  // tautologies
    for (int i = c.in(1, 2); i > 0; i--) {
      Clause q = randClause(c, p, c.in(0, 2), 50);
      int v = c.in(1, p.n()), a = c.in(0, p.D(v) - 1);
      q.push_back({v, true, a});
      q.push_back({v, false, a});
      if (c.chance(1, 3)) {
        q.clear();
        for (int j = 0; j < p.D(v) && j < 12; j++) q.push_back({v, true, j});
      }
      c.shuffle(q);
      p.cl.push_back(q);
    }
  }
  if (c.chance(1, 4) && !p.cl.empty())  // repeated clauses
    for (int i = c.in(1, 3); i > 0; i--) {
      Clause q = p.cl[c.in(0, (int)p.cl.size() - 1)];
      c.shuffle(q);
      p.cl.insert(p.cl.begin() + c.in(0, (int)p.cl.size()), q);
    }
  if (c.chance(1, 5) && !p.cl.empty()) {  // subsumed clause
    Clause q = p.cl[c.in(0, (int)p.cl.size() - 1)];
    for (auto &l : randClause(c, p, c.in(1, 2), 50)) q.push_back(l);
    p.cl.push_back(q);
  }
  if (c.chance(1, o.hard ? 12 : 5))  // unit clauses
    for (int i = c.in(1, 2); i > 0; i--) {
      int v = c.in(1, p.n());
      p.cl.insert(p.cl.begin() + c.in(0, (int)p.cl.size()), Clause{{v, c.chance(p.D(v) > 2 ? 1 : 2, 4), c.in(0, p.D(v) - 1)}});
    }
  if (o.dom1 && c.chance(1, 6)) {  // one-valued variables
    for (int i = c.in(1, 2); i > 0; i--) {
      p.dom.push_back(1);
      int v = p.n();
      for (int k = c.in(0, 3); k > 0 && !p.cl.empty(); k--) {
        auto &q = p.cl[c.in(0, (int)p.cl.size() - 1)];
        if (!q.empty()) q.insert(q.begin() + c.in(0, (int)q.size()), Lit{v, c.chance(1, 4), 0});
      }
    }
  }
  if (c.chance(1, 5)) p.dom.push_back(c.in(2, max(2, min(4, o.maxDom))));  // unused variable
  if (o.emptyClauses && c.chance(1, 50)) p.cl.insert(p.cl.begin() + c.in(0, (int)p.cl.size()), Clause{});
  if (c.chance(1, 2)) c.shuffle(p.cl);
  if (c.chance(1, 3)) {  // rename variables
    vector<int> perm;
    for (int i = 1; i <= p.n(); i++) perm.push_back(i);
    c.shuffle(perm);
    Problem q = p;
    for (int i = 0; i < p.n(); i++) q.dom[perm[i] - 1] = p.dom[i];
    for (auto &x : q.cl)
      for (auto &l : x) l.v = perm[l.v - 1];
    p = q;
  }
}

Problem genProblem(Choices &c, const GenOpts &o, string &kind) {
  Problem p;
  double bits = o.bitsMin + (o.bitsMax - o.bitsMin) * c.in(0, 1000) / 1000.0;
  double target = o.tgtMin + (o.tgtMax - o.tgtMin) * c.in(0, 1000) / 1000.0;
  int sel = c.in(0, o.structured ? 15 : 11);
  if (o.hard) {
    static const int hs[] = {0, 0, 0, 0, 5, 5, 8, 8, 10, 10, 12, 13, 13, 15};
    sel = hs[sel % 14];
  }
  auto doms = [&](int lo, int hi) {
    double b = 0;
    while (p.n() < o.maxVars && (p.dom.empty() || b < bits)) {
      int d = c.in(lo, max(lo, min(hi, o.maxDom)));
      if (o.dom1 && c.chance(1, 40)) d = 1;
      p.dom.push_back(d);
      b += log2(max(d, 1));
      if (d == 1) b += 0.3;
    }
  };
  static const int eqs[] = {0, 10, 30, 50, 50, 70, 85, 100};
  int eqPct = eqs[c.in(0, 7)];
  if (sel <= 4) {
    kind = "random";
    doms(2, c.in(2, o.hard ? min(o.maxDom, 4) : o.maxDom));
    int k = c.in(o.hard ? 2 : 1, 4);
    fill(c, p, o, c.in(max(o.hard ? 2 : 1, k - 1), k), k + c.in(0, 1), eqPct, target, nullptr);
  } else if (sel <= 6) {
    kind = "exclusions";  // mostly v!=a: many entailments
    doms(3, c.in(3, max(3, o.hard ? min(5, o.maxDom) : o.maxDom)));
    fill(c, p, o, o.hard ? 2 : c.in(1, 2), c.in(2, 3), c.in(0, 15), target, nullptr);
  } else if (sel == 7) {
    kind = "wide";
    int n = c.in(1, 4);
    double b = 0;
    for (int i = 0; i < n && b < bits; i++) {
      int d = c.in(2, max(2, o.maxDom * (o.maxDom > 8 ? 1 : 4)));
      d = min(d, 60);
      p.dom.push_back(d);
      b += log2(d);
    }
    fill(c, p, o, 1, 3, eqPct, target, nullptr);
  } else if (sel <= 9) {
    kind = "boolean";
    doms(2, 2);
    fill(c, p, o, c.in(2, 3), 3, 50, target, nullptr);
  } else if (sel <= 11) {
    kind = "planted";
    doms(2, c.in(2, min(o.maxDom, 5)));
    vector<int> sol;
    for (int d : p.dom) sol.push_back(c.in(0, d - 1));
    fill(c, p, o, c.in(2, 3), 3, eqPct, target - 3, &sol);
  } else if (sel == 12) {
    kind = "pigeons";
    int h = c.in(o.hard ? 3 : 2, 4), n = h + (o.hard ? 1 : c.in(0, 1));
    if (h == 4 && n == 5 && o.bitsMax < 10) n = 4;
    p.dom.assign(n, h);
    for (int i = 1; i <= n; i++)
      for (int j = i + 1; j <= n; j++)
        for (int a = 0; a < h; a++) p.cl.push_back({{i, false, a}, {j, false, a}});
  } else if (sel == 13) {
    kind = "colouring";
    int k = c.in(2, 4), n = c.in(3, max(3, min(o.maxVars, (int)(bits / log2(k) + 1))));
    p.dom.assign(n, k);
    int e = (int)(n * k * c.in(4, 11) / 10.0);
    for (int i = 0; i < e && (int)p.cl.size() + k <= o.maxClauses; i++) {
      auto v = pickVars(c, n, 2);
      if (v.size() < 2) break;
      for (int a = 0; a < k; a++) p.cl.push_back({{v[0], false, a}, {v[1], false, a}});
    }
  } else if (sel == 14) {
    kind = "order";  // x < y constraints and equalities
    int d = c.in(2, max(2, min(o.maxDom, 6))), n = c.in(2, max(2, min(o.maxVars, (int)(bits / log2(d) + 1))));
    p.dom.assign(n, d);
    for (int i = c.in(1, n + 2); i > 0; i--) {
      auto v = pickVars(c, n, 2);
      bool lt = c.chance(1, 2);
      for (int a = 0; a < d; a++) {  // x=a -> y>a   or x=a -> y=(a+s)%d
        Clause q{{v[0], false, a}};
        if (lt)
          for (int b = a + 1; b < d; b++) q.push_back({v[1], true, b});
        else q.push_back({v[1], true, (a + 1) % d});
        p.cl.push_back(q);
        if ((int)p.cl.size() > o.maxClauses) break;
      }
    }
  } else {
    kind = "parity";
    int n = c.in(2, max(2, min(o.maxVars, min(10, (int)bits))));
    p.dom.assign(n, 2);
    for (int i = c.in(1, n); i > 0; i--) {
      auto v = pickVars(c, n, c.in(2, 3));
      int par = c.in(0, 1);
      for (int m = 0; m < 1 << v.size(); m++)
        if (__builtin_popcount(m) % 2 != par) {
          Clause q;
          for (size_t j = 0; j < v.size(); j++) q.push_back({v[j], c.chance(1, 2), 0});
          for (size_t j = 0; j < v.size(); j++) {
            bool bit = m >> j & 1;  // forbid v_j = bit
            q[j] = q[j].eq ? Lit{v[j], true, !bit} : Lit{v[j], false, bit};
          }
          p.cl.push_back(q);
        }
    }
  }
  if (o.decorate) decorate(c, p, o);
  return p;
}

Problem genHard(Choices &c, bool th, string &kind) {
  Problem p;
  GenOpts o;
  o.hard = true;
  o.decorate = false;
  o.maxDom = c.chance(1, 6) ? 12 : 5;
  o.maxVars = 90;
  o.maxClauses = 900;
  int sel = c.in(0, 14);
  auto atMostOne = [&](int v, int w, int d) {
    for (int a = 0; a < d; a++) p.cl.push_back({{v, false, a}, {w, false, a}});
  };
  if (sel <= 4) {
    o.bitsMin = 14;
    o.bitsMax = th ? 70 : 50;
    o.tgtMin = -6;
    o.tgtMax = 3;
    p = genProblem(c, o, kind);
    kind = "hard-" + kind;
  } else if (sel == 5) {
    kind = "hard-boolean";
    int n = c.in(20, th ? 90 : 70), m = (int)(n * c.in(400, 450) / 100.0);
    p.dom.assign(n, 2);
    for (int i = 0; i < m; i++) p.cl.push_back(randClause(c, p, 3, 50));
  } else if (sel == 6) {
    kind = "hard-pigeons";
    int h = c.in(3, th ? 7 : 6), n = h + c.in(0, 2);
    p.dom.assign(n, h);
    for (int i = 1; i <= n; i++)
      for (int j = i + 1; j <= n; j++) atMostOne(i, j, h);
    while (c.chance(1, 2)) p.cl.push_back(randClause(c, p, c.in(1, 3), 50));
  } else if (sel == 7) {
    kind = "hard-colouring";
    int k = c.in(3, 5), n = c.in(8, k == 3 ? 60 : 25), e = (int)(n * (k == 3 ? c.in(20, 26) : k == 4 ? c.in(38, 48) : c.in(55, 70)) / 10.0);
    p.dom.assign(n, k);
    for (int i = 0; i < e; i++) {
      auto v = pickVars(c, n, 2);
      atMostOne(v[0], v[1], k);
    }
  } else if (sel == 8) {
    kind = "hard-queens";
    int n = c.in(4, th ? 12 : 9);
    p.dom.assign(n, n);
    for (int i = 1; i <= n; i++)
      for (int j = i + 1; j <= n; j++)
        for (int a = 0; a < n; a++)
          for (int b = 0; b < n; b++)
            if (a == b || abs(a - b) == j - i) p.cl.push_back({{i, false, a}, {j, false, b}});
    for (int i = c.in(0, 3); i > 0; i--) p.cl.push_back({{c.in(1, n), c.chance(1, 2), c.in(0, n - 1)}});
  } else if (sel == 9) {
    kind = "hard-latin";
    int n = c.in(3, th ? 7 : 6);
    p.dom.assign(n * n, n);
    for (int r = 0; r < n; r++)
      for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
          atMostOne(r * n + i + 1, r * n + j + 1, n);
          atMostOne(i * n + r + 1, j * n + r + 1, n);
        }
    for (int i = c.in(0, n * n / 2); i > 0; i--) {
      int v = c.in(1, n * n);
      p.cl.push_back({{v, c.chance(2, 3), c.chance(2, 3) ? ((v - 1) / n + (v - 1) % n) % n : c.in(0, n - 1)}});
    }
  } else if (sel == 10) {
    kind = "hard-chain";  // states x_0 .. x_t, inputs y_t: x_t+1 = f(x_t, y_t), some transitions missing
    int s = c.in(3, 8), y = c.in(2, 3), t = c.in(3, 14);
    for (int i = 0; i <= t; i++) p.dom.push_back(s);
    for (int i = 0; i < t; i++) p.dom.push_back(y);
    bool same = c.chance(1, 2);
    vector<int> f;
    for (int i = 0; i < t; i++) {
      if (i == 0 || !same) {
        f.clear();
        for (int j = 0; j < s * y; j++) f.push_back(c.chance(1, 5) ? -1 : c.in(0, s - 1));
      }
      for (int a = 0; a < s; a++)
        for (int b = 0; b < y; b++) {
          Clause q{{i + 1, false, a}, {t + 2 + i, false, b}};
          if (f[a * y + b] >= 0) q.push_back({i + 2, true, f[a * y + b]});
          p.cl.push_back(q);
        }
    }
    p.cl.push_back({{1, true, c.in(0, s - 1)}});
    p.cl.push_back({{t + 1, true, c.in(0, s - 1)}});
    for (int i = c.in(0, 4); i > 0; i--) p.cl.push_back(randClause(c, p, 2, 50));
  } else if (sel == 11) {
    kind = "hard-parity";
    int n = c.in(6, 14), m = n + c.in(-2, 2);
    p.dom.assign(n, 2);
    for (int i = 0; i < m; i++) {
      auto v = pickVars(c, n, 3);
      int par = c.in(0, 1);
      for (int b = 0; b < 8; b++)
        if (__builtin_popcount(b) % 2 != par) {
          Clause q;
          for (int j = 0; j < 3; j++) q.push_back(c.chance(1, 2) ? Lit{v[j], true, !(b >> j & 1)} : Lit{v[j], false, b >> j & 1});
          p.cl.push_back(q);
        }
    }
  } else if (sel == 12) {
    kind = "hard-permutation";  // all different, with side conditions of mixed sign
    int n = c.in(4, 7);
    p.dom.assign(n, n + c.in(0, 1));
    for (int i = 1; i <= n; i++)
      for (int j = i + 1; j <= n; j++) atMostOne(i, j, p.D(i));
    for (int i = c.in(n, 5 * n); i > 0; i--) p.cl.push_back(randClause(c, p, c.in(2, 3), 60));
  } else if (sel == 13) {
    kind = "hard-subsets";  // large domains of which the clauses leave a few values
    int h = c.in(2, 4), n = h + c.in(0, 1), D = c.chance(1, 3) ? 64 : c.in(8, 64);
    p.dom.assign(n, D);
    vector<int> vals;
    while ((int)vals.size() < h) {
      int a = c.chance(1, 5) ? D - 1 : c.in(0, D - 1);
      if (!count(vals.begin(), vals.end(), a)) vals.push_back(a);
    }
    for (int i = 1; i <= n; i++) {
      vector<int> mine = vals;
      c.shuffle(mine);
      if (c.chance(1, 3)) {  // by exclusion
        for (int a = 0; a < D; a++)
          if (!count(vals.begin(), vals.end(), a)) p.cl.push_back({{i, false, a}});
      } else {
        Clause q;
        for (int a : mine) q.push_back({i, true, a});
        p.cl.push_back(q);
      }
      for (int j = i + 1; j <= n; j++)
        for (int a : vals) p.cl.push_back({{i, false, a}, {j, false, a}});
    }
    for (int i = c.in(0, 3); i > 0; i--) p.cl.push_back(randClause(c, p, 2, 30));
  } else {
    kind = "hard-blocks";  // several small cores; the refutation has to come from one of them
    int b = c.in(2, 6);
    for (int i = 0; i < b; i++) {
      o.bitsMin = 5;
      o.bitsMax = 14;
      o.tgtMin = i ? 0 : -4;
      o.tgtMax = 3;
      string kk;
      Problem q = genProblem(c, o, kk);
      int off = p.n();
      for (int d : q.dom) p.dom.push_back(d);
      for (auto &cc : q.cl) {
        for (auto &l : cc) l.v += off;
        p.cl.push_back(cc);
      }
    }
    for (int i = c.in(0, 8); i > 0; i--) p.cl.push_back(randClause(c, p, c.in(2, 3), 50));
  }
  if (c.chance(1, 2)) c.shuffle(p.cl);
  GenOpts d;
  d.hard = true;
  d.emptyClauses = false;
  if (c.chance(1, 2)) decorate(c, p, d);
  return p;
}

Problem genLarge(Choices &c, int maxDom, string &kind, vector<int> *planted) {
  Problem p;
  vector<int> sol;
  auto var = [&](int d) {
    p.dom.push_back(d);
    sol.push_back(c.in(0, d - 1));
    return p.n();
  };
  // a clause over drawn variables that the planted solution satisfies
  auto good = [&](int k, int eqPct) {
    for (;;) {
      Clause q = randClause(c, p, k, eqPct);
      if (holds(q, sol)) return q;
      auto &l = q[c.in(0, (int)q.size() - 1)];  // repair one literal
      if (l.eq) l.a = sol[l.v - 1];
      else l.eq = true;
      if (holds(q, sol)) return q;
    }
  };
  bool unsat = false;
  int sel = c.in(0, 16);
  static const char *force = getenv("VERIF_LARGE");  // for experiments
  if (force) sel = atoi(force);
  static const int eqs[] = {0, 20, 50, 50, 80, 100};
  int eqPct = eqs[c.in(0, 5)];
  bool keepOrder = false;
  if (sel >= 15) {
    // many easy variables are decided before a small core: conflicts at deep levels
    kind = "large-deep";
    GenOpts o;
    o.bitsMin = 4;
    o.bitsMax = 11;
    o.tgtMin = -2;
    o.tgtMax = 3;
    o.maxDom = min(maxDom, 4);
    o.decorate = o.emptyClauses = o.dom1 = false;
    string k2;
    Problem core = genProblem(c, o, k2);
    int e = c.chance(1, 3) ? c.in(128, 330) : c.in(30, 140);
    map<pair<int, int>, int> occ;
    int most = 0;
    for (auto &q : core.cl)
      for (auto &l : q) most = max(most, l.eq ? ++occ[{l.v, l.a}] : core.D(l.v) == 2 ? ++occ[{l.v, 1 - l.a}] : 0);
    int reps = min(most + 1, c.in(1, 14)), off = 0, hi = min(maxDom, c.in(2, 3));
    bool coreFirst = c.chance(1, 2);
    auto addCore = [&]() {
      off = p.n();
      for (int d : core.dom) var(d);
    };
    if (coreFirst) addCore();
    vector<Lit> fav;
    vector<Clause> easy;
    for (int i = 0; i < e; i++) {
      int v = var(c.in(2, hi)), a = c.in(0, p.D(v) - 1);
      fav.push_back({v, true, a});
      for (int r = 0; r < reps; r++) {
        Clause q{{v, true, a}, {v, true, (a + 1 + (p.D(v) > 2 ? r % 2 : 0)) % p.D(v)}};
        if (c.chance(1, 6)) q[1] = {v, false, a};
        easy.push_back(q);
      }
    }
    if (!coreFirst) addCore();
    for (auto &q : core.cl) {
      for (auto &l : q) l.v += off;
      if (c.chance(1, 6)) {  // holds unless an easy variable has its usual value
        Lit f = c.pick(fav);
        f.eq = false;
        q.insert(q.begin() + c.in(0, (int)q.size()), f);
      }
    }
    if (c.chance(2, 3)) p.cl = easy, p.cl.insert(p.cl.end(), core.cl.begin(), core.cl.end()), keepOrder = c.chance(1, 2);
    else p.cl = core.cl, p.cl.insert(p.cl.end(), easy.begin(), easy.end());
    if (c.chance(1, 4)) c.shuffle(p.cl);
    unsat = true;  // not known
  } else if (sel == 14) {
    // decisions falsify the many literals of a clause one after the other, until it forces a conflict
    kind = "large-reason";
    int s = c.in(1, 6), n = c.chance(1, 2) ? c.in(100, 320) : c.in(10, 100), hi = min(maxDom, c.in(2, 5));
    vector<Lit> sel;
    for (int i = 0; i < s; i++) {
      int v = var(c.in(2, min(maxDom, 4)));
      sel.push_back({v, true, c.in(0, p.D(v) - 1)});
    }
    int y = var(min(maxDom, c.in(2, 3))), z = var(2), w = var(2);
    Clause longc;
    for (int i = 0; i < n; i++) {
      int v = var(c.in(2, hi));
      Lit l{v, p.D(v) == 2 || c.chance(2, 3), c.in(0, p.D(v) - 1)}, t = c.pick(sel), nt = t;
      longc.push_back(l);
      nt.eq = false;
      p.cl.push_back({nt, {v, !l.eq, l.a}});
      for (int j = 0; j < 2; j++) {
        int b = c.in(0, p.D(t.v) - 1);
        p.cl.push_back(b == t.a || c.chance(1, 2) ? Clause{t, {v, !l.eq, l.a}} : Clause{t, {t.v, true, b}});
      }
    }
    Lit ly{y, true, c.in(0, p.D(y) - 1)};
    longc.insert(longc.begin() + (c.chance(1, 2) ? c.in(0, (int)longc.size()) : 0), ly);
    p.cl.push_back(longc);
    Lit ny = ly;
    ny.eq = false;
    p.cl.push_back({ny, {z, true, 0}, {w, true, 1}});
    p.cl.push_back({ny, {z, true, 1}, {w, true, 1}});
    p.cl.push_back({ny, {z, true, c.in(0, 1)}, {w, true, 0}});
    if (c.chance(1, 2)) p.cl.push_back({ny, {w, true, 0}});
    for (int i = c.in(0, 10); i > 0; i--) p.cl.push_back(randClause(c, p, c.in(2, 3), eqPct));
    if (c.chance(1, 2)) c.shuffle(p.cl);
    unsat = true;  // not known
  } else if (sel == 13) {
    // numbers with many digits: high variable numbers and values, little to search
    kind = "large-numbers";
    int n = c.chance(1, 2) ? c.in(300, 3000) : c.in(3000, 13000), few = c.in(2, 12);
    for (int i = 0; i < n; i++) p.dom.push_back(1), sol.push_back(0);
    vector<int> open;
    for (int i = 0; i < few; i++) {
      int v = c.chance(1, 2) ? c.in(1, n) : n - c.in(0, min(n - 1, 20));
      if (p.D(v) > 1) continue;
      int d = c.chance(1, 6) ? c.in(2, min(maxDom, c.chance(1, 3) ? 12000 : 1200)) : c.in(2, min(maxDom, 5));
      p.dom[v - 1] = d;
      sol[v - 1] = c.in(0, d - 1);
      open.push_back(v);
    }
    for (int i = c.in(2, 60); i > 0; i--) {
      Clause q;
      for (int j = c.in(1, 4); j > 0; j--) {
        int v = c.chance(1, 6) ? c.in(1, n) : c.pick(open), d = p.D(v);
        q.push_back({v, c.in(0, 99) < eqPct, c.chance(1, 3) ? sol[v - 1] : c.chance(1, 2) ? d - 1 : c.in(0, d - 1)});
      }
      if (!holds(q, sol)) {
        auto &l = q[c.in(0, (int)q.size() - 1)];
        l.eq = !l.eq;
      }
      p.cl.push_back(q);
    }
    keepOrder = true;
  } else if (sel <= 2) {
    kind = "large-vars";
    int n = c.chance(1, 8) ? c.in(200, 600) : c.in(25, 150), hi = min(maxDom, c.in(2, 6));
    for (int i = 0; i < n; i++) var(c.in(2, hi));
    int m = (int)(n * c.in(3, 14) / 10.0), k = c.in(2, 3);
    for (int i = 0; i < m; i++) p.cl.push_back(good(c.chance(1, 25) ? c.in(8, 60) : c.in(c.chance(1, 6) ? 1 : 2, k), eqPct));
  } else if (sel <= 4) {
    kind = "large-chain";
    int n = c.in(20, 200), hi = min(maxDom, c.in(2, 5));
    for (int i = 0; i < n; i++) var(c.in(2, hi));
    auto order = pickVars(c, n, n);
    auto lit = [&](int v) {  // a literal that the planted solution satisfies
      int s = sol[v - 1];
      if (p.D(v) == 2 ? c.chance(1, 2) : c.chance(3, 4)) return Lit{v, true, s};
      int a = c.in(0, p.D(v) - 2);
      return Lit{v, false, a + (a >= s)};
    };
    Lit last = lit(order[0]);
    if (c.chance(2, 3)) p.cl.push_back({last});
    for (int i = 1; i < n; i++) {
      Lit x = lit(order[i]);
      Clause q{{last.v, !last.eq, last.a}, x};
      for (int j = c.chance(1, 5) ? c.in(1, 3) : 0; j > 0; j--) {
        Lit y = lit(order[c.in(0, i - 1)]);
        y.eq = !y.eq;
        q.insert(q.begin() + c.in(0, (int)q.size()), y);
      }
      p.cl.push_back(q);
      last = x;
    }
    if (c.chance(1, 3)) {
      p.cl.push_back({{last.v, !last.eq, last.a}});
      unsat = true;
    }
  } else if (sel <= 6) {
    kind = "large-domains";
    int n = c.in(1, 6), top = min(maxDom, c.chance(1, 10) ? c.in(400, 3000) : c.in(20, 320));
    if (top > 400) n = min(n, 2);
    for (int i = 0; i < n; i++) var(c.chance(1, 4) ? c.in(2, 5) : c.in(max(2, top / 2), top));
    int big = c.in(1, n), keep = c.in(1, 4);  // all but a few values of one variable are excluded
    if (p.D(big) <= 600 && c.chance(2, 3)) {
      vector<int> vals;
      for (int a = 0; a < p.D(big); a++)
        if (a != sol[big - 1]) vals.push_back(a);
      c.shuffle(vals);
      for (int i = 0; i < (int)vals.size() + 1 - keep; i++) {
        Clause q{{big, false, vals[i]}};
        if (n > 1 && c.chance(1, 8)) {
          int w = c.in(1, n);
          if (w != big) {
            int a = c.in(0, p.D(w) - 1);
            q.push_back(a == sol[w - 1] ? Lit{w, false, a} : Lit{w, true, a});
          }
        }
        p.cl.push_back(q);
      }
      if (c.chance(1, 6)) p.cl.push_back({{big, false, sol[big - 1]}});
    }
    for (int i = c.in(n, 25 * n); i > 0; i--) p.cl.push_back(good(c.in(1, 3), eqPct));
    for (int i = c.in(0, 3); i > 0; i--) {  // wide clauses over the values of one or two variables
      Clause q;
      for (int j = c.in(10, 80); j > 0; j--) {
        int v = c.in(1, n);
        q.push_back({v, true, c.in(0, p.D(v) - 1)});
      }
      if (holds(q, sol)) p.cl.push_back(q);
    }
    c.shuffle(p.cl);
  } else if (sel == 7) {
    kind = "large-clauses";
    int n = c.in(3, 14), hi = min(maxDom, c.in(2, 6));
    for (int i = 0; i < n; i++) var(c.in(2, hi));
    int m = c.chance(1, 15) ? c.in(3000, 12000) : c.in(200, 1500);
    vector<Clause> base;
    for (int i = 0; i < 150; i++) base.push_back(good(c.in(min(3, n), min(6, n)), eqPct));
    for (int i = 0; i < m; i++) p.cl.push_back(m > 2000 ? c.pick(base) : good(c.in(min(3, n), min(6, n)), eqPct));
  } else if (sel == 8) {
    kind = "large-lopsided";  // the same few literals, mostly of one sign, in very many clauses
    int n = c.in(2, 6), hi = min(maxDom, c.in(2, 4));
    for (int i = 0; i < n; i++) var(c.in(2, hi));
    unsat = c.chance(1, 2);
    eqPct = c.chance(3, 4) ? (c.chance(1, 2) ? 0 : 8) : 100;
    for (int i = c.chance(1, 4) ? c.in(1500, 4000) : c.in(150, 1200); i > 0; i--) {
      int k = c.in(2, max(2, min(4, n)));
      p.cl.push_back(unsat && n <= 3 ? randClause(c, p, k, eqPct) : good(k, eqPct));
    }
    if (unsat && n > 3)
      for (int i = c.in(1, 60); i > 0; i--) p.cl.push_back(randClause(c, p, c.in(2, 3), eqPct));
  } else if (sel >= 11) {
    // the values of a large domain are excluded by decisions on a few others, the value left over leads to conflicts
    kind = "large-entail";
    int n = c.in(3, 8), hi = min(maxDom, c.in(2, 3)), wide = c.chance(1, 3) ? 2 : 1;
    for (int i = 0; i < n; i++) var(c.in(2, hi));
    vector<int> big;
    for (int i = 0; i < wide; i++) big.push_back(var(min(maxDom, c.chance(1, 3) ? c.in(60, 140) : c.in(9, 70))));
    unsat = true;  // not known
    auto small = [&]() {
      int w = c.in(1, n);
      return Lit{w, c.chance(1, 2), c.in(0, p.D(w) - 1)};
    };
    for (int b : big) {
      int pct = c.in(80, 100);
      vector<Lit> unless;  // per selector the literal that permits its values
      for (int w = 1; w <= n; w++) unless.push_back({w, c.chance(1, 3), c.in(0, p.D(w) - 1)});
      int few = c.chance(1, 2) ? c.in(1, 3) : n, mode = c.in(0, 2);  // mode: 1 blocks of values, 2 most by units
      for (int a = 0; a < p.D(b); a++) {
        if (c.in(0, 99) >= pct) continue;
        int w = mode == 1 ? 1 + a * n / p.D(b) : c.in(1, few);
        Clause q{{b, false, a}};
        if (mode != 2 || c.chance(1, 10)) q.push_back(c.chance(1, 40) ? small() : unless[w - 1]);
        if (c.chance(1, 10)) q.push_back(small());
        p.cl.push_back(q);
        if (c.chance(1, 4)) {  // excluded in two ways
          Clause r{{b, false, a}, small(), small()};
          p.cl.push_back(r);
        }
      }
    }
    for (int i = c.in(n, 5 * n); i > 0; i--) {
      Clause q{small(), small()};
      if (c.chance(2, 3)) q.push_back(small());
      if (c.chance(1, 3)) {
        int b = c.pick(big);
        q.push_back({b, c.chance(1, 2), c.in(0, p.D(b) - 1)});
      }
      p.cl.push_back(q);
    }
    c.shuffle(p.cl);
  } else if (sel == 9) {
    kind = "large-core";  // a small hard core between many other variables
    GenOpts o;
    o.hard = true;
    o.bitsMin = 5;
    o.bitsMax = 10;
    o.tgtMin = -2;
    o.tgtMax = 1;
    o.maxDom = min(maxDom, 5);
    o.decorate = o.emptyClauses = o.dom1 = false;
    string k2;
    Problem core = genProblem(c, o, k2);
    for (int d : core.dom) var(d);
    int n0 = p.n(), n = n0 + c.in(10, 120), hi = min(maxDom, c.in(2, 4));
    while (p.n() < n) var(c.in(2, hi));
    vector<Clause> other;
    int m = (n - n0) * c.in(3, 10) / 10;
    for (int i = 0; i < m; i++) {
      Clause q = good(c.in(2, 3), eqPct);
      bool out = false;
      for (auto &l : q) out |= l.v > n0;
      if (out) other.push_back(q);
    }
    p.cl = core.cl;
    for (auto &q : other) p.cl.push_back(q);
    c.shuffle(p.cl);
    unsat = true;  // not known
  } else {
    kind = "large-long";  // a few very long clauses
    int n = c.chance(1, 2) ? c.in(40, 200) : c.in(200, 450), hi = min(maxDom, c.in(2, 4));
    for (int i = 0; i < n; i++) var(c.in(2, hi));
    for (int i = c.in(1, 6); i > 0; i--) {
      Clause q = good(c.in(30, n), eqPct);
      if (c.chance(1, 3))  // several literals of a variable
        for (int j = c.in(1, n); j > 0; j--) {
          int v = c.in(1, n), a = c.in(0, p.D(v) - 1);
          q.push_back({v, a != sol[v - 1], a});
          if (holds(Clause{q.back()}, sol) || p.D(v) == 2) q.pop_back();
        }
      p.cl.push_back(q);
      int pct = c.chance(1, 2) ? 100 : c.in(60, 99);
      for (auto &l : q)  // exclude most of its literals
        if (!holds(Clause{l}, sol) && c.in(0, 99) < pct) p.cl.push_back({{l.v, !l.eq, l.a}});
    }
    if (c.chance(1, 4)) {  // the last true literals, too
      auto &q = p.cl[0];
      for (auto &l : vector<Lit>(q.begin(), q.end()))
        if (holds(Clause{l}, sol)) p.cl.push_back({{l.v, !l.eq, l.a}});
      unsat = true;
    }
    c.shuffle(p.cl);
  }
  if (!keepOrder && c.chance(1, 2)) {
    vector<int> perm = pickVars(c, p.n(), p.n());
    Problem q = p;
    vector<int> s = sol;
    for (int i = 0; i < p.n(); i++) {
      q.dom[perm[i] - 1] = p.dom[i];
      s[perm[i] - 1] = sol[i];
    }
    for (auto &x : q.cl)
      for (auto &l : x) l.v = perm[l.v - 1];
    p = q;
    sol = s;
  }
  if (c.chance(1, 10)) p.dom.push_back(1), sol.push_back(0);
  if (planted) {
    if (unsat || !holds(p, sol)) planted->clear();
    else *planted = sol;
  }
  return p;
}

Problem genBoolean(Choices &c, int maxVars, string &kind) {
  GenOpts o;
  o.maxDom = 2;
  o.maxVars = maxVars;
  o.bitsMin = 1;
  o.bitsMax = maxVars;
  o.dom1 = false;
  Problem p = genProblem(c, o, kind);
  for (auto &q : p.cl)  // only v=1 / v=0
    for (auto &l : q)
      if (!l.eq) l = {l.v, true, 1 - l.a};
  for (int &d : p.dom) d = 2;
  for (auto &q : p.cl)
    for (auto &l : q) l.a &= 1;
  kind = "b-" + kind;
  return p;
}

const vector<Config> &mainConfigs() {
  static vector<Config> r;
  if (r.empty()) {
    auto add = [&](bool ch, bool wl, int h) {
      Config g;
      g.ch = ch;
      g.wl = wl;
      g.heur = h;
      r.push_back(g);
    };
    add(true, false, BK);
    add(true, false, LAZY);
    for (int h : {BK, VSIDS, VPOS, LAZY}) add(false, false, h);
    for (int h : {BK, VSIDS, VPOS, LAZY}) add(false, true, h);
  }
  return r;
}
int genRestart(Choices &c) {
  if (c.chance(1, 40)) {  // numbers that a narrow type turns into small ones
    static const int wide[] = {255, 256, 257, 258, 259, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 65539, 131073, 1000000, 16777217, 2147483645, 2147483647};
    return wide[c.in(0, 17)];
  }
  switch (c.in(0, 5)) {
    case 0:
    case 1: return 0;
    case 2: return c.in(1, 3);
    case 3: return c.in(1, 8);
    case 4: return c.in(2, 25);
    default: return c.in(0, 3) ? c.in(1, 100) : 1000;
  }
}
Config genMain(Choices &c, bool nonLazy) {
  Config g;
  do {
    g = c.pick(mainConfigs());
    if (g.ch && c.chance(1, 3)) g = c.pick(mainConfigs());
  } while (nonLazy && g.lazy());
  if (!g.ch) {
    g.restart = genRestart(c);
    g.longname = g.restart && c.chance(1, 4);
  }
  return g;
}
Config genBit(Choices &c) {
  Config g;
  g.prog = 1;
  g.heur = c.chance(1, 2) ? VSIDS : BK;
  g.restart = genRestart(c);
  g.longname = g.restart && c.chance(1, 4);
  return g;
}
