#include "oracle.hpp"
using namespace std;

bool holds(const Lit &l, const vector<int> &val) { return (val[l.v - 1] == l.a) == l.eq; }
bool holds(const Clause &c, const vector<int> &val) {
  for (auto &l : c)
    if (holds(l, val)) return true;
  return false;
}
bool holds(const Problem &p, const vector<int> &val) {
  for (auto &c : p.cl)
    if (!holds(c, val)) return false;
  return true;
}

static u64 all1(int d) { return d >= 64 ? ~0ull : (1ull << d) - 1; }

// ------------------------------------------------------------------ sets of values: one word or many
struct Word {
  u64 m = 0;
  static Word full(int d) { return {all1(d)}; }
  static Word none(int) { return {0}; }
  void set(int a) { m |= 1ull << a; }
  void reset(int a) { m &= ~(1ull << a); }
  bool empty() const { return !m; }
  bool meets(const Word &o) const { return m & o.m; }
  bool within(const Word &o) const { return !(m & ~o.m); }
  void meet(const Word &o) { m &= o.m; }
  void join(const Word &o) { m |= o.m; }
  void minus(const Word &o) { m &= ~o.m; }
  int first() const { return __builtin_ctzll(m); }
  int size() const { return __builtin_popcountll(m); }
  bool operator==(const Word &o) const { return m == o.m; }
  bool fromBits(u64 x) {
    m = x;
    return true;
  }
};
struct Words {
  vector<u64> w;
  static Words full(int d) {
    Words r;
    r.w.assign((size_t)(d + 63) / 64, ~0ull);
    if (d % 64) r.w.back() = all1(d % 64);
    return r;
  }
  static Words none(int d) {
    Words r;
    r.w.assign((size_t)(d + 63) / 64, 0);
    return r;
  }
  void set(int a) { w[a / 64] |= 1ull << a % 64; }
  void reset(int a) { w[a / 64] &= ~(1ull << a % 64); }
  bool empty() const {
    for (u64 x : w)
      if (x) return false;
    return true;
  }
  bool meets(const Words &o) const {
    for (size_t i = 0; i < w.size(); i++)
      if (w[i] & o.w[i]) return true;
    return false;
  }
  bool within(const Words &o) const {
    for (size_t i = 0; i < w.size(); i++)
      if (w[i] & ~o.w[i]) return false;
    return true;
  }
  void meet(const Words &o) {
    for (size_t i = 0; i < w.size(); i++) w[i] &= o.w[i];
  }
  void join(const Words &o) {
    for (size_t i = 0; i < w.size(); i++) w[i] |= o.w[i];
  }
  void minus(const Words &o) {
    for (size_t i = 0; i < w.size(); i++) w[i] &= ~o.w[i];
  }
  int first() const {
    for (size_t i = 0; i < w.size(); i++)
      if (w[i]) return (int)(64 * i) + __builtin_ctzll(w[i]);
    return -1;
  }
  int size() const {
    int r = 0;
    for (u64 x : w) r += __builtin_popcountll(x);
    return r;
  }
  bool operator==(const Words &o) const { return w == o.w; }
  bool fromBits(u64) { return false; }
};

template <class S>
class RefT : public RefImpl {
  struct L {
    int v;
    S m;
  };
  typedef vector<S> State;
  vector<int> dom;
  vector<vector<L>> cl;
  vector<vector<int>> occ;  // clauses of a variable
  i64 budget, nodes = 0, visits = 0;

  bool propagate(State &d, vector<int> queue) {
    for (auto &x : d)
      if (x.empty()) return false;
    vector<char> in(cl.size(), 0);
    for (int i : queue) in[i] = 1;
    for (size_t h = 0; h < queue.size(); h++) {
      int ci = queue[h];
      in[ci] = 0;
      auto &c = cl[ci];
      int open = 0;
      const L *u = nullptr;
      bool sat = false;
      visits += (i64)c.size();
      if (visits > 250 * budget) throw Budget();
      for (auto &l : c) {
        const S &x = d[l.v - 1];
        if (x.within(l.m)) {
          sat = true;
          break;
        }
        if (x.meets(l.m)) {
          open++;
          u = &l;
        }
      }
      if (sat) continue;
      if (!open) return false;
      if (open == 1) {
        d[u->v - 1].meet(u->m);
        for (int j : occ[u->v])
          if (!in[j]) {
            in[j] = 1;
            queue.push_back(j);
          }
      }
    }
    return true;
  }
  // the shortest unsatisfied clause; nullptr if all are satisfied
  const vector<L> *pick(const State &d) {
    const vector<L> *best = nullptr;
    int bn = 1 << 30;
    for (auto &c : cl) {
      int open = 0;
      bool sat = false;
      for (auto &l : c) {
        const S &x = d[l.v - 1];
        if (x.within(l.m)) {
          sat = true;
          break;
        }
        if (x.meets(l.m)) open++;
      }
      visits += (i64)c.size();
      if (!sat && open < bn) {
        bn = open;
        best = &c;
      }
    }
    return best;
  }
  bool dpll(State d, const vector<int> &queue, vector<int> &model) {
    if (++nodes > budget) throw Budget();
    if (!propagate(d, queue)) return false;
    const vector<L> *best = pick(d);
    if (!best) {
      model.clear();
      for (auto &x : d) model.push_back(x.first());
      return true;
    }
    vector<int> changed;
    for (auto &l : *best) {
      if (!d[l.v - 1].meets(l.m)) continue;
      State e = d;
      e[l.v - 1].meet(l.m);
      vector<int> q = changed;
      q.insert(q.end(), occ[l.v].begin(), occ[l.v].end());
      sort(q.begin(), q.end());
      q.erase(unique(q.begin(), q.end()), q.end());
      if (dpll(e, q, model)) return true;
      d[l.v - 1].minus(l.m);
      if (d[l.v - 1].empty()) return false;
      changed = q;
    }
    return false;
  }
  double cnt(State d, const vector<int> &queue) {
    if (++nodes > budget) throw Budget();
    if (!propagate(d, queue)) return 0;
    const vector<L> *best = pick(d);
    if (!best) {
      double r = 1;
      for (auto &x : d) r *= x.size();
      return r;
    }
    double r = 0;
    vector<int> changed;
    for (auto &l : *best) {
      if (!d[l.v - 1].meets(l.m)) continue;
      State e = d;
      e[l.v - 1].meet(l.m);
      vector<int> q = changed;
      q.insert(q.end(), occ[l.v].begin(), occ[l.v].end());
      sort(q.begin(), q.end());
      q.erase(unique(q.begin(), q.end()), q.end());
      r += cnt(e, q);
      d[l.v - 1].minus(l.m);
      if (d[l.v - 1].empty()) break;
      changed = q;
    }
    return r;
  }
  State full() const {
    State d;
    for (int x : dom) d.push_back(S::full(x));
    return d;
  }
  vector<int> everything() const {
    vector<int> q;
    for (size_t i = 0; i < cl.size(); i++) q.push_back((int)i);
    return q;
  }

 public:
  RefT(const Problem &p, i64 b) : dom(p.dom), occ(p.dom.size() + 1), budget(b) {
    for (auto &c : p.cl) {
      vector<L> q;
      for (auto &l : c) {
        S m = l.eq ? S::none(p.D(l.v)) : S::full(p.D(l.v));
        if (l.eq) m.set(l.a);
        else m.reset(l.a);
        size_t i = 0;
        while (i < q.size() && q[i].v != l.v) i++;
        if (i < q.size()) q[i].m.join(m);
        else q.push_back({l.v, m});
      }
      bool taut = false;
      for (auto &x : q) taut |= x.m == S::full(p.D(x.v));
      if (taut) continue;
      for (auto &x : q) occ[x.v].push_back((int)cl.size());
      cl.push_back(q);
    }
  }
  bool sat(const vector<Lit> &units, vector<int> &model) override {
    State d = full();
    for (auto &l : units) {
      S m = l.eq ? S::none(dom[l.v - 1]) : S::full(dom[l.v - 1]);
      if (l.eq) m.set(l.a);
      else m.reset(l.a);
      d[l.v - 1].meet(m);
    }
    return dpll(d, everything(), model);
  }
  bool satSets(const vector<pair<int, u64>> &allowed) override {
    State d = full();
    for (auto &l : allowed) {
      S m = S::none(dom[l.first - 1]);
      if (!m.fromBits(l.second)) throw Budget();
      d[l.first - 1].meet(m);
    }
    vector<int> model;
    return dpll(d, everything(), model);
  }
  double count() override { return cnt(full(), everything()); }
};

Ref::Ref(const Problem &p, i64 b) : dom(p.dom) {
  bool wide = false;
  for (int d : p.dom) wide |= d > 64;
  if (wide) impl = make_shared<RefT<Words>>(p, b);
  else impl = make_shared<RefT<Word>>(p, b);
  if (p.product() <= 3000) {
    haveModels = true;
    vector<int> v(dom.size(), 0);
    for (;;) {
      if (holds(p, v)) all.push_back(v);
      size_t i = 0;
      while (i < v.size() && ++v[i] == dom[i]) v[i++] = 0;
      if (i == v.size()) break;
    }
  }
}

bool Ref::sat() { return satWith({}); }
bool Ref::satWith(const vector<Lit> &units) {
  if (haveModels) {
    for (auto &m : all) {
      bool ok = true;
      for (auto &l : units) ok = ok && holds(l, m);
      if (ok) {
        model = m;
        return true;
      }
    }
    return false;
  }
  return impl->sat(units, model);
}
bool Ref::implies(const Clause &c) {
  vector<Lit> neg;
  for (auto l : c) {
    l.eq = !l.eq;
    neg.push_back(l);
  }
  return !satWith(neg);
}
bool Ref::impliesSets(const vector<pair<int, u64>> &c) {
  if (haveModels) {
    for (auto &m : all) {
      bool ok = false;
      for (auto &l : c) ok = ok || (l.second >> m[l.first - 1] & 1);
      if (!ok) return false;
    }
    return true;
  }
  vector<pair<int, u64>> neg;
  for (auto &l : c) neg.push_back({l.first, ~l.second});
  return !impl->satSets(neg);
}
double Ref::count() {
  if (haveModels) return (double)all.size();
  return impl->count();
}

Problem boolean(int nvars, const vector<vector<int>> &cl) {
  Problem p;
  p.dom.assign(nvars, 2);
  for (auto &c : cl) {
    Clause q;
    for (int x : c) q.push_back({abs(x), true, x > 0 ? 1 : 0});
    p.cl.push_back(q);
  }
  return p;
}
