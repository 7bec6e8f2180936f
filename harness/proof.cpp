#include "proof.hpp"
#include <cstring>
using namespace std;

string showSet(const SetClause &c) {
  string s = "(";
  for (auto &l : c) {
    if (s.size() > 1) s += " ";
    s += to_string(l.first) + " in {";
    bool first = true;
    for (int a = 0; a < 64; a++)
      if (l.second >> a & 1) {
        s += (first ? "" : ",") + to_string(a);
        first = false;
      }
    s += "}";
  }
  return s + ")";
}
static SetClause merged(const SetClause &c) {
  map<int, u64> m;
  for (auto &l : c) m[l.first] |= l.second;
  return SetClause(m.begin(), m.end());
}
SetClause Proof::clause(const Clause &c) const {
  SetClause r;
  for (auto &l : c) r.push_back(lit(l));
  return r;
}
bool Proof::valid(const SetClause &c) const {
  for (auto &l : c)
    if (l.first < 1 || l.first >= (int)full.size() || (l.second & ~full[l.first])) return false;
  return true;
}
Proof::Proof(const Problem &p, i64 b) : budget(b) {
  full.push_back(0);
  for (int d : p.dom) full.push_back(d >= 64 ? ~0ull : (1ull << d) - 1);
  dom = full;
  watch.resize(full.size());
  for (auto &c : p.cl) add(clause(c));
}
void Proof::add(const SetClause &c0) {
  if (dead) return;
  SetClause c = merged(c0);
  // two literals that are not false first
  size_t n = 0;
  for (size_t i = 0; i < c.size() && n < 2; i++)
    if (dom[c[i].first] & c[i].second) swap(c[i], c[n++]);
  if (n == 0) {
    dead = true;
    return;
  }
  if (c.size() > 1) {
    int id = (int)cl.size();
    cl.push_back(c);
    watch[c[0].first].push_back(id);
    watch[c[1].first].push_back(id);
  }
  if (n == 1 && (!reduce(c[0].first, c[0].second) || !propagate())) dead = true;
  trail.clear();
  head = 0;
}
bool Proof::reduce(int v, u64 keep) {
  u64 d = dom[v] & keep;
  if (d == dom[v]) return true;
  trail.push_back({v, dom[v]});
  dom[v] = d;
  return d != 0;
}
bool Proof::propagate() {
  while (head < trail.size()) {
    int v = trail[head++].first;
    auto &w = watch[v];
    size_t j = 0;
    bool ok = true;
    for (size_t i = 0; i < w.size(); i++) {
      int id = w[i];
      w[j++] = id;
      if (!ok) continue;
      if (--budget < 0) throw ProofOver();
      SetClause &c = cl[id];
      int me = c[0].first == v ? 0 : 1;
      if (dom[v] & c[me].second) continue;
      SetLit &o = c[1 - me];
      if (!(dom[o.first] & ~o.second)) continue;  // satisfied
      bool moved = false;
      for (size_t k = 2; k < c.size(); k++)
        if (dom[c[k].first] & c[k].second) {
          swap(c[me], c[k]);
          watch[c[me].first].push_back(id);
          j--;
          moved = true;
          break;
        }
      budget -= (i64)c.size() / 4;
      if (!moved && !reduce(o.first, o.second)) ok = false;
    }
    w.resize(j);
    if (!ok) return false;
  }
  return true;
}
bool Proof::follows(const SetClause &c) {
  if (dead) return true;
  bool ok = true;
  for (auto &l : c) ok = ok && reduce(l.first, ~l.second);
  if (ok) ok = propagate();
  while (!trail.empty()) {
    dom[trail.back().first] = trail.back().second;
    trail.pop_back();
  }
  head = 0;
  return !ok;
}

// ---------------------------------------------------------------- reading a trace
static bool readLit(const char *b, const char *e, Lit &l) {
  char *q;
  long v = strtol(b, &q, 10);
  if (q == b || q >= e) return false;
  bool eq = *q == '=';
  if (!eq && *q != '!') return false;
  q++;
  if (!eq && q < e && *q == '=') q++;
  const char *s = q;
  long a = strtol(s, &q, 10);
  if (q == s || q > e) return false;
  while (q < e && (*q == ' ' || *q == '\t' || *q == '\r')) q++;
  if (q != e) return false;
  l = {(int)v, eq, (int)a};
  return true;
}
static bool readSet(const char *b, const char *e, SetLit &l) {
  char *q;
  long v = strtol(b, &q, 10);
  if (q == b || q >= e || *q != '=') return false;
  u64 m = 0;
  int n = 0;
  for (q++; q < e && (*q == '0' || *q == '1'); q++, n++) m = m << 1 | (u64)(*q - '0');
  if (n == 0 || n > 64 || q != e) return false;
  l = {(int)v, m};
  return true;
}
Derivation derivation(const Problem &p, const Config &g, const string &t, const Proof &pr) {
  Derivation d;
  vector<SetLit> decs;
  const char *s = t.c_str(), *end = s + t.size();
  auto starts = [](const char *b, const char *e, const char *w) { return (size_t)(e - b) >= strlen(w) && !memcmp(b, w, strlen(w)); };
  bool in = false;
  SetClause c;
  auto negated = [&](const SetLit &l) { return SetLit{l.first, pr.all(l.first) & ~l.second}; };
  while (s < end && d.broken.empty()) {
    const char *e = (const char *)memchr(s, '\n', (size_t)(end - s));
    if (!e) e = end;
    const char *b = s;
    s = e + 1;
    // the file name and time in front of the first item
    if (const char *tab = (const char *)memchr(b, '\t', (size_t)(e - b)))
      if (const char *tab2 = (const char *)memchr(tab + 1, '\t', (size_t)(e - tab - 1))) b = tab2 + 1;
    if (in) {
      Lit l;
      SetLit x;
      if (g.prog ? readSet(b, e, x) : readLit(b, e, l)) {
        if (!g.prog) {
          if (l.v < 1 || l.v > p.n() || l.a < 0 || l.a >= p.D(l.v)) d.broken = "a learned literal is outside the domain: " + string(b, e);
          else x = pr.lit(l);
        }
        c.push_back(x);
        continue;
      }
      in = false;
      d.steps.push_back(c);
    }
    if (!g.ch) {
      if (starts(b, e, "Learned a clause:")) in = true, c.clear();
    } else if (starts(b, e, "Decision: ") || starts(b, e, "Conflict: Propagating ")) {
      bool flip = b[0] == 'C';
      Lit l;
      if (!readLit(b + (flip ? 22 : 10), e, l) || l.v < 1 || l.v > p.n() || l.a < 0 || l.a >= p.D(l.v)) {
        d.broken = "unreadable: " + string(b, e);
        break;
      }
      if (!flip) {
        decs.push_back(pr.lit(l));
        continue;
      }
      // every decision above the refuted one has been refuted or was never needed
      SetLit refuted = negated(pr.lit(l));
      if (decs.empty() || decs.back() != refuted) {
        d.broken = "the search propagates " + show(l) + ", which is not the negation of its latest open decision";
        break;
      }
      c.clear();
      for (auto &x : decs) c.push_back(negated(x));
      d.steps.push_back(c);
      decs.pop_back();
    }
  }
  if (in) d.steps.push_back(c);
  return d;
}
