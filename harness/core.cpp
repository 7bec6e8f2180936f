#include "core.hpp"
#include <ostream>
using namespace std;

string show(const Lit &l) { return to_string(l.v) + (l.eq ? "=" : "!=") + to_string(l.a); }
string show(const Clause &c) {
  string s = "(";
  for (size_t i = 0; i < c.size(); i++) s += (i ? " " : "") + show(c[i]);
  return s + ")";
}
Clause normal(Clause c) {
  sort(c.begin(), c.end());
  c.erase(unique(c.begin(), c.end()), c.end());
  return c;
}
void fail(const string &m) { throw Fail{m}; }
u64 fnv(const string &s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

vector<string> Config::args() const {
  vector<string> r;
  if (prog == 1) {
    r = {"-solvenc"};
    if (heur != BK) r.push_back("-vsids");
  } else if (ch) {
    r = {"-solvech"};
    if (heur == LAZY) r.push_back("-lazy");
    return r;
  } else {
    r = {"-solvenc"};
    if (wl) r.push_back("-wl");
    if (heur == VSIDS) r.push_back("-vsids");
    if (heur == VPOS) r.push_back("-vsids_pos");
    if (heur == LAZY) r.push_back("-lazy");
  }
  if (restart > 0) {
    r.push_back(longname ? "-restarts" : "-restart");
    r.push_back(to_string(restart));
  }
  return r;
}
string Config::name() const {
  string s = prog ? "bitvec" : "src";
  for (auto &a : args()) s += " " + a;
  return s;
}

string toText(const Problem &p, const char *key) {
  string s = "p " + string(key) + " " + to_string(p.n()) + " " + to_string(p.cl.size()) + "\n";
  for (int i = 0; i < p.n(); i++) s += "d " + to_string(i + 1) + " " + to_string(p.dom[i]) + "\n";
  for (auto &c : p.cl) {
    for (auto &l : c) {
      s += show(l);
      s += ' ';
    }
    s += "0\n";
  }
  return s;
}

static string esc(const string &t) {
  string r;
  char b[8];
  for (unsigned char c : t)
    if (c > 32 && c < 127 && c != '%') r += (char)c;
    else {
      snprintf(b, sizeof b, "%%%02x", c);
      r += b;
    }
  return r;
}
static string unesc(const string &t) {
  string r;
  for (size_t i = 0; i < t.size(); i++)
    if (t[i] == '%' && i + 2 < t.size()) {
      r += (char)strtol(t.substr(i + 1, 2).c_str(), 0, 16);
      i += 2;
    } else r += t[i];
  return r;
}

string Case::serialise() const {
  ostringstream o;
  o << "kind " << (kind.empty() ? "-" : kind) << "\n";
  o << "dom";
  for (int d : p.dom) o << " " << d;
  o << "\n";
  for (auto &c : p.cl) {
    o << "cl";
    for (auto &l : c) o << " " << l.v << (l.eq ? "=" : "!") << l.a;
    o << "\n";
  }
  for (auto &g : cfgs)
    o << "cfg " << g.prog << " " << g.ch << " " << g.wl << " " << g.heur << " " << g.restart << " " << g.longname << "\n";
  if (!aux.empty()) {
    o << "aux";
    for (auto a : aux) o << " " << a;
    o << "\n";
  }
  for (auto &k : iv) o << "iv " << k.first << " " << k.second << "\n";
  for (auto &t : txt) o << "txt ." << esc(t) << "\n";
  return o.str();
}
Case Case::parse(const string &s) {
  Case c;
  istringstream in(s);
  string line;
  while (getline(in, line)) {
    istringstream l(line);
    string k;
    l >> k;
    if (k == "kind") {
      l >> c.kind;
      if (c.kind == "-") c.kind.clear();
    } else if (k == "dom") {
      int d;
      while (l >> d) c.p.dom.push_back(d);
    } else if (k == "cl") {
      Clause q;
      int v, a;
      char e;
      while (l >> v >> e >> a) q.push_back({v, e == '=', a});
      c.p.cl.push_back(q);
    } else if (k == "cfg") {
      Config g;
      l >> g.prog >> g.ch >> g.wl >> g.heur >> g.restart >> g.longname;
      c.cfgs.push_back(g);
    } else if (k == "aux") {
      uint32_t a;
      while (l >> a) c.aux.push_back(a);
    } else if (k == "iv") {
      string n;
      i64 v;
      l >> n >> v;
      c.iv[n] = v;
    } else if (k == "txt") {
      string t;
      l >> t;
      c.txt.push_back(unesc(t.substr(1)));
    }
  }
  return c;
}
u64 Case::hash() const { return fnv(serialise()); }
ostream &operator<<(ostream &o, const Case &c) { return o << c.serialise(); }

vector<Case> shrinkCase(const Case &c) {
  vector<Case> r;
  auto add = [&](Case d) { r.push_back(move(d)); };
  // fewer configurations
  if (c.cfgs.size() > 1) {
    for (size_t i = 0; i < c.cfgs.size(); i++) {
      Case d = c;
      d.cfgs = {c.cfgs[i]};
      add(d);
    }
    for (size_t i = 0; i < c.cfgs.size() && c.cfgs.size() > 2; i++) {
      Case d = c;
      d.cfgs.erase(d.cfgs.begin() + i);
      add(d);
    }
  }
  size_t m = c.p.cl.size();
  // fewer clauses, in chunks
  const size_t smallest = m > 400 ? m / 64 : 1;  // candidates are copies, so keep their number small
  for (size_t k = m; k >= smallest && k >= 1; k /= 2)
    for (size_t i = 0; i + k <= m; i += k) {
      Case d = c;
      d.p.cl.erase(d.p.cl.begin() + i, d.p.cl.begin() + i + k);
      add(d);
    }
  // drop variables with their literals
  auto drop = [&](int lo, int hi) {
    Case d = c;
    d.p.dom.erase(d.p.dom.begin() + lo - 1, d.p.dom.begin() + hi);
    d.p.cl.clear();
    for (auto &q : c.p.cl) {
      Clause e;
      for (auto l : q)
        if (l.v < lo || l.v > hi) {
          if (l.v > hi) l.v -= hi - lo + 1;
          e.push_back(l);
        }
      if (!e.empty() || q.empty()) d.p.cl.push_back(e);
    }
    add(d);
  };
  const int n = c.p.n();
  for (int k = n / 2; k >= 2 && k >= n / 32; k /= 2)
    for (int v = 1; v + k - 1 <= n; v += k) drop(v, v + k - 1);
  if (n <= 60)
    for (int v = n; v >= 1 && n > 1; v--) drop(v, v);
  // smaller domains
  auto narrow = [&](int v, int to) {
    Case d = c;
    d.p.dom[v - 1] = to;
    for (auto &q : d.p.cl)
      for (auto &l : q)
        if (l.v == v && l.a >= to) l.a = to - 1;
    add(d);
  };
  if (n <= 80)
    for (int v = 1; v <= n; v++) {
      if (c.p.D(v) > 8) narrow(v, c.p.D(v) / 2);
      if (c.p.D(v) > 8) narrow(v, c.p.D(v) - c.p.D(v) / 8);
      if (c.p.D(v) > 1) narrow(v, c.p.D(v) - 1);
    }
  // fewer literals
  if (m <= 150)
    for (size_t i = 0; i < m; i++)
      for (size_t j = 0; j < c.p.cl[i].size() && c.p.cl[i].size() > 1; j++) {
        Case d = c;
        d.p.cl[i].erase(d.p.cl[i].begin() + j);
        add(d);
      }
  // simpler configurations
  for (size_t i = 0; i < c.cfgs.size(); i++) {
    const Config &g = c.cfgs[i];
    if (g.restart) {
      Case d = c;
      d.cfgs[i].restart = 0;
      add(d);
      if (g.restart > 1) {
        d = c;
        d.cfgs[i].restart = g.restart / 2;
        add(d);
        d = c;
        d.cfgs[i].restart = g.restart - 1;
        add(d);
      }
    }
    if (g.longname) {
      Case d = c;
      d.cfgs[i].longname = false;
      add(d);
    }
  }
  // texts: remove lines / characters
  for (size_t t = 0; t < c.txt.size(); t++) {
    size_t n = c.txt[t].size();
    for (size_t k = n; k >= 1; k /= 2) {
      size_t step = 0;
      for (size_t i = 0; i + k <= n && step < 64; i += k, step++) {
        Case d = c;
        d.txt[t].erase(i, k);
        add(d);
      }
    }
  }
  // simpler auxiliary choices
  if (!c.aux.empty()) {
    bool any = false;
    for (auto a : c.aux) any |= a != 0;
    if (any) {
      Case d = c;
      for (auto &a : d.aux) a = 0;
      add(d);
      for (size_t i = 0; i < c.aux.size(); i++)
        if (c.aux[i]) {
          d = c;
          d.aux[i] = 0;
          add(d);
          if (c.aux[i] > 1) {
            d = c;
            d.aux[i] /= 2;
            add(d);
          }
        }
    }
  }
  for (auto &k : c.iv)
    if (k.second > 1) {
      Case d = c;
      d.iv[k.first] = k.second / 2;
      add(d);
      d.iv[k.first] = k.second - 1;
      add(d);
    }
  return r;
}
