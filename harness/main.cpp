// Worker: explores one property with rapidcheck (or replays one case) and writes a JSON report.
//   worker explore <prop> <seed> <cases> <deadline_s> <thorough> <worker> <report> <replayfile>
//   worker replay <file>
#include "props.hpp"
#include "oracle.hpp"
#include "runner.hpp"
#include <rapidcheck.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/file.h>
#include <unistd.h>
#include <unordered_set>
using namespace std;

static string jstr(const string &s) {
  string r = "\"";
  char b[8];
  for (unsigned char c : s)
    if (c == '"' || c == '\\') r += '\\', r += (char)c;
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else r += (char)c;
  return r + "\"";
}
static double now() {
  return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}
static const Prop *find(const string &id) {
  for (auto &p : allProps())
    if (p.id == id) return &p;
  return nullptr;
}
enum Res { PASS, TRIVIAL, SKIPPED, FAILED };
static Res eval(const Prop &p, const Case &c, Ctx &x, string &msg) {
  auto cut = c.iv.find("cut");
  g_cut = cut == c.iv.end() ? 0 : max<i64>(0, cut->second);
  try {
    return p.check(c, x) ? PASS : TRIVIAL;
  } catch (const Skip &) {
    return SKIPPED;
  } catch (const Budget &) {
    return SKIPPED;
  } catch (const Fail &f) {
    msg = f.msg;
    return FAILED;
  }
}

static int replay(const char *file) {
  string t;
  if (!readFile(file, t)) {
    fprintf(stderr, "cannot read %s\n", file);
    return 2;
  }
  // first line: "property <id>"; lines starting with # are comments
  istringstream in(t);
  string l, id, body;
  while (getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (l.compare(0, 9, "property ") == 0) id = l.substr(9);
    else body += l + "\n";
  }
  const Prop *p = find(id);
  if (!p) {
    fprintf(stderr, "unknown property in %s\n", file);
    return 2;
  }
  setupScratch();
  Ctx x;
  string msg;
  Res r = eval(*p, Case::parse(body), x, msg);
  cleanupScratch();
  if (r == FAILED) {
    printf("FAILS property=%s: %s\n", id.c_str(), msg.c_str());
    return 1;
  }
  printf("%s property=%s\n", r == SKIPPED ? "SKIPPED" : "holds", id.c_str());
  return 0;
}

int main(int argc, char **argv) {
  if (argc == 2 && string(argv[1]) == "list") {
    printf("{");
    bool f = true;
    for (auto &p : allProps()) {
      printf("%s\"%s\":{\"quick\":%lld,\"thorough\":%lld,\"rule\":%s,\"flavours\":[", f ? "" : ",", p.id.c_str(), (long long)p.quick,
             (long long)p.thorough, jstr(p.rule).c_str());
      for (size_t i = 0; i < p.flavours.size(); i++) printf("%s\"%s\"", i ? "," : "", p.flavours[i].c_str());
      printf("]}");
      f = false;
    }
    printf("}\n");
    return 0;
  }
  if (argc == 3 && string(argv[1]) == "replay") return replay(argv[2]);
  if (argc != 10 || string(argv[1]) != "explore") {
    fprintf(stderr, "usage\n");
    return 2;
  }
  const Prop *p = find(argv[2]);
  if (!p) return 2;
  string seed = argv[3];
  i64 cases = atoll(argv[4]);
  double t0 = now(), deadline = t0 + atof(argv[5]);
  bool thorough = atoi(argv[6]);
  const int worker = atoi(argv[7]);  // of 8
  string report = argv[8], replayFile = argv[9];
  setupScratch();

  Ctx ctx;
  i64 evals = 0, nontriv = 0, skipped = 0, late = 0, shrinkEvals = 0;
  unordered_set<u64> seen;
  vector<string> samples;
  bool failed = false;
  Case worst;
  string worstMsg;
  double shrinkEnd = 0;
  string known;

  auto one = [&](const Case &c, string &msg) -> bool {  // true: fails
    Res r = eval(*p, c, ctx, msg);
    if (failed) {
      shrinkEvals++;
      // a smaller case that is merely slow is not the failure to reduce
      if (r == FAILED && msg.find("CPU limit") != string::npos && worstMsg.find("CPU limit") == string::npos) r = SKIPPED;
    } else {
      evals++;
      if (r == SKIPPED) skipped++;
      if (r == PASS && seen.insert(c.hash()).second) {
        nontriv++;
        string s = c.serialise();
        if (s.size() < 1500 && samples.size() < 3 && nontriv % 7 == 1) samples.push_back(s);
      }
    }
    if (r == FAILED) {
      if (!failed) shrinkEnd = now() + 60;
      failed = true;
      worst = c;
      worstMsg = msg;
      return true;
    }
    return false;
  };

  if (worker == 0)
    for (auto &k : p->known) {
      string how;
      bool f = k.second(how);
      known += (known.empty() ? "" : ",") + string("{\"id\":") + jstr(k.first) + ",\"fails\":" + (f ? "true" : "false") + ",\"how\":" + jstr(how) + "}";
    }
  if (p->fixed) {
    // the workers share them: each takes the next
    string shared = argv[8];
    shared = shared.substr(0, shared.rfind('/') + 1) + "next";
    int fd = open(shared.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600), index = -1, mine = -1;
    auto take = [&]() {
      int n = 0;
      flock(fd, LOCK_EX);
      if (pread(fd, &n, sizeof n, 0) != sizeof n) n = 0;
      int after = n + 1;
      if (pwrite(fd, &after, sizeof after, 0) != sizeof after) abort();
      flock(fd, LOCK_UN);
      return n;
    };
    mine = take();
    for (auto &c : p->fixed()) {
        if (++index != mine) continue;
        mine = take();
        string m;
        if (one(c, m)) {
          // shrink by hand: greedy
          bool again = true;
          while (again && now() < shrinkEnd) {
            again = false;
            for (auto &d : shrinkCase(worst)) {
              if (now() > shrinkEnd) break;
              string m2;
              if (one(d, m2)) {
                again = true;
                break;
              }
            }
          }
          break;
        }
      }
    close(fd);
  }

  if (!failed) {
    string params = "seed=" + seed + " max_success=" + to_string(cases) + " max_discard_ratio=1 verbose_shrinking=0";
    setenv("RC_PARAMS", params.c_str(), 1);
    auto words = rc::gen::container<vector<uint32_t>>(4, rc::gen::resize(rc::kNominalSize, rc::gen::arbitrary<uint32_t>()));
    auto base = rc::gen::noShrink(rc::gen::map(words, [&](const vector<uint32_t> &w) {
      Choices c(w);
      return p->gen(c, thorough);
    }));
    auto g = rc::gen::shrink(base, [](const Case &c) { return rc::seq::fromContainer(shrinkCase(c)); });
    // rapidcheck reports on stderr; keep it short
    streambuf *old = cerr.rdbuf();
    ostringstream sink;
    cerr.rdbuf(sink.rdbuf());
    rc::check(p->id, [&]() {
      if (!failed && now() > deadline) {
        late++;
        return;
      }
      if (failed && (now() > shrinkEnd || shrinkEvals > 20000)) return;
      Case c = *g;
      string msg;
      if (one(c, msg)) RC_FAIL(msg);
    });
    cerr.rdbuf(old);
  }
  cleanupScratch();

  ofstream o(report);
  o << "{\"evals\":" << evals << ",\"nontrivial\":" << nontriv << ",\"skipped\":" << skipped << ",\"late\":" << late
    << ",\"runs\":" << g_execs << ",\"maxcalls\":" << g_maxCalls << ",\"maxwall\":" << g_maxWall << ",\"slowest\":" << jstr(g_slowest) << ",\"shrink\":" << shrinkEvals << ",\"failed\":" << (failed ? "true" : "false") << ",\"msg\":" << jstr(worstMsg)
    << ",\"known\":[" << known << "],\"labels\":{";
  bool f = true;
  for (auto &l : ctx.labels) {
    o << (f ? "" : ",") << jstr(l.first) << ":" << l.second;
    f = false;
  }
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jstr(samples[i]);
  o << "],\"hashes\":[";
  f = true;
  for (u64 h : seen) {
    o << (f ? "" : ",") << h;
    f = false;
  }
  o << "],\"wall\":" << now() - t0 << "}\n";
  o.close();
  if (failed) {
    ofstream r(replayFile);
    string m = worstMsg;
    for (size_t i = 0; (i = m.find('\n', i)) != string::npos; i += 3) m.replace(i, 1, "\n# ");
    r << "property " << p->id << "\n# " << m << "\n" << worst.serialise();
  }
  return failed ? 1 : 0;
}
