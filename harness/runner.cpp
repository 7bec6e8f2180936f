#include "runner.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace std;

i64 g_execs = 0, g_maxCalls = 0;
double g_maxWall = 0;
string g_slowest;
static string scratch;

bool RunResult::exited() const { return WIFEXITED(status); }
int RunResult::code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : WIFSIGNALED(status) ? -WTERMSIG(status) : -999; }
string RunResult::ending() const {
  string s;
  if (capped) return "did not finish (search loop iteration cap reached)";
  if (hang) return "did not finish (no progress)";
  if (WIFSIGNALED(status)) {
    int g = WTERMSIG(status);
    s = string("killed by signal ") + to_string(g) + " (" + strsignal(g) + ")";
    if (g == SIGXCPU || g == SIGKILL) s += " - CPU limit: does not terminate";
    if (g == SIGXFSZ) s += " - endless output";
  } else s = "exit status " + to_string(code());
  if (!err.empty()) s += ", stderr: " + err.substr(0, 600);
  return s;
}

void setupScratch() {
  const char *cands[] = {"/dev/shm", getenv("TMPDIR"), "/tmp"};
  for (auto c : cands) {
    if (!c) continue;
    string t = string(c) + "/mvlcheck.XXXXXX";
    vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data())) {
      scratch = b.data();
      if (chdir(scratch.c_str()) == 0) return;
    }
  }
  fprintf(stderr, "no scratch directory\n");
  exit(2);
}
static void clearDir(const char *dir) {  // removes the files, not the directories
  DIR *d = opendir(dir);
  if (!d) return;
  vector<string> names;
  while (dirent *e = readdir(d)) names.push_back(e->d_name);
  closedir(d);
  for (auto &n : names)
    if (n != "." && n != "..") unlinkat(AT_FDCWD, (string(dir) + "/" + n).c_str(), 0);
}
void cleanupScratch() {
  if (scratch.empty()) return;
  if (chdir(scratch.c_str()) == 0) {
    clearDir("dir");
    rmdir("dir");
    clearDir(".");
  }
  if (chdir("/")) {
  }
  rmdir(scratch.c_str());
  scratch.clear();
}
map<string, string> snapshot(const string &dir) {
  map<string, string> r;
  DIR *d = opendir(dir.c_str());
  if (!d) return r;
  while (dirent *e = readdir(d)) {
    string n = e->d_name, p = dir == "." ? n : dir + "/" + n, t;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      r[p] = "(directory)";
      for (auto &q : snapshot(p)) r.insert(q);
    } else if (S_ISREG(st.st_mode)) {
      readFile(p, t);
      r[p] = "file " + t;
    } else r[p] = "(other)";
  }
  closedir(d);
  return r;
}
void writeFile(const string &name, const string &text) {
  int fd = open(name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t o = 0;
  while (o < text.size()) {
    ssize_t k = write(fd, text.data() + o, text.size() - o);
    if (k <= 0) break;
    o += (size_t)k;
  }
  close(fd);
}
bool readFile(const string &name, string &text) {
  int fd = open(name.c_str(), O_RDONLY);
  text.clear();
  if (fd < 0) return false;
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) text.append(b, (size_t)k);
  close(fd);
  return true;
}

struct Server {
  int sock = -1, out = -1, err = -1;
  shim_shared *sh = nullptr;
  pid_t pid = 0;
};
static map<string, Server> servers;

bool haveFlavour(const string &f) { return getenv(("BIN_" + f).c_str()) != nullptr; }

static Server &server(const string &flavour) {
  Server &s = servers[flavour];
  if (s.pid) return s;
  const char *bin = getenv(("BIN_" + flavour).c_str());
  if (!bin) {
    fprintf(stderr, "no binary for flavour %s\n", flavour.c_str());
    exit(2);
  }
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) exit(2);
  int shfd = memfd_create("sh", MFD_CLOEXEC);
  if (ftruncate(shfd, sizeof(shim_shared))) exit(2);
  s.sh = (shim_shared *)mmap(0, sizeof(shim_shared), PROT_READ | PROT_WRITE, MAP_SHARED, shfd, 0);
  s.out = memfd_create("out", MFD_CLOEXEC);
  s.err = memfd_create("err", MFD_CLOEXEC);
  s.sock = sv[0];
  s.pid = fork();
  if (s.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int a[4] = {shfd, sv[1], s.out, s.err};
    int t[4] = {SHIM_FD_SHARED, SHIM_FD_SOCK, SHIM_FD_OUT, SHIM_FD_ERR};
    for (int i = 0; i < 4; i++) dup2(a[i], t[i]);
    setenv("VSHIM", "1", 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1", 1);
    setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=99:print_stacktrace=0", 1);
    execl(bin, bin, (char *)0);
    _exit(126);
  }
  close(sv[1]);
  close(shfd);
  return s;
}

static bool rd(int fd, void *p, size_t n, int timeout_ms) {
  char *c = (char *)p;
  while (n) {
    struct pollfd pf = {fd, POLLIN, 0};
    int r = poll(&pf, 1, timeout_ms);
    if (r == 0) return false;
    if (r < 0) continue;
    ssize_t k = read(fd, c, n);
    if (k <= 0) {
      fprintf(stderr, "fork server died\n");
      exit(2);
    }
    c += k;
    n -= (size_t)k;
  }
  return true;
}

static void slurp(int fd, string &s) {
  off_t n = lseek(fd, 0, SEEK_END);
  s.resize((size_t)n);
  if (n && pread(fd, &s[0], (size_t)n, 0) != n) s.clear();
}

RunResult run(const string &flavour, const vector<string> &args, const RunOpts &o) {
  Server &s = server(flavour);
  g_execs++;
  bool san = flavour.find("san") != string::npos;
  shim_shared *h = s.sh;
  h->calls = 0;
  h->capped = 0;
  h->base_us = o.base_us;
  h->step_us = o.step_us;
  h->jump_at = o.jump_at;
  h->jump_us = o.jump_us;
  h->jump_read = o.jump_read;
  h->did_eof = 0;
  h->rd_fail = o.rd_fail;
  h->wr_fail = o.wr_fail;
  h->rd_errno = o.rd_errno;
  h->wr_errno = o.wr_errno;
  h->rd_chunk = o.rd_chunk;
  h->wr_chunk = o.wr_chunk;
  h->intr = o.intr;
  h->rd_bytes = h->wr_bytes = h->rd_faults = h->wr_faults = h->io_calls = 0;
  h->cap = o.cap ? o.cap : 3000000;
  h->use_stdin = o.use_stdin;
  h->cpu_s = o.cpu_s ? o.cpu_s : (san ? 40 : 10);
  h->fsize = o.fsize ? o.fsize : 400 << 20;
  h->as_mb = san ? 0 : 4096;
  h->stack_kb = o.stack_kb;
  h->perturb = o.perturb;
  if (ftruncate(s.out, 0) || ftruncate(s.err, 0)) exit(2);
  lseek(s.out, 0, SEEK_SET);
  lseek(s.err, 0, SEEK_SET);
  string req;
  for (auto &a : args) {
    req += a;
    req += '\0';
  }
  uint32_t len = (uint32_t)req.size();
  string msg((char *)&len, 4);
  msg += req;
  if (write(s.sock, msg.data(), msg.size()) != (ssize_t)msg.size()) exit(2);
  int32_t pid, st;
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  rd(s.sock, &pid, 4, -1);
  RunResult r;
  if (!rd(s.sock, &st, 4, 180000)) {
    r.hang = true;
    if (pid > 0) kill(pid, SIGKILL);
    rd(s.sock, &st, 4, -1);
  }
  r.status = st;
  r.capped = h->capped;
  r.calls = h->calls;
  r.rdFaults = h->rd_faults;
  r.wrFaults = h->wr_faults;
  r.rdBytes = h->rd_bytes;
  r.wrBytes = h->wr_bytes;
  r.jumped_read = h->jump_read && h->did_eof;
  clock_gettime(CLOCK_MONOTONIC, &t1);
  double wall = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
  if (r.calls > g_maxCalls) g_maxCalls = r.calls;
  if (wall > g_maxWall) {
    g_maxWall = wall;
    g_slowest = flavour;
    for (auto &a : args) g_slowest += " " + a;
  }
  slurp(s.out, r.out);
  slurp(s.err, r.err);
  return r;
}
