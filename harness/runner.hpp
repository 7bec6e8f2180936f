// Runs the program under test through its fork server.
#pragma once
#include "core.hpp"
#include "shim.h"

struct RunOpts {
  i64 base_us = 1700000000ll * 1000000, step_us = 0, jump_at = 0, jump_us = 0, cap = 0;
  bool use_stdin = false;
  i64 cpu_s = 0, perturb = 0, fsize = 0, stack_kb = 0;
  bool jump_read = false;  // the clock jumps by jump_us once a file has been read to its end
  // files: reading / writing fails after that many bytes; bytes per call; every intr-th call is interrupted
  i64 rd_fail = -1, wr_fail = -1, rd_errno = 5, wr_errno = 28, rd_chunk = 0, wr_chunk = 0, intr = 0;
};
struct RunResult {
  int status = 0;
  bool capped = false, hang = false;
  bool exited() const;
  int code() const;  // exit code, or -signal
  std::string out, err;
  i64 calls = 0;
  bool jumped_read = false;
  i64 rdFaults = 0, wrFaults = 0, rdBytes = 0, wrBytes = 0;  // faults delivered, bytes that went through
  std::string ending() const;  // human readable
  bool clean() const { return exited() && code() == 0 && !capped && !hang; }
};

extern i64 g_execs, g_maxCalls;  // number of runs; most clock reads in one run
extern double g_maxWall;        // longest run in seconds
extern std::string g_slowest;   // ... and its command line
void setupScratch();                                          // creates and enters a private directory
void cleanupScratch();
// every file below dir: name -> kind and content
std::map<std::string, std::string> snapshot(const std::string &dir = ".");
void writeFile(const std::string &name, const std::string &text);
bool readFile(const std::string &name, std::string &text);
// flavour: key of the environment variable BIN_<flavour> holding the path of the binary
RunResult run(const std::string &flavour, const std::vector<std::string> &args, const RunOpts &o = RunOpts());
bool haveFlavour(const std::string &flavour);
