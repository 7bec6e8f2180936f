/* Linked into the program under test (-Wl,--wrap=main). Turns it into a fork
 * server: every request runs the real main() in a fresh child with the given
 * arguments, with stdout/stderr in memory files, resource limits, and a clock
 * that the harness owns. Without the environment variable VSHIM it is inert. */
#define _GNU_SOURCE
#include "shim.h"
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int __real_main(int, char **, char **);

static struct shim_shared *sh;

static int64_t now_us(int count) {
  if (!sh) {
    /* inert: constant clock is not wanted here; only reached without VSHIM */
    return 0;
  }
  int64_t n = sh->calls;
  if (count) sh->calls = ++n;
  if (count && sh->cap && n > sh->cap) {
    sh->capped = 1;
    _exit(121);
  }
  int64_t t = sh->base_us + n * sh->step_us;
  if (sh->jump_at && n >= sh->jump_at) t += sh->jump_us;
  if (sh->jump_read && sh->did_eof) t += sh->jump_us;
  return t;
}

/* the C++ library reads and writes files through these */
static int interrupted(void) {
  int64_t n = ++sh->io_calls;
  if (!sh->intr || n % sh->intr) return 0;
  errno = EINTR;
  return 1;
}
/* how many of n bytes may go through; 0: fail */
static size_t allowance(size_t n, int64_t done, int64_t fail, int64_t chunk) {
  if (fail >= 0 && (int64_t)n > fail - done) n = fail > done ? (size_t)(fail - done) : 0;
  if (chunk > 0 && (int64_t)n > chunk) n = (size_t)chunk;
  return n;
}
ssize_t read(int fd, void *p, size_t n) {
  if (!sh || fd <= 2 || n == 0) return syscall(SYS_read, fd, p, n);
  if (interrupted()) return -1;
  size_t a = allowance(n, sh->rd_bytes, sh->rd_fail, sh->rd_chunk);
  if (!a) {
    sh->rd_faults++;
    errno = (int)sh->rd_errno;
    return -1;
  }
  ssize_t k = syscall(SYS_read, fd, p, a);
  if (k == 0) sh->did_eof = 1;
  if (k > 0) sh->rd_bytes += k;
  return k;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (!sh || fd <= 2 || n == 0) return syscall(SYS_write, fd, p, n);
  if (interrupted()) return -1;
  size_t a = allowance(n, sh->wr_bytes, sh->wr_fail, sh->wr_chunk);
  if (!a) {
    sh->wr_faults++;
    errno = (int)sh->wr_errno;
    return -1;
  }
  ssize_t k = syscall(SYS_write, fd, p, a);
  if (k > 0) sh->wr_bytes += k;
  return k;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!sh || fd <= 2 || n <= 0) return syscall(SYS_writev, fd, v, n);
  for (int i = 0; i < n; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); /* a short write */
  return 0;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  int64_t t = now_us(1);
  if (tv) {
    tv->tv_sec = t / 1000000;
    tv->tv_usec = t % 1000000;
  }
  return 0;
}
time_t time(time_t *out) {
  time_t t = (time_t)(now_us(0) / 1000000);
  if (out) *out = t;
  return t;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  (void)id;
  int64_t t = now_us(1);
  if (ts) {
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
  }
  return 0;
}

static void lim(int what, rlim_t v) {
  struct rlimit r = {v, v};
  setrlimit(what, &r);
}

static int rd(int fd, void *p, size_t n) {
  char *c = p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) {
      if (k < 0 && errno == EINTR) continue;
      return -1;
    }
    c += k;
    n -= (size_t)k;
  }
  return 0;
}

__attribute__((noinline)) static void dirty_stack(int v) {
  volatile char buf[200000];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)v;
}

static char argbuf[1 << 16];
static char *args[256];

int __wrap_main(int argc, char **argv, char **envp) {
  if (!getenv("VSHIM")) return __real_main(argc, argv, envp);
  void *m = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED, SHIM_FD_SHARED, 0);
  if (m == MAP_FAILED) return 125;
  int devnull = open("/dev/null", O_RDWR);
  for (;;) {
    uint32_t len;
    if (rd(SHIM_FD_SOCK, &len, 4) || len >= sizeof argbuf || rd(SHIM_FD_SOCK, argbuf, len)) _exit(0);
    pid_t pid = fork();
    if (pid == 0) {
      sh = m;
      int n = 0;
      args[n++] = (char *)"Solver";
      for (char *p = argbuf; p < argbuf + len && n < 255; p += strlen(p) + 1) args[n++] = p;
      args[n] = 0;
      int in = sh->use_stdin ? open("stdin", O_RDONLY) : devnull;
      dup2(in, 0);
      dup2(SHIM_FD_OUT, 1);
      dup2(SHIM_FD_ERR, 2);
      for (int fd = 190; fd < 200; fd++) close(fd);
      lim(RLIMIT_CORE, 0);
      lim(RLIMIT_STACK, (rlim_t)(sh->stack_kb ? sh->stack_kb : 8192) << 10);
      lim(RLIMIT_CPU, (rlim_t)(sh->cpu_s ? sh->cpu_s : 10));
      lim(RLIMIT_FSIZE, (rlim_t)(sh->fsize ? sh->fsize : (256 << 20)));
      if (sh->as_mb) lim(RLIMIT_AS, (rlim_t)sh->as_mb << 20);
      if (sh->perturb) {
        mallopt(M_PERTURB, (int)sh->perturb);
        dirty_stack((int)sh->perturb);
      }
      exit(__real_main(n, args, envp));
    }
    int st = 0;
    if (pid < 0) st = 0x7f00 | 1;
    int32_t msg[2] = {(int32_t)pid, 0};
    if (write(SHIM_FD_SOCK, &msg[0], 4) != 4) _exit(0);
    if (pid > 0)
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
      }
    msg[1] = st;
    if (write(SHIM_FD_SOCK, &msg[1], 4) != 4) _exit(0);
  }
}
