#pragma once
#include <stdint.h>
#define SHIM_FD_SHARED 191
#define SHIM_FD_SOCK 192
#define SHIM_FD_OUT 193
#define SHIM_FD_ERR 194
struct shim_shared {
  volatile int64_t calls, capped;
  volatile int64_t base_us, step_us, jump_at, jump_us, cap;
  volatile int64_t use_stdin, cpu_s, fsize, as_mb, perturb, stack_kb;
  /* jump_read: jump as soon as a file has been read to its end (did_eof) */
  volatile int64_t jump_read, did_eof;
  /* files: reading (writing) fails with rd_errno (wr_errno) once rd_fail (wr_fail) bytes went through (-1: never);
   * at most rd_chunk (wr_chunk) bytes per call (0: any); every intr-th call is interrupted (0: none) */
  volatile int64_t rd_fail, wr_fail, rd_errno, wr_errno, rd_chunk, wr_chunk, intr;
  volatile int64_t rd_bytes, wr_bytes, rd_faults, wr_faults, io_calls;
};
